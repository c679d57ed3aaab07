"""Detectors in miniature: the real RunnableController with the real areaDetector
parts, over a simulated driver, position labeller and file writer that record
where each frame ended up; and optionally a scan over several of these."""
import os
import random
import xml.etree.ElementTree as ET

import cothread
import numpy as np
from annotypes import add_call_types

import mh
import manrig
from motionrig import Bag, flag, num, text

from malcolm.core import Part, Post, Process
from malcolm.modules import builtin, scanning
from malcolm.modules.ADCore.parts import (
    DetectorDriverPart,
    FilepathTranslatorPart,
    HDFWriterPart,
    PositionLabellerPart,
    StatsPluginPart,
)

SUFFIXES = "NXY3456789"
# What can be chosen of an Xmap, the first is what a mapping scan needs
XMAP = dict(
    collectMode=["MCA mapping", "MCA spectra", "List mapping"],
    pixelAdvanceMode=["Gate", "Sync"],
    presetMode=["No preset", "Real time"],
    ignoreGate=["No", "Yes"],
    autoPixelsPerBuffer=["Manual", "Auto"],
    inputLogicPolarity=["Normal", "Inverted"],
)
GRACE = 4.0  # s without a frame before a run is given up


class Chain:
    """The hardware and IOC of one detector"""

    def __init__(self, rig, name, rng, hard, windows=None):
        self.rig, self.name, self.hard, self.windows = rig, name, hard, windows
        # How long things take doesn't change what is done
        self.rng = rng = random.Random(rng.random())
        self.m = rig.m
        self.base = 0  # where the scan is, when the detector triggers itself
        self.acquisitions = []
        self.missed = []
        self.lost = []
        self.taken = set()
        self.queue = []
        self.files = []
        self.puts = []
        self.stopping = False
        self.over = False
        self.gated = rng.random() < 0.5
        self.readout = 0.0  # that the driver adds to the period by itself
        self.lazy = rng.choice([0, 0, 1, 3])
        i = lambda v, s=True: num(v, s, "int32")
        self.drv = Bag("hw").prepare(
            dict(
                arrayCounter=i(rng.choice([0, 17]), self.slow("drv", "arrayCounter", lambda v: self.drv.set("arrayCounterReadback", v))),
                arrayCounterReadback=i(rng.choice([0, 17]), None),
                imageMode=text(rng.choice(["Single", "Continuous", "Multiple"]), self.slow("drv", "imageMode")),
                numImages=i(rng.choice([1, 3]), self.slow("drv", "numImages")),
                arrayCallbacks=flag(False, self.slow("drv", "arrayCallbacks")),
                acquiring=flag(False),
                acquirePeriod=num(1.0, self.slow("drv", "acquirePeriod", self.stretch)),
                exposure=num(0.5, self.slow("drv", "exposure", self.stretch)),
                triggerMode=text("Hard" if hard else "Internal", True),
                attributesFile=text("", self.slow("drv", "attributesFile")),
                driverVersion=text("2.3.1"),
                andorReadoutTime=num(0.003),
                andorFrameTransferMode=flag(rng.random() < 0.3),
                andorAccumulatePeriod=num(0.004),
                postCount=i(99, self.slow("drv", "postCount")),
                averageSamples=text("No", self.slow("drv", "averageSamples")),
                triggerOffCondition=text("Always On" if not hard else "Off"),
                # Xmap
                pixelsPerRun=i(5, self.slow("drv", "pixelsPerRun")),
                pixelsPerBuffer=i(12, self.slow("drv", "pixelsPerBuffer")),
                binsInSpectrum=i(1024, self.slow("drv", "binsInSpectrum")),
                **{
                    x: text(rng.choice(v), self.slow("drv", x)) for x, v in XMAP.items()
                },
            ),
            dict(start=self.start, stop=self.stop),
        )
        self.pos = Bag("hw").prepare(
            dict(
                enableCallbacks=flag(False, self.slow("pos", "enableCallbacks")),
                idStart=i(1, self.slow("pos", "idStart")),
                arrayCounter=i(0, self.slow("pos", "arrayCounter", lambda v: self.pos.set("arrayCounterReadback", v))),
                arrayCounterReadback=i(0, None),
                xml=text("", self.slow("pos", "xml", self.load)),
                qty=i(0, None),
            ),
            dict(start=self.pos_start, stop=self.pos_stop, delete=self.pos_delete),
        )
        self.positions, self.pos_running, self.expected = [], False, 0
        hdf = dict(
            arrayCounter=i(5, self.slow("hdf", "arrayCounter", lambda v: self.hdf.set("arrayCounterReadback", v))),
            arrayCounterReadback=i(5, None),
            numCapture=i(99, self.slow("hdf", "numCapture")),
            numCapturedReadback=i(rng.choice([0, 8]), None),
            xmlLayoutValid=flag(True),
            xmlErrorMsg=text(""),
            uniqueId=i(0, None),
            running=flag(False),
            driverVersion=text("2.3.1"),
            numExtraDims=i(3, self.slow("hdf", "numExtraDims")),
            flushAttrPerNFrames=i(1, self.slow("hdf", "flushAttrPerNFrames")),
            flushDataPerNFrames=i(1, self.slow("hdf", "flushDataPerNFrames")),
        )
        for x in ("positionMode", "enableCallbacks", "swmrMode", "storeAttr", "dimAttDatasets", "lazyOpen"):
            hdf[x] = flag(False, self.slow("hdf", x))
        for x in ("fileWriteMode", "filePath", "fileName", "fileTemplate", "xmlLayout"):
            hdf[x] = text("old", self.slow("hdf", x))
        for s in SUFFIXES:
            hdf["posNameDim" + s] = text("old", self.slow("hdf", "posNameDim" + s))
            hdf["extraDimSize" + s] = i(7, self.slow("hdf", "extraDimSize" + s))
        self.hdf = Bag("hw").prepare(hdf, dict(start=self.hdf_start, stop=self.hdf_stop, flushNow=lambda: None))
        self.hdf_stopping = False
        self.stat = Bag("hw").prepare(
            dict(
                enableCallbacks=flag(False, self.slow("stat", "enableCallbacks")),
                computeStatistics=flag(False, self.slow("stat", "computeStatistics")),
                arrayCounter=i(0, True),
                attributesFile=text("", self.slow("stat", "attributesFile")),
            )
        )
        cothread.Spawn(self.consume)

    def slow(self, block, name, then=None):
        """A put that takes its time"""

        def put(value):
            if self.rng.random() < 0.3:
                cothread.Sleep(self.rng.choice([0.0, 0.001, 0.004]))
            getattr(self, block).set(name, value)
            if then:
                then(value)

        return put

    def stretch(self, _):
        d = self.drv
        if self.readout and d.get("acquirePeriod") < d.get("exposure") + self.readout:
            d.set("acquirePeriod", d.get("exposure") + self.readout)

    def local(self, path):
        """Where a path that the IOC was given is here"""
        if not self.windows or not path:
            return path
        letter, prefix, network = self.windows
        if network:
            want = network.replace("/", "\\") + prefix.replace("/", "\\")
            if not path.replace("/", "\\").startswith(want):
                return "not below %s: %s" % (want, path)
            rest = path[len(want):]
        else:
            if not path.startswith(letter + ":"):
                return "not on drive %s: %s" % (letter, path)
            rest = path[2:]
        return prefix + rest.replace("\\", "/")

    # -- driver
    def start(self):
        d = self.drv
        mode = d.get("imageMode")
        target = {"Single": 1, "Multiple": d.get("numImages")}.get(mode, 10**9)
        a = dict(
            target=target, got=0, first=d.get("arrayCounterReadback"), base=self.base, exposure=d.get("exposure"),
            period=d.get("acquirePeriod"), attributes=self.read(d.get("attributesFile")), stopped=False, scan=self.rig.scan_id,
            xmap={x: d.get(x) for x in list(XMAP) + ["pixelsPerRun", "pixelsPerBuffer"]},
            callbacks=d.get("arrayCallbacks"), post=d.get("postCount"), average=d.get("averageSamples"),
        )
        self.acquisitions.append(a)
        self.stopping = False
        cothread.Sleep(self.rng.choice([0, 0.003]))
        d.set("acquiring", True)
        last = 0
        while a["got"] < target and not self.stopping and not self.over:
            if not self.hard:
                if self.ready():
                    self.frame(a["base"] + a["got"])
                cothread.Sleep(self.rng.choice([0, 0.0005, 0.001, 0.003]))
            else:
                cothread.Sleep(0.0005)
            last += 1
        a["stopped"] = self.stopping
        self.drain()
        d.set("acquiring", False)

    def drain(self):
        for _ in range(4000):
            if not self.queue or self.over:
                break
            cothread.Sleep(0.0005)

    def stop(self):
        self.stopping = True

    def acquiring(self):
        return bool(self.drv.get("acquiring")) and not self.stopping

    def ready(self):
        """Positions are loaded faster than frames are taken"""
        if len(self.positions) - len(self.queue) > 1 or not self.pos_running:
            return True
        left = self.rig.total(self) - (self.loaded_to or 0)
        if left <= 0:
            return True
        self.waits += 1
        return self.waits > 400

    waits = 0

    def trigger(self, truth):
        """The scan is at this point"""
        a = self.acquisitions[-1] if self.acquisitions else None
        if not self.acquiring() or a["got"] >= a["target"]:
            self.missed.append(truth)
            return
        self.frame(truth)

    def frame(self, truth):
        a = self.acquisitions[-1]
        a["got"] += 1
        self.waits = 0
        self.taken.add(truth)
        uid = self.drv.get("arrayCounterReadback") + 1
        if self.drv.get("arrayCallbacks"):
            self.queue.append((uid, truth))
        else:
            self.lost.append((truth, "driver callbacks off"))
        if not self.lazy:
            self.pump()
        self.drv.set("arrayCounterReadback", uid)
        self.m.count("frames")

    def consume(self):
        while not self.over:
            if self.queue:
                self.pump()
            cothread.Sleep(self.rng.choice([0.0, 0.001]) * self.lazy)

    pumping = False

    def pump(self):
        # One frame at a time: setting a value might wait for its block's lock
        if self.pumping:
            return
        self.pumping = True
        try:
            while self.queue:
                uid, truth = self.queue[0]
                self.label(uid, truth)
                self.queue.pop(0)
        finally:
            self.pumping = False

    # -- labeller
    loaded_to = 0

    def load(self, value):
        if not value:
            return
        root = ET.fromstring(value.split("?>", 1)[-1])
        new = [{k: int(v) for k, v in p.attrib.items()} for p in root.iter("position")]
        names = [d.attrib["name"] for d in root.iter("dimension")]
        for p in new:
            if sorted(p) != sorted(names):
                self.lost.append((None, "position %s of dimensions %s" % (p, names)))
        self.positions += new
        self.loaded_to = (self.loaded_to or 0) + len(new)
        self.pos.set("qty", len(self.positions))
        self.m.count("positions_loaded", len(new))

    def pos_delete(self):
        cothread.Sleep(self.rng.choice([0, 0.002]))
        del self.positions[:]
        self.loaded_to = self.rig.done(self)
        self.pos.set("qty", 0)

    def pos_start(self):
        self.expected = self.pos.get("idStart")
        self.pos_running = True
        self.pos_stopping = False
        while self.pos_running and not self.over:
            cothread.Sleep(0.002)

    def pos_stop(self):
        self.pos_running = False

    def label(self, uid, truth):
        if not self.pos.get("enableCallbacks"):
            self.lost.append((truth, "labeller callbacks off"))
            return
        if not self.pos_running:
            self.lost.append((truth, "labeller not running"))
        elif uid < self.expected:
            self.lost.append((truth, "id %d when %d was expected" % (uid, self.expected)))
        else:
            while self.expected < uid and self.positions:
                self.positions.pop(0)
                self.expected += 1
            if self.positions:
                where = self.positions.pop(0)
                self.expected += 1
                self.write(uid, where, truth)
                if not self.positions:
                    self.pos_running = False  # It has done them all
            else:
                self.lost.append((truth, "no position for id %d" % uid))
            self.pos.set("qty", len(self.positions))
        self.pos.set("arrayCounterReadback", self.pos.get("arrayCounterReadback") + 1)

    # -- writer
    def read(self, path):
        path = self.local(path)
        if not path:
            return None
        try:
            with open(path) as f:
                return ET.fromstring(f.read())
        except (OSError, ET.ParseError) as e:
            return "%s: %s" % (path, e)

    def hdf_start(self):
        h = self.hdf
        f = {x: h.get(x) for x in h.attrs}
        f.update(layout=self.read(h.get("xmlLayout")), ledger={}, truths={}, order=[], scan=self.rig.scan_id, open=True)
        f["stat"] = {x: self.stat.get(x) for x in self.stat.attrs}
        f["stat"]["xml"] = self.read(f["stat"]["attributesFile"])
        self.files.append(f)
        h.set("numCapturedReadback", 0)
        h.set("running", True)
        self.hdf_stopping = False
        while not self.hdf_stopping and not self.over:
            cothread.Sleep(0.002)
        f["open"] = False
        h.set("running", False)

    def hdf_stop(self):
        self.hdf_stopping = True

    def write(self, uid, where, truth):
        h = self.hdf
        f = self.files[-1] if self.files else None
        if not f or not f["open"] or not h.get("enableCallbacks"):
            self.lost.append((truth, "writer not capturing"))
            return
        h.set("uniqueId", uid)
        loc = []
        for i in range(f["numExtraDims"] + 1):
            s = SUFFIXES[i]
            at = where.get(f["posNameDim" + s])
            if at is None or not 0 <= at < f["extraDimSize" + s]:
                self.lost.append((truth, "no place for %s" % where))
                return
            loc.append(at)
        loc = tuple(reversed(loc))
        f["ledger"][loc] = truth
        f["truths"].setdefault(truth, []).append(loc)
        f["order"].append(truth)
        h.set("numCapturedReadback", h.get("numCapturedReadback") + 1)
        h.set("arrayCounterReadback", h.get("arrayCounterReadback") + 1)


class Segment(Part):
    """Knows what part of the scan a detector has been told to do"""

    def prepare(self, chain):
        self.chain = chain
        return self

    def setup(self, registrar):
        super().setup(registrar)
        h = scanning.hooks
        registrar.hook(h.PreConfigureHook, self.begin)
        registrar.hook((h.ConfigureHook, h.SeekHook, h.PostRunArmedHook), self.configure)

    @add_call_types
    def begin(self, context: scanning.hooks.AContext) -> None:
        self.chain.done_to = 0

    @add_call_types
    def configure(
        self,
        completed_steps: scanning.hooks.ACompletedSteps,
        steps_to_do: scanning.hooks.AStepsToDo,
        generator: scanning.hooks.AGenerator,
    ) -> None:
        c = self.chain
        c.generator = generator
        c.base = completed_steps
        c.segment = (completed_steps, completed_steps + steps_to_do)
        c.segments.append(c.segment)


class Beam(Part):
    """What moves the sample and triggers the detectors"""

    def prepare(self, rig):
        self.rig = rig
        return self

    def setup(self, registrar):
        super().setup(registrar)
        h = scanning.hooks
        registrar.hook(h.ReportStatusHook, self.status)
        registrar.hook((h.ConfigureHook, h.SeekHook, h.PostRunArmedHook), self.configure)
        registrar.hook(h.RunHook, self.run)

    @add_call_types
    def status(self) -> scanning.hooks.UInfos:
        return [scanning.infos.DetectorMutiframeInfo(c.mri) for c in self.rig.chains]

    @add_call_types
    def configure(
        self,
        completed_steps: scanning.hooks.ACompletedSteps,
        steps_to_do: scanning.hooks.AStepsToDo,
        generator: scanning.hooks.AGenerator,
    ) -> None:
        self.rig.generator = generator
        self.rig.segment = (completed_steps, completed_steps + steps_to_do)

    @add_call_types
    def run(self, context: scanning.hooks.AContext) -> None:
        r = self.rig
        start, end = r.segment
        r.ran.append(r.segment)
        for step in range(start, end):
            for c in r.chains:
                for j in range(r.fps.get(c.name, 1) if c.hard else 0):
                    for _ in range(1000):
                        if c.ready():
                            break
                        context.sleep(0.001)
                    c.trigger(step * r.fps[c.name] + j)
            context.sleep(r.rng.choice([0, 0, 0.001, 0.002]))


class Rig:
    """One detector, or a scan of several detectors"""

    def __init__(self, m, rng, dets=1, outer=False, driver="base", hard=None, windows=None, stats=None, exposure=None, useful=True, min_period=0.0, demand=False):
        self.m, self.rng, self.outer = m, random.Random(rng.random()), outer
        self.generator = self.segment = None
        self.ran = []
        self.scan_id = 0
        self.fps = {}
        self.chains = []
        self.dir = m.tmpdir()
        self.process = p = Process("dets")
        SC = builtin.controllers.StatefulController
        RC = scanning.controllers.RunnableController
        for i in range(dets):
            name = "DET%d" % i
            h = rng.random() < 0.6 if hard is None else hard
            c = Chain(self, name, rng, h, windows)
            c.mri, c.segments, c.segment, c.generator = "D:" + name, [], (0, 0), None
            c.exposure_info, c.useful, c.stats = exposure, useful, stats
            self.fps[name] = 1
            self.chains.append(c)
            for block in ("drv", "pos", "hdf", "stat"):
                leaf = SC("%s:%s" % (c.mri, block.upper()))
                leaf.add_part(getattr(c, block))
                p.add_controller(leaf)
            ctrl = c.ctrl = RC(mri=c.mri, config_dir=m.tmpdir())
            ctrl.add_part(self.driver_part(driver, c, useful, windows, min_period))
            ctrl.add_part(PositionLabellerPart(name="POS", mri=c.mri + ":POS"))
            if stats:
                ctrl.add_part(StatsPluginPart(name="STAT", mri=c.mri + ":STAT", statistic=stats, runs_on_windows=bool(windows)))
            c.writer = HDFWriterPart(name="HDF5", mri=c.mri + ":HDF", runs_on_windows=bool(windows), remove_demand_positions_from_xml=demand)
            ctrl.add_part(c.writer)
            if exposure:
                ctrl.add_part(scanning.parts.ExposureDeadtimePart(name="DEADTIME", readout_time=exposure[0], frequency_accuracy=exposure[1], min_exposure=exposure[2]))
            if windows:
                ctrl.add_part(FilepathTranslatorPart("TRANS", windows[0], windows[1], windows[2]))
            ctrl.add_part(scanning.parts.DatasetTablePart("DSET"))
            ctrl.add_part(Segment("SEGMENT").prepare(c))
            if not outer:
                ctrl.add_part(Beam("BEAM").prepare(self))
            p.add_controller(ctrl)
        if outer:
            self.mri = "SCAN"
            self.ctrl = RC(mri=self.mri, config_dir=m.tmpdir())
            self.ctrl.add_part(Beam("BEAM").prepare(self))
            for c in self.chains:
                self.ctrl.add_part(scanning.parts.DetectorChildPart(name=c.name, mri=c.mri, initial_visibility=True))
            self.ctrl.add_part(scanning.parts.DatasetTablePart("DSET"))
            p.add_controller(self.ctrl)
        else:
            self.mri, self.ctrl = self.chains[0].mri, self.chains[0].ctrl
        m.defer(self.end)
        manrig.start(p)
        for c in self.chains:
            self.show(c.mri)
        self.cl = manrig.Client(p)
        self.progress = []
        self.cl.subscribe([self.mri, "completedSteps", "value"], lambda r: self.on_progress(r.value))

    def driver_part(self, kind, c, useful, windows, min_period):
        if kind == "andor":
            from malcolm.modules.ADAndor.parts import AndorDriverPart

            return AndorDriverPart(name="DRV", mri=c.mri + ":DRV")
        if kind == "xmap":
            from malcolm.modules.xmap.parts import XmapDriverPart

            return XmapDriverPart(name="DRV", mri=c.mri + ":DRV", soft_trigger_modes=["Internal", "Software"])
        if kind == "reframe":
            from malcolm.modules.adUtil.parts import ReframePluginPart

            c.drv.set("triggerMode", "Rising Edge" if c.hard else "Always On")
            return ReframePluginPart(name="DRV", mri=c.mri + ":DRV", sample_freq=10000.0, gated_trigger=c.gated)
        return DetectorDriverPart(
            name="DRV", mri=c.mri + ":DRV", soft_trigger_modes=["Internal", "Software"], main_dataset_useful=useful,
            runs_on_windows=bool(windows), min_acquire_period=min_period,
        )

    def show(self, mri):
        """Make all the parts of a Device take part"""
        block = self.process.block_view(mri)
        t = block.layout.value
        block.layout.put_value(type(t)(t.name, t.mri, t.x, t.y, [True] * len(t.name)))

    def on_progress(self, value):
        """Steps are done when their frames are in the file"""
        state = self.ctrl.state.value
        self.progress.append((state, value))
        if state not in ("Running", "PostRun"):
            return
        for c in self.chains:
            if not self.taking_part(c) or not c.files or not c.generator:
                continue
            done = c.files[-1]["truths"]
            want = value * self.fps[c.name]
            if any(n not in done for n in range(want)):
                self.m.fail("progress", "%d steps said to be complete when %s had only %d frames in its file" % (value, c.name, len(done)) + ", %s missing, %s" % ([n for n in range(want) if n not in done][:5], self.progress[-12:]))
            self.m.count("progress_judged")

    def taking_part(self, c):
        return self.fps.get(c.name, 0) > 0

    def total(self, chain):
        return chain.generator.size if chain.generator else 0

    def done(self, chain):
        return chain.segment[0]

    def end(self):
        for c in self.chains:
            c.over = True
        mh.stop_process(self.process)

    def post(self, name, mri=None, **args):
        return self.cl.send(Post(self.cl.id(), [mri or self.mri, name], args))

    def wait(self, box, timeout=30.0):
        until = self.frames_seen(), timeout
        idle = 0
        while not box:
            cothread.Sleep(0.002)
            now = self.frames_seen()
            if now != until[0]:
                idle, until = 0, (now, timeout)
            idle += 0.002
            if idle > timeout:
                return None
        return box[0]

    def frames_seen(self):
        return sum(a["got"] for c in self.chains for a in c.acquisitions)

    def get(self, *path):
        return self.cl.get(self.mri, *path)

    def state(self):
        return self.ctrl.state.value


# ---------------------------------------------------------------- the file
def layout_paths(el, at=""):
    """All the groups and datasets of a layout: {path: element}"""
    out = {}
    for x in el:
        if x.tag in ("group", "dataset", "hardlink"):
            here = at + "/" + x.attrib["name"]
            out[here] = x
            if x.tag == "group":
                out.update(layout_paths(x, here))
    return out


def constant(el, name):
    for x in el:
        if x.tag == "attribute" and x.attrib.get("name") == name:
            return x.attrib["value"]
    return None
