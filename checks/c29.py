#!/opt/venv/bin/python
"""C29: the parts that help a scan along do their job at their moment of it.

The real helper parts in a real RunnableController: shutters opened for the points
and closed again, axes that may move together, moves made beforehand, directories
checked, detectors triggered twice, PandA pulses stretched to the exposure, and a
beam selector moved to and fro; over simulated children that log what they're told."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vmon
import mh
import cothread
import manrig
from manrig import ok
import motionrig as mr
import numpy as np
from motionrig import Bag, num, text
from annotypes import add_call_types
from malcolm.core import Post, Process, Put
from malcolm.modules import ADPandABlocks, builtin, pmac, scanning
from malcolm.modules.builtin.util import ExportTable
from malcolm.modules.scanning.util import DetectorTable
from malcolm.core import Part
from scanpointgenerator import CompoundGenerator, LineGenerator, StaticPointGenerator

SC = builtin.controllers.StatefulController


class Stepper(Part):
    """Takes the points"""

    def prepare(self, rig):
        self.rig = rig
        return self

    def setup(self, registrar):
        super().setup(registrar)
        h = scanning.hooks
        self.registrar = registrar
        if self.rig.detectors:
            registrar.report(h.ConfigureHook.create_info(self.with_detectors))
        registrar.hook((h.ConfigureHook, h.SeekHook, h.PostRunArmedHook), self.configure)
        registrar.hook(h.RunHook, self.run)

    @add_call_types
    def configure(
        self,
        completed_steps: scanning.hooks.ACompletedSteps,
        steps_to_do: scanning.hooks.AStepsToDo,
        part_info: scanning.hooks.APartInfo,
        generator: scanning.hooks.AGenerator,
    ) -> None:
        r = self.rig
        r.part_info, r.generator = part_info, generator
        self.steps = (completed_steps, completed_steps + steps_to_do)
        r.event("configured")

    @add_call_types
    def with_detectors(self, detectors: scanning.util.ADetectorTable = None) -> None:
        pass

    @add_call_types
    def run(self, context: scanning.hooks.AContext) -> None:
        for i in range(*self.steps):
            self.rig.event("point")
            for _ in range(self.rig.rng.choice([0, 0, 1, 3])):
                context.sleep(0)
            self.rig.event("taken")
            self.registrar.report(scanning.infos.RunProgressInfo(i + 1))


class Rig:
    def __init__(self, m, rng, parts, leaves=(), extra=(), detectors=True):
        self.detectors = detectors
        self.m, self.rng = m, rng
        self.on_event = None
        self.part_info = self.generator = None
        self.process = p = Process("helpers")
        for mri, bag in leaves:
            c = builtin.controllers.BasicController(mri) if "state" in bag.attrs else SC(mri)
            c.add_part(bag)
            p.add_controller(c)
        for c in extra:
            p.add_controller(c)
        self.ctrl = scanning.controllers.RunnableController("SCAN", m.tmpdir())
        parts = list(parts) + [Stepper("STEPPER").prepare(self)]
        rng.shuffle(parts)
        for x in parts:
            self.ctrl.add_part(x)
        p.add_controller(self.ctrl)
        m.defer(mh.stop_process, p)
        manrig.start(p)
        self.client = manrig.Client(p)

    def event(self, what):
        if self.on_event:
            self.on_event(what)

    def send(self, name, **args):
        return self.client.send(Post(self.client.id(), ["SCAN", name], args))

    def call(self, name, **args):
        return self.wait(self.send(name, **args))

    def put(self, value, *path):
        return self.wait(self.client.send(Put(self.client.id(), list(path), value)))

    def wait(self, box):
        mh.settle(lambda: box, 200000)
        return box[0] if box else None

    @property
    def state(self):
        return self.ctrl.state.value

    def recover(self):
        if self.state not in ("Ready", "Finished"):
            if self.state != "Fault":
                self.call("abort")
            r = self.call("reset")
            self.m.require(ok(r) and self.state == "Ready", "recover", lambda: "reset gave %s" % r)


def line(rng, axes, size=None, duration=1.0):
    gens = []
    axes = list(axes)
    while axes:
        k = rng.choice([1, 1, 2]) if len(axes) > 1 else 1
        a, axes = axes[:k], axes[k:]
        gens.append(LineGenerator(a, ["mm"] * k, [0.0] * k, [1.0] * k, size or rng.randint(1, 4)))
    if not gens:
        gens = [StaticPointGenerator(size or rng.randint(1, 6))]
    return CompoundGenerator(gens, [], [], duration=duration)


def slow(rng):
    for _ in range(rng.choice([0, 0, 1, 2, 5, 12])):
        cothread.Yield()


# ------------------------------------------------------------------ shutters
class Shutter:
    def __init__(self, rng, name, k):
        self.rng, self.name = rng, name
        self.attr = rng.choice(["shutter", "shutter", "valve"])
        self.kind = rng.choice(["text", "choice"])
        self.open, self.closed = "Open%d" % k, rng.choice(["Closed", "Shut"])
        self.puts, self.landed = [], set()
        self.mri = name + ":CHILD"
        if self.kind == "text":
            meta = text("Unset")[0]
        else:
            from malcolm.core import ChoiceMeta

            meta = ChoiceMeta("shutter", ["Unset", self.open, self.closed])
        self.bag = Bag("hw").prepare({self.attr: (meta, "Unset", self.setter)})

    def setter(self, value):
        # It moves when it is told to, and says so later
        self.puts.append(value)
        n = len(self.puts)
        self.bag.set(self.attr, value)
        slow(self.rng)
        self.landed.add(n)

    def part(self):
        kw = {} if self.attr == "shutter" else dict(attribute_name=self.attr)
        return scanning.parts.AttributePreRunPart(self.name, self.mri, self.open, self.closed, **kw)

    @property
    def value(self):
        return self.bag.get(self.attr)


def shutters(m, rng, idx):
    """Open for every point, closed again whenever the scan stands still or is over"""
    sh = [Shutter(rng, "SH%d" % k, k) for k in range(rng.choice([1, 1, 2, 3]))]
    rig = Rig(m, rng, [s.part() for s in sh], [(s.mri, s.bag) for s in sh], detectors=False)
    log = []

    def closed(what):
        for s in sh:
            m.check(s.value == s.closed, "closed", lambda: "%s is %s %s (%s)" % (s.name, s.value, what, log[-6:]))
            m.check(len(s.puts) in s.landed, "closed", lambda: "%s is still closing when %s (%s)" % (s.name, what, log[-6:]))
        m.count("closed")
        m.distinct("closed", what, log[-3:])

    for _ in range(rng.choice([1, 2, 3])):
        gen = line(rng, [], rng.randint(1, 8))
        kw = {}
        if rng.random() < 0.3 and gen.generators[0].size > 1:
            cut = rng.randint(1, gen.generators[0].size - 1)
            kw["breakpoints"] = [cut, gen.generators[0].size - cut]
        before = [(len(s.puts), s.value) for s in sh]
        r = rig.call("configure", generator=gen, **kw)
        m.require(ok(r), "configure", lambda: "configure gave %s" % r)
        m.check(all(s.open not in s.puts[n:] and s.value in (v, s.closed) for s, (n, v) in zip(sh, before)), "early", lambda: "configure put %s" % [s.puts for s in sh])
        log.append("configure")
        while True:
            act = rng.choice(["none", "none", "pause", "pause", "abort"])
            at = rng.randrange(1, 12)
            seen = [0]
            boxes = []

            def on_event(what):
                for s in sh:
                    m.check(s.value == s.open, "open", lambda: "%s is %s for %s (%s)" % (s.name, s.value, what, log[-6:]))
                    m.check(len(s.puts) in s.landed, "open", lambda: "%s is still opening for %s (%s)" % (s.name, what, log[-6:]))
                m.count("points")
                seen[0] += 1
                if seen[0] == at and act != "none":
                    boxes.append(rig.send(act))

            def watch(what):
                if what in ("point", "taken"):
                    on_event(what)

            rig.on_event = watch
            run = rig.send("resume" if rig.state == "Paused" else "run")
            if act == "abort" and rng.random() < 0.4:
                # While the shutters are still opening
                mh.yields(rng.randrange(0, 12))
                boxes.append(rig.send("abort"))
            log.append(act)
            mh.settle(lambda: run or boxes, 100000)
            for b in boxes:
                rig.wait(b)
            if rig.state not in ("Paused",):
                rig.wait(run)
                mh.settle(lambda: rig.state in ("Finished", "Armed", "Aborted", "Paused", "Fault"), 20000)
            st = rig.state
            log[-1] += ":" + st
            m.check(st in ("Finished", "Armed", "Aborted", "Paused"), "state", lambda: "%s after %s" % (st, log))
            if st != "Armed":
                closed(st)
            rig.on_event = None
            if st == "Paused" and rng.random() < 0.25:
                r = rig.call("abort")
                m.check(ok(r), "state", lambda: "abort gave %s" % r)
                closed("Aborted")
                st = "Aborted"
            elif st == "Paused" and rng.random() < 0.3:
                r = rig.call("pause", lastGoodStep=rng.randint(0, rig.ctrl.completed_steps.value))
                closed("Paused")
            if st == "Aborted":
                r = rig.call("reset")
                m.require(ok(r), "reset", lambda: "reset gave %s" % r)
            if st in ("Aborted", "Finished", "Fault"):
                break
        m.distinct("shutter", tuple(log[-4:]))
        m.count("scans")
        if rng.random() < 0.3:
            # Someone else opens one
            s = rng.choice(sh)
            rig.put(s.open, s.mri, s.attr, "value")


# ------------------------------------------------------------------ who may
def permissions(m, rng, idx):
    """Axes that can't move together, detectors that can't be double triggered and
    directories that aren't there are refused, and nothing else is"""
    names = ["x", "y", "z", "theta"]
    allowed = rng.sample(names, rng.randint(0, 4))
    monitors = []
    parts, leaves = [scanning.parts.SimultaneousAxesPart(value=allowed)], []
    for k in range(rng.choice([0, 1, 2])):
        d = dict(ok=True, strict=rng.random() < 0.6, checks=0)

        def check(d=d):
            d["checks"] += 1
            slow(rng)
            assert d["ok"], "Status is bad"

        d["mri"] = "MON%d:CHILD" % k
        leaves.append((d["mri"], Bag("hw").prepare(dict(managerHostname=text("host%d" % k)), dict(managerCheck=check))))
        kw = {} if d["strict"] and rng.random() < 0.5 else dict(error_on_fail=d["strict"])
        parts.append(scanning.parts.DirectoryMonitorPart("MON%d" % k, d["mri"], **kw))
        monitors.append(d)
    moves = []
    for k in range(rng.choice([0, 1, 2])):
        d = dict(demand=rng.choice([0.0, 12.5, -3.0, 1e6]), puts=[], landed=0)

        def put(value, d=d):
            d["puts"].append(value)
            slow(rng)
            d["bag"].set("demand", value)
            d["landed"] += 1

        d["bag"] = Bag("hw").prepare(dict(demand=num(77.0, put)))
        leaves.append(("MOVE%d:CHILD" % k, d["bag"]))
        parts.append(pmac.parts.MotorPreMovePart("MOVE%d" % k, "MOVE%d:CHILD" % k, d["demand"], initial_visibility=True))
        moves.append(d)
    double = rng.random() < 0.6
    if double:
        leaves.append(("DOUBLE:CHILD", Bag("hw").prepare(dict(detector=text("DET:B", True)))))
        parts.append(scanning.parts.DoubleTriggerPart("double", "DOUBLE:CHILD", initial_visibility=True))
    rig = Rig(m, rng, parts, leaves)
    for k in range(8):
        if rng.random() < 0.3:
            allowed = rng.sample(names, rng.randint(0, 4))
            r = rig.put(list(allowed), "SCAN", "simultaneousAxes", "value")
            m.require(ok(r), "axes", lambda: "simultaneousAxes=%s gave %s" % (allowed, r))
        for d in monitors:
            d["ok"] = rng.random() < 0.7
        detector = "DET:B"
        if double and rng.random() < 0.3:
            detector = rng.choice(["DET:A", "DET:B", "DET:C"])
            rig.put(detector, "DOUBLE:CHILD", "detector", "value")
        elif double:
            detector = rig.client.get("DOUBLE:CHILD", "detector", "value")
        axes = rng.sample(names, rng.randint(0, 3))
        gen = line(rng, axes)
        kw = {}
        if rng.random() < 0.7:
            # Someone else moves the outer ones
            inner = gen.generators[rng.randint(0, len(gen.generators)):]
            kw["axesToMove"] = [a for g in inner for a in g.axes]
            rng.shuffle(kw["axesToMove"])
        moving = kw.get("axesToMove", axes)
        why = []
        if set(moving) - set(allowed):
            why.append("axes")
        rows = []
        for n in rng.sample("ABC", rng.randint(1, 3)):
            rows.append([rng.random() < 0.7, n, "DET:" + n, 0.1, rng.choice([1, 2, 2, 2, 3])])
        kw["detectors"] = DetectorTable.from_rows(rows)
        if double:
            for en, _, mri, _, frames in rows:
                if mri == detector and en and frames != 2:
                    why.append("frames")
        valid = not why
        if any(not d["ok"] and d["strict"] for d in monitors):
            why.append("directory")
        r = rig.call("validate", generator=gen, **kw)
        m.check(ok(r) == valid, "validate", lambda: "validate of axes %s of %s, detectors %s, double %s said %s, not %s" % (moving, allowed, rows, double and detector, r, why or "fine"))
        puts = [len(d["puts"]) for d in moves]
        checks = [d["checks"] for d in monitors]
        r = rig.call("configure", generator=gen, **kw)
        m.check(ok(r) == (not why), "configure", lambda: "configure of axes %s of %s, detectors %s, double %s, monitors %s said %s, not %s" % (moving, allowed, rows, double and detector, [(d["ok"], d["strict"]) for d in monitors], r, why or "fine"))
        if not valid:
            m.check([len(d["puts"]) for d in moves] == puts, "premove", "moved for a scan that was refused")
        if ok(r):
            for d, n in zip(moves, puts):
                m.check(d["puts"][n:] == [d["demand"]] and d["landed"] == len(d["puts"]), "premove", lambda: "%s landed of %s when configured to go to %s" % (d["landed"], d["puts"][n:], d["demand"]))
                m.count("moves")
            for d, n in zip(monitors, checks):
                m.check(d["checks"] > n, "monitor", "configured without looking at the directories")
            if double:
                infos = [i.mri for i in scanning.infos.DetectorMutiframeInfo.filter_values(rig.part_info)]
                m.check(infos == [detector], "double", lambda: "several frames said to be possible for %s, not %s" % (infos, detector))
            puts = [list(d["puts"]) for d in moves]
            r = rig.call("run")
            m.check(ok(r) and [d["puts"] for d in moves] == puts, "premove", lambda: "moved again by run, which gave %s" % r)
            m.count("accepted")
        else:
            m.count("refused")
        m.distinct("permissions", tuple(sorted(why)), double, len(monitors))
        rig.recover()


# ------------------------------------------------------------------ pulses
UNITS = ["s", "s", "s", "s", "s", "s", "s", "ms", "us", "min"]


class Pulse:
    def __init__(self, rng, name):
        self.name, self.puts = name, []
        attrs = {}
        for a in ("width", "delay", "step"):
            attrs[a] = num(0.125, self.putter(rng, a))
            attrs[a + "Units"] = text("s", True)
        attrs["pulses"] = num(9, self.putter(rng, "pulses"), "uint32")
        self.bag = Bag("hw").prepare(attrs)

    def putter(self, rng, a):
        def put(value):
            self.puts.append((a, value))
            slow(rng)
            self.bag.set(a, value)

        return put

    def values(self):
        return {a: float(self.bag.get(a)) for a in ("width", "delay", "step", "pulses")}


def pulses(m, rng, idx):
    """The pulse block makes the frames of each point, each as long as the exposure"""
    zero = rng.random() < 0.4
    names = ["det", "cam"][: rng.choice([1, 1, 2])]
    blocks = [Pulse(rng, "PULSE%d" % (k + 1)) for k in range(3)]
    leaves = [("PANDA:" + b.name, b.bag) for b in blocks]
    panda = builtin.controllers.ManagerController("PANDA", m.tmpdir())
    for b in blocks:
        panda.add_part(builtin.parts.ChildPart(b.name, "PANDA:" + b.name, initial_visibility=True, stateful=False))
    dets, parts = {}, []
    for n in names:
        has = rng.random() < 0.8
        attrs = dict(state=text("Armed", True))
        if has:
            attrs["exposure"] = num(0.1, True)
        dets[n] = dict(bag=Bag("hw").prepare(attrs), has=has, mri="DET:" + n)
        leaves.append(("DET:" + n, dets[n]["bag"]))
        leaves.append(("TRIG:" + n, Bag("hw").prepare(dict(panda=text("PANDA"), detector=text("DET:" + n)))))
        kw = dict(zero_delay=zero) if zero or rng.random() < 0.5 else {}
        parts.append(ADPandABlocks.parts.PandAPulseTriggerPart(n, "TRIG:" + n, **kw))
    rig = Rig(m, rng, parts, leaves, [panda])
    for k in range(7):
        why = []
        assigned = dict(zip(names, rng.sample(blocks, len(names))))
        rows = []
        for n in names:
            for s in ("Pulses", "Width", "Step", "Delay"):
                b = assigned[n]
                p = rng.random()
                if p < 0.03:
                    why.append("no export")
                    continue
                if p < 0.06:
                    b = rng.choice([x for x in blocks if x is not b])
                    why.append("mixed exports")
                rows.append([b.name + "." + s.lower(), n + s])
        if rng.random() < 0.3:
            rows.append(["PULSE3.width", "other"])
        rng.shuffle(rows)
        r = rig.put(ExportTable.from_rows(rows), "PANDA", "exports", "value")
        m.require(ok(r), "exports", lambda: "exports of %s gave %s" % (rows, r))
        for b in blocks:
            for a in ("width", "delay", "step"):
                u = rng.choice(UNITS) if rng.random() < 0.15 else "s"
                b.bag.set(a + "Units", u)
                if u != "s" and b in assigned.values() and "mixed exports" not in why and "no export" not in why:
                    why.append("units")
        duration = rng.choice([1.0, 0.1, 0.37, 2.5, 1e-3, 3600.0])
        table, want = [], {}
        for n in names:
            frames = rng.choice([1, 1, 2, 3, 7])
            enable = rng.random() < 0.85
            if rng.random() < 0.04:
                why.append("no row")
                continue
            table.append([enable, n, "DET:" + n, 0.0, frames])
            step = duration / frames
            p = rng.random()
            width = step * rng.choice([0.01, 0.5, 0.9, 0.999]) if p < 0.85 else step * rng.choice([1.0, 1.0001, 3])
            state = "Armed" if rng.random() < 0.93 else rng.choice(["Ready", "Configuring", "Fault"])
            d = dets[n]
            d["bag"].set("state", state)
            if d["has"]:
                d["bag"].set("exposure", width)
            else:
                width = step - 1e-6
            if enable:
                if state != "Armed":
                    why.append("not armed")
                if not width < step:
                    why.append("too long")
                want[n] = dict(step=step, width=width, delay=0.0 if zero else (step - width) / 2, pulses=frames)
        if rng.random() < 0.3:
            table.append([True, "extra", "DET:extra", 0.0, 5])
        rng.shuffle(table)
        if rng.random() < 0.05:
            duration = rng.choice([-1.0])
            why.append("duration")
        before = {b.name: (b.values(), len(b.puts)) for b in blocks}
        gen = line(rng, ["x"], duration=duration)
        r = rig.call("configure", generator=gen, detectors=DetectorTable.from_rows(table))
        what = "duration %s, detectors %s, exports %s, exposures %s" % (duration, table, rows, {n: dets[n]["has"] and dets[n]["bag"].get("exposure") for n in names})
        m.check(ok(r) == (not why), "configure", lambda: "%s: said %s, not %s" % (what, r, why or "fine"))
        if ok(r):
            for n, v in want.items():
                got = assigned[n].values()
                for a in v:
                    m.check(abs(got[a] - v[a]) <= 1e-9 * max(1e-3, abs(v[a])), "pulse", lambda: "%s: %s of %s is %s not %s" % (what, a, n, got[a], v[a]))
                m.count("pulses")
                m.distinct("pulse", v["pulses"], zero, dets[n]["has"])
            used = [assigned[n].name for n in want]
            for b in blocks:
                if b.name not in used:
                    m.check((b.values(), len(b.puts)) == before[b.name], "pulse", lambda: "%s: %s was put %s" % (what, b.name, b.puts[before[b.name][1]:]))
                    m.count("left_alone")
            infos = sorted(i.mri for i in scanning.infos.DetectorMutiframeInfo.filter_values(rig.part_info))
            m.check(infos == sorted("DET:" + n for n in names), "pulse", lambda: "several frames said to be possible for %s" % infos)
        else:
            m.count("pulses_refused")
            if set(why) & {"no export", "mixed exports", "no row"} and len(names) == 1:
                m.check(all((b.values(), len(b.puts)) == before[b.name] for b in blocks), "pulse", lambda: "%s: refused but put" % what)
        m.distinct("pulses", tuple(sorted(set(why))), zero)
        rig.recover()


# ------------------------------------------------------------------ selector
class Declare(Part):
    """Detectors can be given to configure"""

    def setup(self, registrar):
        super().setup(registrar)
        registrar.report(scanning.hooks.ConfigureHook.create_info(self.configure))

    @add_call_types
    def configure(self, detectors: scanning.util.ADetectorTable = None) -> None:
        pass


def judge_selector(m, run, motor, angles, times, move, cycles, what):
    """To the other angle and back in each cycle, staying at each for its time"""
    T = np.cumsum(np.asarray(run["timeArray"], float)) * 1e-6
    pos = np.asarray(run["positions" + motor.letter], float)
    progs = list(run["userPrograms"])
    tol = 1e-5 * len(T) ** 0.5 + 2e-6 * len(T)
    small = 1e-9 * max(1.0, max(abs(x) for x in angles))
    j = 0
    for k in range(2 * cycles):
        a, b = angles[k % 2], angles[(k + 1) % 2]
        w = "%s: move %d of %d" % (what, k, 2 * cycles)
        starts = [q for q in range(j, len(T)) if progs[q] == 1]
        m.require(starts, "selector", lambda: "%s never starts" % w)
        s = starts[0]
        if k:
            stayed = T[s] - T[j]
            m.check(stayed >= times[k % 2] - tol, "selector", lambda: "%s: stayed %s not %s" % (w, stayed, times[k % 2]))
        m.check(abs(pos[s] - a) <= small, "selector", lambda: "%s starts at %s not %s" % (w, pos[s], a))
        ends = [q for q in range(s + 1, len(T)) if progs[q] == 2]
        m.require(ends, "selector", lambda: "%s never ends" % w)
        e = ends[0]
        m.check(abs(pos[e] - b) <= small, "selector", lambda: "%s ends at %s not %s" % (w, pos[e], b))
        m.check(abs(T[e] - T[s] - move) <= tol, "selector", lambda: "%s takes %s not %s" % (w, T[e] - T[s], move))
        stay = [q for q in range(e + 1, len(T))]
        for q in stay:
            if progs[q] == 1:
                break
            m.check((pos[q] - b) * (b - a) >= -small * abs(b - a) - 1e-12 and abs(pos[q] - b) <= abs(b - a), "selector", lambda: "%s: goes to %s after it is at %s" % (w, pos[q], b))
        j = e
        m.count("selector_moves")
    m.check(1 not in progs[j + 1:-1], "selector", lambda: "%s: more moves after the last" % what)
    m.check(T[-1] - T[j] >= times[(2 * cycles) % 2] - tol, "selector", lambda: "%s: stayed %s not %s in the end" % (what, T[-1] - T[j], times[0]))


def selector(m, rng, idx):
    """The beam selector goes to and fro, and stays for each detector's exposure"""
    mot = mr.Motor(rng, "angle", rng.choice(mr.AXES))
    mot.maxv, mot.percent, mot.acctime = rng.choice([800.0, 2000.0]), 100.0, rng.choice([0.008, 0.02])
    mot.settle = 0.0
    img, dif = rng.sample([50.0, 90.0, -20.0, 0.0, 12.5, 47.0], 2)
    move = rng.choice([0.25, 0.5, 1.0, 3.0])
    turn = rng.choice([None, None, (0.1, 0.002), (0.3, 0.002)])
    gap = turn[0] if turn else 0.002
    part = pmac.parts.BeamSelectorPart("PMAC", "PMAC", "angle", img, dif, "imager", "diff", move, initial_visibility=True)
    r = mr.Rig(m, rng, [mot], None, min_turnaround=turn, mover=part, more=[Declare("DECLARE")])
    for k in range(3):
        n = rng.choice([1, 2, 3, 5])
        ti, td = [rng.choice([0.05, 0.1, 0.3, 1.0, 0.002]) for _ in range(2)]
        rows = [[True, "diff", "DET:D", td, 1], [True, "imager", "DET:I", ti, 1], [rng.random() < 0.5, "other", "DET:O", 0.0, 4]]
        bad = None
        if rng.random() < 0.3:
            bad = rng.choice(["frames", "enable", "exposure", "missing", "moving"])
            v = rng.randrange(2)
            if bad == "frames":
                rows[v][4] = rng.choice([2, 3])
            elif bad == "enable":
                rows[v][0] = False
            elif bad == "exposure":
                rows[v][3] = 0.0
            elif bad == "missing":
                rows.pop(v)
        rng.shuffle(rows)
        g = StaticPointGenerator(n) if bad != "moving" else LineGenerator("angle", "deg", 0.0, 1.0, n)
        gen = CompoundGenerator([g], [], [], duration=rng.choice([0.0, 0.0, 1.0]))
        kw = {}
        if not bad and n > 1 and rng.random() < 0.4:
            cut = rng.randint(1, n - 1)
            kw["breakpoints"] = [cut, n - cut]
        what = "%d cycles between %s and %s for %s and %s, %s, gaps %s" % (n, img, dif, ti, td, kw, turn)
        r.segments.clear()
        box = r.post("configure", generator=gen, axesToMove=[], detectors=DetectorTable.from_rows(rows), **kw)
        resp = r.wait(box)
        m.check(ok(resp) == (not bad), "selector-configure", lambda: "%s: said %s with wrong %s" % (what, resp, bad))
        if not ok(resp):
            m.count("selector_refused")
            m.distinct("selector", bad)
            r.wait(r.post("reset"))
            continue
        td2, ti2 = max(td, gap), max(ti, gap)
        dur = r.generator.duration
        m.check(abs(dur - (td2 + ti2 + 2 * move)) < 1e-9, "selector-duration", lambda: "%s: cycles of %s" % (what, dur))
        done = 0
        while done < n:
            pause = rng.random() < 0.5
            boxes = []
            if pause:
                at = rng.randrange(1, 9)
                seen = [0]

                def hold(_):
                    seen[0] += 1
                    if seen[0] == at:
                        boxes.append(r.post("pause"))
                        mh.yields(100)

                r.holds = hold
            if r.get("state", "value") == "Paused":
                # run ends when all of it has been done
                r.post("resume")
            else:
                run = r.post("run")
            mh.settle(lambda: run or boxes, 200000)
            for b in boxes:
                r.wait(b)
            r.holds = None
            if r.get("state", "value") == "Paused":
                m.count("selector_pauses")
                part_done = r.run_of(r.segments[-1])
                c, first = r.completed(), r.segments[-1]["segment"][0]
                # Not ahead of the moves that were made
                arrived = sum(1 for x in part_done["userPrograms"] if x == 2) if part_done else 0
                m.check(first <= c <= first + arrived // 2, "selector-progress", lambda: "%s: paused at step %d, having started from %d and moved %d times" % (what, c, first, arrived))
                continue
            resp = r.wait(run)
            m.require(ok(resp), "selector-run", lambda: "%s: run gave %s" % (what, resp))
            seg = r.segments[-1]
            judge_selector(m, r.run_of(seg), mot, (img, dif), (ti2, td2), move, seg["segment"][1] - seg["segment"][0], what + " from cycle %d" % seg["segment"][0])
            done = seg["segment"][1]
            m.check(r.completed() == done, "selector-progress", lambda: "%s: %d steps completed, not %d" % (what, r.completed(), done))
            m.count("selector_runs")
            m.distinct("selector", n, bool(kw), turn)


check = vmon.Check(
    "C29",
    [
        vmon.Scenario("shutters", shutters, quick=500, thorough=8000, timeout=90),
        vmon.Scenario("permissions", permissions, quick=300, thorough=4000, timeout=90),
        vmon.Scenario("selector", selector, quick=300, thorough=3000, timeout=90),
        vmon.Scenario("pulses", pulses, quick=300, thorough=4000, timeout=90),
    ],
    rule="Distinct histories of runs, pauses and aborts around shutters; reasons to refuse; pulses made; selector cycles",
    required=["selector_moves", "selector_pauses", "selector_refused", "closed", "points", "scans", "moves", "accepted", "refused", "pulses", "pulses_refused", "left_alone"],
    level="exploration",
)

if __name__ == "__main__":
    check.main()
