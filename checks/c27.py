#!/opt/venv/bin/python
"""C27: frames written by several file writers at once appear at their point of the scan.

Real scans through the real Odin and Xspress3 writer parts (and the unrolling part)
to simulated file writers that share out the frames in blocks and really write
them; the file that the part made is then read back through HDF5, and every frame
compared with the point of the scan that it was taken at."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vmon
import mh
import collections
import logging
import random
import warnings

import cothread
import h5py
import numpy as np
from annotypes import add_call_types

import manrig
import motionrig as mr
from manrig import ok
from motionrig import Bag, num, text
from scanrig import merged_dims, pick_axes, scan_reference

from malcolm.core import Error, Part, Post, Process, Put
from malcolm.modules import builtin, scanning
from malcolm.modules.ADOdin.parts import OdinWriterPart, odinwriterpart
from malcolm.modules.xspress3.parts import XspressWriterPart, xspresswriterpart
from scanpointgenerator import CompoundGenerator, LineGenerator, SquashingExcluder

for name in ("InterleaveVDSGenerator", "ReshapeVDSGenerator"):
    logging.getLogger(name).disabled = True
warnings.simplefilter("ignore")
NAMES = ["x", "y", "z", "theta"]
DTYPES = ["uint8", "uint16", "uint32", "UInt16", "UInt8"]
GRACE = 4.0


class Writer:
    """File writers that take it in turns to write a block of frames"""

    def __init__(self, m, rng, kind):
        self.m, self.rng, self.kind = m, random.Random(rng.random()), kind
        self.count = rng.choice([1, 2, 3, 4, 5]) if kind == "odin" else rng.choice([1, 2, 4])
        self.block = rng.choice([1, 1, 2, 3, 5, 10, 50])
        self.width, self.height = rng.randrange(1, 5), rng.randrange(1, 5)
        self.dtype = rng.choice(DTYPES)
        self.channels = self.count * rng.choice([1, 2])
        self.starts, self.stops, self.frames, self.puts = [], 0, [], []
        self.running = self.stopping = self.over = False
        # Each Xspress3 writer gets its channels of every frame
        self.pairs = self.count if kind != "odin" else 1
        i = lambda v, s=None: num(v, s, "int32")
        p = self.put
        self.bag = Bag("hw").prepare(
            dict(
                numCapture=i(99, p("numCapture")),
                numCaptured=i(0),
                numProcesses=i(self.count),
                imageHeight=i(self.height, True),
                imageWidth=i(self.width, True),
                blockSize=i(self.block, True),
                numFramesChunks=i(1, p("numFramesChunks")),
                dataType=text(self.dtype),
                filePath=text("/nowhere/", p("filePath")),
                fileName=text("old", p("fileName")),
            ),
            dict(start=self.start, stop=self.stop),
        )

    def put(self, name):
        def put(value):
            if self.rng.random() < 0.4:
                cothread.Sleep(self.rng.choice([0.0, 0.001, 0.003]))
            self.bag.set(name, value)
            self.puts.append(name)

        return put

    def start(self):
        self.starts.append({k: self.bag.get(k) for k in self.bag.attrs})
        self.frames, self.stopping, self.running = [], False, True
        self.bag.set("numCaptured", 0)
        n = self.bag.get("numCapture")
        while not self.stopping and not self.over and len(self.frames) < n:
            cothread.Sleep(0.002)
        # It takes a while to close the files
        cothread.Sleep(self.rng.choice([0.0, 0.01, 0.03]))
        self.write_files(self.starts[-1])
        self.running = False

    def stop(self):
        self.stops += 1
        self.stopping = True

    def frame(self, point):
        self.frames.append(point)
        if self.rng.random() < 0.7 and len(self.frames) < self.bag.get("numCapture"):
            self.bag.set("numCaptured", len(self.frames) * self.pairs)

    def flush(self):
        self.bag.set("numCaptured", len(self.frames) * self.pairs)

    def picture(self, point):
        h, w = np.arange(self.height)[:, None], np.arange(self.width)[None]
        return (point * 17 + h * 5 + w * 3 + 1) % 251

    def mcas(self, f, k):
        per = self.channels // self.count
        for c in range(k * per, (k + 1) * per):
            f["mca_%d" % c] = np.full((3, 1), 1000 + c)

    def write_files(self, s):
        share = [[] for _ in range(self.count)]
        if self.pairs > 1:
            share = [self.frames] * self.count
        for i, point in enumerate(self.frames):
            if self.pairs == 1:
                share[(i // s["blockSize"]) % self.count].append(point)
        for k, points in enumerate(share):
            base = os.path.join(s["filePath"], s["fileName"])
            name = "%s_%06d.h5" % (base, k + 1) if self.kind == "odin" else "%s_%s_000000.h5" % (base, "ABCDEFGH"[k])
            with h5py.File(name, "w", libver="latest") as f:
                if self.pairs > 1:
                    f[self.uid_name] = np.array([p + 1 for p in points], "uint64")
                    self.mcas(f, k)
                    continue
                data = np.zeros((len(points), self.height, self.width), self.dtype.lower())
                for j, p in enumerate(points):
                    data[j] = self.picture(p)
                f["data"] = data
                f[self.uid_name] = np.array([p + 1 for p in points], "uint64").reshape((-1, 1, 1))
                if self.kind == "odin":
                    f[self.sum_name] = np.array([self.picture(p).sum() for p in points], "uint64").reshape((-1, 1, 1))
                else:
                    self.mcas(f, k)
        if self.kind != "odin":
            with h5py.File(base + "_meta.h5", "w", libver="latest") as f:
                for c in range(9):
                    f["scalar_%d" % c] = np.full((3, 1), 2000 + c)
                f["dtc"] = np.full((3, 1), 3000)


class Beam(Part):
    """Moves the sample, and triggers the detector"""

    def prepare(self, w):
        self.w, self.ran = w, []
        self.reports = w.rng.random() < 0.6
        return self

    def setup(self, registrar):
        super().setup(registrar)
        h = scanning.hooks
        registrar.hook((h.ConfigureHook, h.PostRunArmedHook), self.configure)
        registrar.hook(h.RunHook, self.run)

    @add_call_types
    def configure(self, completed_steps: scanning.hooks.ACompletedSteps, steps_to_do: scanning.hooks.AStepsToDo, generator: scanning.hooks.AGenerator) -> None:
        self.generator = generator
        self.segment = (completed_steps, completed_steps + steps_to_do)

    @add_call_types
    def run(self, context: scanning.hooks.AContext) -> None:
        self.ran.append(self.segment)
        for i in range(*self.segment):
            self.w.frame(i)
            if self.reports:
                # As a driver does
                self.registrar.report(scanning.infos.RunProgressInfo(i + 1))
            if self.w.rng.random() < 0.3:
                context.sleep(self.w.rng.choice([0, 0.001, 0.002]))
        self.segment = (self.segment[1], self.segment[1])
        context.sleep(0.002)
        # Frames may still be on their way when the motion ends
        cothread.Spawn(self.late)

    def late(self):
        cothread.Sleep(self.w.rng.choice([0, 0.005, 0.02]))
        self.w.flush()


class Rig:
    def __init__(self, m, rng, kind, unroll=None, uid="uid", total="sum"):
        self.m = m
        self.w = w = Writer(m, rng, kind)
        w.uid_name, w.sum_name = uid, total
        self.process = p = Process("writers")
        leaf = builtin.controllers.StatefulController("D:OD")
        leaf.add_part(w.bag)
        p.add_controller(leaf)
        self.mri = "D"
        self.ctrl = c = scanning.controllers.RunnableController(mri="D", config_dir=m.tmpdir())
        for mod in (odinwriterpart, xspresswriterpart):
            if hasattr(mod, "FRAME_TIMEOUT"):
                m.defer(setattr, mod, "FRAME_TIMEOUT", mod.FRAME_TIMEOUT)
                mod.FRAME_TIMEOUT = GRACE
        self.beam = Beam("BEAM").prepare(w)
        c.add_part(self.beam)
        if kind == "odin":
            part = OdinWriterPart(name="WRITER", mri="D:OD", uid_name=uid, sum_name=total)
        else:
            part = XspressWriterPart(name="WRITER", mri="D:OD", num_pairs=w.pairs, num_datasets=w.channels)
        c.add_part(part)
        if unroll is not None:
            other = builtin.controllers.StatefulController("D:UNROLL")
            p.add_controller(other)
            c.add_part(scanning.parts.UnrollingPart(name="UNROLL", mri="D:UNROLL", initial_visibility=unroll))
        c.add_part(scanning.parts.DatasetTablePart("DSET"))
        p.add_controller(c)
        m.defer(mh.stop_process, p)
        m.defer(setattr, w, "over", True)
        manrig.start(p)
        self.cl = manrig.Client(p)
        self.block = p.block_view("D")
        # Steps are done once they are written
        self.cl.subscribe(["D", "completedSteps", "value"], self.on_progress)

    def on_progress(self, r):
        if self.ctrl.state.value in ("Running", "PostRun"):
            done = self.w.bag.get("numCaptured") // self.w.pairs
            self.m.check(r.value <= done, "progress", lambda: "%d steps said to be complete when %d were written" % (r.value, done))
            self.m.count("progress_judged")

    def value(self, name):
        return self.ctrl.block_view()[name].value


def call(rig, method, kw=None):
    # Only one start at once
    while method == "configure" and rig.w.running and rig.w.stopping:
        cothread.Sleep(0.002)
    box = rig.cl.send(Post(rig.cl.id(), [rig.mri, method], kw or {}))
    for _ in range(15000):
        if box:
            break
        cothread.Sleep(0.002)
    return box[0] if box else None


def generator(rng, size, kinds=None):
    names = list(NAMES)
    rng.shuffle(names)
    gens, ex, kind = mr.pick_generator(rng, names, size, kinds or ["line", "grid", "grid", "grid3", "grid3", "spiral", "roi", "array", "concat", "static", "lissajous"])
    return CompoundGenerator(gens, ex, [], rng.choice([0.1, 0.5, 1.0, 0.0002, 5.0])), kind


def straighten(g):
    """The same without turning back"""
    for x in g.generators:
        x.alternate = False
    return g


def prepared(g):
    g = CompoundGenerator.from_dict(g.to_dict())
    g.prepare()
    return g


def snakes(g):
    return any(d.alternate for d in g.dimensions[1:])


Row = collections.namedtuple("Row", "name filename type rank path uniqueid")


def judge_file(m, rig, g, directory, name, template, what):
    """Read back everything the dataset table promises. g: the prepared generator"""
    w = rig.w
    xs = w.kind != "odin"
    shape, size = tuple(g.shape), g.size
    rows = [Row(*r) for r in rig.value("datasets").rows()]
    got = {r.name: r for r in rows}
    m.check(len(got) == len(rows), "datasets", "%s: datasets given twice in %s" % (what, [r.name for r in rows]))
    want = {name + ".data": ("primary", len(shape) + 2)}
    if not xs:
        want[name + ".sum"] = ("secondary", len(shape) + 2)
    for a in g.axes:
        want[a + ".value_set"] = ("position_set", 1)
    for n, (typ, rank) in want.items():
        r = got.get(n)
        t = getattr(getattr(r, "type", None), "value", getattr(r, "type", None))
        m.check(r and t == typ and r.rank == rank, "datasets", lambda: "%s: %s is said to be %s, expected %s of rank %d" % (what, n, r, typ, rank))
    filename = template.replace("%s", name)
    m.check({r.filename for r in rows} == {filename}, "datasets", lambda: "%s: files %s" % (what, sorted({r.filename for r in rows})))
    with h5py.File(os.path.join(directory, filename), "r") as f:
        for r in rows:
            m.check(r.path in f, "missing", lambda: "%s: %s said to be at %s, where there is nothing" % (what, r.name, r.path))
            if r.uniqueid:
                m.check(r.uniqueid in f, "uniqueid", lambda: "unique ids of the %s data said to be at %s, where there is nothing: %s" % (w.kind, r.uniqueid, what))
        p = got.get(name + ".data")
        if not p or p.path not in f:
            return
        data = f[p.path]
        m.check(data.shape == shape + (w.height, w.width) and data.dtype == np.dtype(w.dtype.lower()), "shape", lambda: "%s: data of shape %s %s" % (what, data.shape, data.dtype))
        if data.shape != shape + (w.height, w.width):
            return
        if w.pairs == 1:
            data = data[()].reshape((size, w.height, w.width))
            bad = [i for i in range(size) if not (data[i] == w.picture(i)).all()]
            m.check(not bad, "frames", lambda: "%s: the frames of points %s of %d are not at their place" % (what, bad[:10], size))
            m.count("frames_judged", size)
        if not xs:
            for key, fn in ((p.uniqueid, lambda i: i + 1), (got[name + ".sum"].path, lambda i: w.picture(i).sum()), (got[name + ".sum"].uniqueid, lambda i: i + 1)):
                if key not in f:
                    continue
                u = f[key]
                m.check(u.shape == shape + (1, 1), "shape", lambda: "%s: %s of shape %s" % (what, key, u.shape))
                u = u[()].reshape(-1)
                bad = [i for i in range(size) if u[i] != fn(i)]
                m.check(not bad, "frames", lambda: "%s: %s of points %s of %d are not at their place" % (what, key, bad[:10], size))
        # The demand positions
        group = f[os.path.dirname(p.path)]
        at = np.unravel_index(np.arange(size), shape)
        points = [g.get_point(i).positions for i in range(size)]
        pads = [d.axes[0] + "_set" if len(d.axes) == 1 else "." for d in g.dimensions] + [".", "."]
        attr = lambda k: [x.decode() if isinstance(x, bytes) else str(x) for x in np.atleast_1d(group.attrs.get(k, []))]
        m.check(attr("axes") == pads, "axes", lambda: "%s: axes %s, expected %s" % (what, attr("axes"), pads))
        m.check(attr("signal") == [p.path.split("/")[-1]], "axes", lambda: "%s: signal %s" % (what, attr("signal")))
        for k, dim in enumerate(g.dimensions):
            for a in dim.axes:
                r = got.get(a + ".value_set")
                if not r or r.path not in f:
                    continue
                s = f[r.path][()]
                idx = group.attrs.get(a + "_set_indices")
                m.check(idx == k, "axes", lambda: "%s: %s is dimension %s, expected %d" % (what, a, idx, k))
                m.check(len(s) == shape[k], "demand", lambda: "%s: %d positions of %s for %d" % (what, len(s), a, shape[k]))
                if len(s) == shape[k]:
                    bad = [i for i in range(size) if abs(s[at[k][i]] - points[i][a]) > 1e-9]
                    m.check(not bad, "demand", lambda: "%s: the demand positions of %s are wrong for points %s" % (what, a, bad[:10]))
                units = f[r.path].attrs.get("units")
                m.check(units == g.units[a], "demand", lambda: "%s: units of %s are %r" % (what, a, units))
                m.count("positions_judged")
        # What the writers wrote can also be got at directly
        n = 0
        for r in rows:
            short = r.name[len(name) + 1 :]
            if not r.name.startswith(name + ".") or r.path not in f:
                continue
            d = f[r.path][()]
            digits = int("".join(c for c in short if c.isdigit()) or -1)
            if short.startswith("raw_mca"):
                good = (d == 1000 + digits).all()
            elif short.startswith("scalar_"):
                good = (d == 2000 + digits).all()
            elif short == "dtc":
                good = (d == 3000).all()
            elif short.startswith(("raw", "uid")):
                mine = [i for i in range(size) if w.pairs > 1 or (i // w.block) % w.count == digits - 1]
                good = len(d) == len(mine) and all((d[j] == (w.picture(i) if short.startswith("raw") else i + 1)).all() for j, i in enumerate(mine))
                n += 1
            else:
                continue
            m.check(good, "raw", lambda: "%s: %s at %s is not what that writer wrote" % (what, r.name, r.path))
            m.count("raw_judged")
        m.check(n == w.count * (1 if xs else 2), "raw", lambda: "%s: %d raw datasets for %d writers" % (what, n, w.count))


def do_scan(m, rng, rig, g, axes, bps, what, stop_at=None):
    """A scan to the end, or aborted in the given run. Returns the name of the file or None"""
    w = rig.w
    d = m.tmpdir()
    name = rng.choice(["odin", "det", "exc-1"])
    template = rng.choice(["%s.h5", "%s.h5", "scan-12-%s.h5", "a.b_%s.nxs", "%s-x.hdf"])
    kw = dict(generator=g, fileDir=d + rng.choice(["", "/"]), axesToMove=axes, formatName=name, fileTemplate=template)
    if bps:
        kw["breakpoints"] = bps
    starts = len(w.starts)
    w.puts.clear()
    rig.beam.ran.clear()
    r = call(rig, "configure", kw)
    return r, d, name, template, starts


def judge_runs(m, rig, ends, what, upto=None):
    w = rig.w
    for k, end in enumerate(ends[:upto]):
        sub = rig.ctrl.block_view().completedSteps
        r = call(rig, "run")
        m.check(ok(r), "run", lambda: "%s: run %d to %d gave %s" % (what, k, end, getattr(r, "message", r)))
        if not ok(r):
            return False
        m.check(w.bag.get("numCaptured") == end * w.pairs, "early", lambda: "%s: run %d ended with %s of %d frames written" % (what, k, w.bag.get("numCaptured"), end))
        m.check(sub.value == end, "progress", lambda: "%s: %s steps done after run %d, expected %d" % (what, sub.value, k, end))
        last = k == len(ends) - 1
        state = rig.value("state")
        m.check(state == ("Finished" if last else "Armed"), "run", lambda: "%s: %s after run %d of %d" % (what, state, k, len(ends)))
        if last:
            m.check(not w.running, "early", "%s: the scan ended before the files were closed" % what)
        else:
            m.check(w.running, "run", "%s: the writer stopped after run %d of %d" % (what, k, len(ends)))
        m.count("runs")
    return True


def scan(m, rng, idx, kind, unroll):
    uid, total = rng.choice([("uid", "sum"), ("uid", "sum"), ("ids", "total")]) if kind == "odin" else ("uid", "sum")
    rig = Rig(m, rng, kind, unroll, uid, total)
    w = rig.w
    for n in range(rng.choice([1, 1, 2])):
        # Not only whole blocks in every file
        size = rng.choice([1, 2, 3, 7, 12, 25, 36, w.block * w.count, w.block * w.count * 2 + rng.randrange(w.block * w.count + 1)])
        size = max(1, min(size, 300))
        g, gk = generator(rng, size)
        if rng.random() < (0.6 if unroll is None else 0.2):
            g = straighten(g)
        dims, _ = merged_dims(g)
        if rng.random() < 0.2 and all(x.alternate for x in g.generators[1:]):
            # Already unrolled
            flat = [a for ax, _ in dims for a in ax]
            g = CompoundGenerator(g.generators, list(g.excluders) + [SquashingExcluder(flat)] if flat else g.excluders, [], g.duration)
            dims, _ = merged_dims(g)
        axes = pick_axes(rng, dims)
        expect = g
        if unroll and len(axes) > 1 and not any(isinstance(e, SquashingExcluder) and set(e.axes) == set(axes) for e in g.excluders):
            expect = CompoundGenerator(g.generators, list(g.excluders) + [SquashingExcluder(axes)], [], g.duration)
            m.count("unrolled")
        try:
            expect = prepared(expect)
        except ValueError:
            # These dimensions can't be made into one
            r = call(rig, "configure", dict(generator=g, fileDir=m.tmpdir(), axesToMove=axes))
            m.check(not ok(r), "unroll", "%s with %s unrolled was accepted" % (g, axes))
            call(rig, "reset")
            continue
        dims = [(list(d.axes), d.size) for d in expect.dimensions]
        size, inner, ends = scan_reference(dims, axes, [])
        bps = []
        if inner > 1 and rng.random() < 0.3:
            left = inner
            while left > 0 and len(bps) < 4:
                k = rng.randrange(1, left + 1)
                bps.append(k)
                left -= k
            size, inner, ends = scan_reference(dims, axes, bps)
        what = "%s scan of %s (%s axes %s), %d files in blocks of %d" % (gk, list(expect.shape), "unrolled" if unroll else "", axes, w.count, w.block)
        r, d, name, template, starts = do_scan(m, rng, rig, g, axes, bps, what)
        if snakes(expect):
            m.check(not ok(r), "snake", "%s: accepted, though it turns back" % what)
            m.check(rig.value("state") == "Fault", "snake", "%s: refused, but in state %s" % (what, rig.value("state")))
            m.count("snakes_refused")
            m.distinct("snake", gk, len(dims))
            call(rig, "reset")
            continue
        m.check(ok(r), "configure", lambda: "%s: configure gave %s" % (what, getattr(r, "message", r)))
        if not ok(r):
            call(rig, "reset")
            continue
        s = w.starts[-1] if len(w.starts) == starts + 1 else None
        m.check(s, "start", lambda: "%s: started %d times" % (what, len(w.starts) - starts))
        if not s:
            return
        base = os.path.splitext(template.replace("%s", name + "_raw_data"))[0]
        m.check((s["numCapture"], s["fileName"], s["filePath"]) == (size, base, d + "/"), "start", lambda: "%s: told to write %s frames to %s%s" % (what, s["numCapture"], s["filePath"], s["fileName"]))
        aborted = rng.random() < 0.2
        if aborted:
            k = rng.randrange(len(ends))
            judge_runs(m, rig, ends, what, k)
            stops = w.stops
            r = call(rig, "abort")
            m.check(ok(r) and w.stops > stops, "abort", lambda: "%s: abort gave %s, the writer was told to stop %d times" % (what, r, w.stops - stops))
            while w.running:
                cothread.Sleep(0.002)
            m.count("aborts")
            call(rig, "reset")
            continue
        if judge_runs(m, rig, ends, what):
            judge_file(m, rig, expect, d, name, template, what)
            m.count("scans")
            m.distinct(kind, gk, len(expect.shape), w.count, w.block, len(ends) > 1, expect.size % (w.count * w.block) > 0)


def odin(m, rng, idx):
    scan(m, rng, idx, "odin", None)


def xspress(m, rng, idx):
    scan(m, rng, idx, "xspress", None)


def unrolled(m, rng, idx):
    scan(m, rng, idx, rng.choice(["odin", "odin", "xspress"]), rng.random() < 0.85)


check = vmon.Check(
    "C27",
    [
        vmon.Scenario("odin", odin, quick=220, thorough=6000, timeout=120),
        vmon.Scenario("xspress", xspress, quick=120, thorough=3000, timeout=120),
        vmon.Scenario("unrolled", unrolled, quick=120, thorough=3000, timeout=120),
    ],
    rule="Distinct kinds and ranks of scan with numbers of files, sizes of block, several runs, and incomplete blocks",
    required=["scans", "runs", "frames_judged", "positions_judged", "raw_judged", "snakes_refused", "unrolled", "aborts"],
    level="exploration",
    assumptions=["The writers share out frames in blocks, in turn, and count them as they are written"],
)
if __name__ == "__main__":
    check.main()
