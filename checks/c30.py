#!/opt/venv/bin/python
"""C30: a demonstration scan drives its axes through every point and writes every frame once, in its place.

The real blocks of malcolm.modules.demo as their YAML makes them, scanned through
pauses, rewinds, breakpoints, aborts and failures, writing real HDF5 files."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vmon
import mh
import cothread
import h5py
import manrig
import numpy as np
from manrig import ok
from annotypes import add_call_types
from malcolm.core import Part, Post, Process, Update
from malcolm.modules import scanning
from malcolm.modules.demo.blocks import detector_block, motion_block, scan_1det_block
from malcolm.modules.demo.parts import MotionChildPart
from scanpointgenerator import (
    CircularROI,
    CompoundGenerator,
    LineGenerator,
    LissajousGenerator,
    ROIExcluder,
    SpiralGenerator,
    SquashingExcluder,
    StaticPointGenerator,
)

W, H = 7, 5
READOUT = 0.001


class Multiplier(Part):
    """Says that this detector can take many frames a step"""

    def prepare(self, mri):
        self.mri = mri
        return self

    def setup(self, registrar):
        super().setup(registrar)
        registrar.hook(scanning.hooks.ReportStatusHook, self.on_report_status)

    @add_call_types
    def on_report_status(self) -> scanning.hooks.UInfos:
        return scanning.infos.DetectorMutiframeInfo(self.mri)


class Rig:
    def __init__(self, m, rng):
        self.m, self.rng = m, rng
        self.process = p = Process("demo")
        self.two = rng.random() < 0.4
        made = list(motion_block(mri="MOTION", config_dir=m.tmpdir()))
        self.dets = {"DET": "DETECTOR"}
        if self.two:
            self.dets["OTHER"] = "DETECTOR2"
        for mri in self.dets.values():
            made += detector_block(mri=mri, config_dir=m.tmpdir(), width=W, height=H)
        if self.two or rng.random() < 0.4:
            self.multi = True
            scan = scanning.controllers.RunnableController("SCAN", m.tmpdir())
            parts = [scanning.parts.DatasetTablePart("DSET"), scanning.parts.SimultaneousAxesPart(value=["x", "y"])]
            parts += [scanning.parts.DetectorChildPart(name=k, mri=v, initial_visibility=True) for k, v in self.dets.items()]
            parts += [Multiplier("MULT" + k).prepare(v) for k, v in self.dets.items()]
            parts.append(MotionChildPart(name="MOT", mri="MOTION", initial_visibility=True))
            for part in parts:
                scan.add_part(part)
            made.append(scan)
        else:
            self.multi = False
            made += scan_1det_block(mri="SCAN", config_dir=m.tmpdir())
        for c in made:
            p.add_controller(c)
        m.defer(mh.stop_process, p)
        manrig.start(p)
        self.client = manrig.Client(p)
        self.scan = p.get_controller("SCAN")
        self.log = {"x": [], "y": []}
        for axis in "xy":
            self.client.subscribe(["MOTION:COUNTER" + axis.upper(), "counter", "value"], lambda u, axis=axis: self.moved(axis, u))
        self.steps, self.on_step = 0, None
        self.client.subscribe(["SCAN", "completedSteps", "value"], self.stepped)

    def moved(self, axis, u):
        if isinstance(u, Update):
            self.log[axis].append(u.value)

    def stepped(self, u):
        if isinstance(u, Update):
            self.steps = u.value
            if self.on_step:
                self.on_step(u.value)

    def value(self, name, mri="SCAN"):
        return self.process.get_controller(mri).block_view()[name].value

    def send(self, name, **params):
        return self.client.send(Post(self.client.id(), ["SCAN", name], params))

    def wait(self, box, seconds=25):
        for _ in range(int(seconds / 0.001)):
            if box:
                return box[0]
            cothread.Sleep(0.001)
        return None

    def call(self, name, **params):
        return self.wait(self.send(name, **params))

    def at(self):
        return {a: self.value("counter", "MOTION:COUNTER" + a.upper()) for a in "xy"}


def a_generator(rng):
    duration = rng.choice([0.002, 0.004, 0.01, 0.02])
    kind = rng.choice(["line", "grid", "grid", "snake", "snake", "roi", "spiral", "lissajous", "line3"])

    def line(axis, n, alternate=False):
        return LineGenerator(axis, "mm", rng.choice([-3.0, 0.0, 1.0]), rng.choice([2.0, 2.5, 7.0]), n, alternate)

    ex = []
    if kind == "line":
        gens = [line(rng.choice("xy"), rng.choice([1, 2, 5, 15]))]
    elif kind == "line3":
        gens = [line("energy", 2), line("y", 2, rng.random() < 0.5), line("x", 3, rng.random() < 0.7)]
    elif kind in ("grid", "snake"):
        gens = [line("y", rng.choice([1, 2, 4])), line("x", rng.choice([1, 2, 3, 5]), kind == "snake")]
    elif kind == "roi":
        gens = [LineGenerator("y", "mm", 0, 4, 5), LineGenerator("x", "mm", 0, 4, 5, rng.random() < 0.5)]
        ex = [ROIExcluder([CircularROI([2.0, 2.0], rng.choice([1.2, 2.2]))], ["x", "y"])]
    elif kind == "spiral":
        gens = [SpiralGenerator(["x", "y"], ["mm", "mm"], [0.0, 1.0], 1.5, 1.0)]
    else:
        gens = [LissajousGenerator(["x", "y"], ["mm", "mm"], [0.0, 1.0], [2.0, 1.0], 1, 12)]
    g = CompoundGenerator(gens, ex, [], duration=duration, continuous=rng.random() < 0.8)
    g.prepare()
    return g


def with_frames(g, name, frames):
    if frames == 1:
        return g
    d = dict(g.to_dict())
    axis = name + "_frames_per_step"
    d["generators"] = list(d["generators"]) + [StaticPointGenerator(frames, axes=[axis])]
    d["excluders"] = list(d["excluders"]) + [SquashingExcluder(axes=list(g.generators[-1].axes) + [axis])]
    d["duration"] = g.duration / frames
    g = CompoundGenerator.from_dict(d)
    g.prepare()
    return g


def pattern(p):
    names = sorted(p.positions)
    xs, ys = [[n for n in names if c in n.lower()] for c in "xy"]
    if xs and ys:
        x, y = p.positions[xs[0]], p.positions[ys[0]]
    else:
        x, y = p.positions[names[0]], p.positions[names[-1]]
    return 0.5 + (np.sin(x) ** 10 + np.cos(10 + y * x) * np.cos(x)) / 2


def blob():
    x, y = np.meshgrid(np.linspace(-1, 1, W), np.linspace(-1, 1, H))
    return 255 * np.exp(-(x * x + y * y))


BLOB = blob()


class Scan:
    """One scan that was asked for, and what is to come of it"""

    def __init__(self, m, rng, rig, **extra):
        self.m, self.rng, self.rig = m, rng, rig
        self.dir = m.tmpdir()
        self.generator = a_generator(rng)
        self.size = self.generator.size
        self.axes = axes = [a for a in "xy" if a in self.generator.axes]
        gens = self.generator.generators
        if rng.random() < 0.3 and gens[-1].axes == ["x"] and not self.generator.excluders:
            # The others are left to the user
            self.axes = axes = ["x"]
        # Runs go as far as the outermost generator that is moved
        inner = [g.size for g in gens if set(g.axes) <= set(axes)]
        self.each = self.size if len(inner) == len(gens) else int(np.prod(inner))
        self.template = rng.choice(["%s.h5", "%s.h5", "scan-%s.hdf"])
        params = dict(generator=self.generator, fileDir=self.dir, axesToMove=axes, **extra)
        if self.template != "%s.h5":
            params["fileTemplate"] = self.template
        # What each detector is to do: name: (frames, exposure)
        self.dets, rows = {}, []
        for name, mri in rig.dets.items():
            frames = rng.choice([1, 1, 2, 3]) if rig.multi and not self.generator.generators[-1].alternate else 1
            per = self.generator.duration / frames
            if per - READOUT < 0.0003:
                frames, per = 1, self.generator.duration
            longest = per - per * 50e-6 - READOUT
            exposure = rng.choice([0.0, 0.0, longest * 0.5])
            enable = rng.random() < 0.8 or (name == "DET" and len(rig.dets) == 1)
            rows.append([enable, name, mri, exposure, frames])
            if enable:
                self.dets[name] = (frames, exposure or longest)
        if rng.random() < 0.7:
            params["detectors"] = scanning.util.DetectorTable.from_rows(rows)
        else:
            self.dets = {n: (1, self.generator.duration * (1 - 50e-6) - READOUT) for n in rig.dets}
        self.breaks = []
        if rng.random() < 0.3 and self.each == self.size > 2:
            rest = self.size
            while rest:
                n = rng.randrange(1, rest + 1)
                self.breaks.append(n)
                rest -= n
            params["breakpoints"] = self.breaks
        self.params = params
        self.gens = {n: with_frames(self.generator, n, f) for n, (f, _) in self.dets.items()}
        self.uids = {n: {} for n in self.dets}
        self.top = {n: 0 for n in self.dets}
        self.marks = []  # (position in log of each axis, step started from)

    def path(self, name):
        return os.path.join(self.dir, self.template % name)

    def configure(self):
        m, rig = self.m, self.rig
        self.marks = []
        r = rig.call("configure", **self.params)
        m.require(ok(r), "configure", lambda: "configure of %s gave %s" % (self.params, r))
        self.table()
        self.mark(0)
        self.standing(0)

    def mark(self, step):
        self.marks.append(({a: len(v) for a, v in self.rig.log.items()}, step))

    def standing(self, step):
        """Between runs the axes wait at the start of the next point"""
        p, at = self.generator.get_point(step), self.rig.at()
        for a in self.axes:
            self.m.check(abs(at[a] - p.lower[a]) < 1e-9, "start", lambda: "%s is at %s to start from point %d, which starts at %s" % (a, at[a], step, p.lower[a]))
        self.m.count("starts")

    def table(self):
        m = self.m
        rows = list(self.rig.value("datasets").rows())
        want = set()
        for n in self.dets:
            g, f = self.gens[n], self.template % n
            want.add((n + ".data", f, "primary", len(g.shape) + 2, "/entry/data", "/entry/uid"))
            want.add((n + ".sum", f, "secondary", len(g.shape) + 2, "/entry/sum", "/entry/uid"))
            for a in g.axes:
                want.add((a + ".value_set", f, "position_set", 1, "/entry/%s_set" % a, ""))
        got = {(r[0], r[1], getattr(r[2], "value", r[2]), int(r[3]), r[4], r[5]) for r in rows}
        m.check(got == want and len(rows) == len(want), "datasets", lambda: "datasets reported: %s, expected: %s" % (sorted(got - want), sorted(want - got)))
        m.count("tables")

    def look(self, why):
        """What has been written so far, with the file still open"""
        for n in self.dets:
            fapl = h5py.h5p.create(h5py.h5p.FILE_ACCESS)
            fapl.set_libver_bounds(h5py.h5f.LIBVER_LATEST, h5py.h5f.LIBVER_LATEST)
            try:
                f = h5py.File(h5py.h5f.open(self.path(n).encode(), h5py.h5f.ACC_RDWR | h5py.h5f.ACC_SWMR_WRITE, fapl))
            except OSError:
                # It has been closed: it will be read in the end
                continue
            self.ids(n, f["/entry/uid"][()], why)
            f.close()
            self.m.count("looks")

    def ids(self, n, uids, why):
        """Each frame that is new, or taken again, has an id higher than any before"""
        top = self.top[n]
        for index, u in np.ndenumerate(uids):
            old = self.uids[n].get(index, 0)
            if u != old:
                self.m.check(u > top, "ids", lambda: "%s: %s has id %d at %s (was %d), when ids up to %d were there before" % (why, n, u, index, old, top))
                self.uids[n][index] = u
                self.top[n] = max(self.top[n], u)
                self.m.count("ids")

    def files(self, done, why, exact=None):
        """The files, once closed, have at least the first done steps and nothing that is wrong"""
        m = self.m
        names = sorted(os.listdir(self.dir))
        want = sorted(self.template % n for n in self.dets)
        m.check(names == want, "files", lambda: "%s: files %s, expected %s" % (why, names, want))
        for n, (frames, exposure) in self.dets.items():
            g = self.gens[n]
            # Consistency flags of the superblock: still being written to
            with open(self.path(n), "rb") as raw:
                flags = raw.read(12)[11]
            m.check(flags == 0, "files", "%s: %s is still open for writing" % (why, self.path(n)))
            try:
                f = h5py.File(self.path(n), "r")
            except OSError as e:
                m.check(False, "files", "%s: %s can't be read: %s" % (why, self.path(n), e))
                continue
            data, sums, uids = [f["/entry/" + x][()] for x in ("data", "sum", "uid")]
            self.ids(n, uids, why)
            if exact:
                m.check(data.shape == g.shape + (H, W) and sums.shape == uids.shape == g.shape + (1, 1), "shape", lambda: "%s: shapes %s %s %s of a scan of %s" % (why, data.shape, sums.shape, uids.shape, g.shape))
            last = 0
            filled = 0
            for i in range(g.size):
                p = g.get_point(i)
                index = tuple(p.indexes)
                there = all(x < y for x, y in zip(index, uids.shape)) and uids[index][0, 0] != 0
                filled += there
                if i < done * frames:
                    m.check(there, "missing", lambda: "%s: frame %d of %s is not there with %d steps of %d frames done" % (why, i, n, done, frames))
                if not there:
                    continue
                u = int(uids[index][0, 0])
                if exact:
                    m.check(u > last, "ids", lambda: "%s: frame %d of %s has id %d after %d" % (why, i, n, u, last))
                    last = u
                want = BLOB * pattern(p) * exposure / g.duration
                got = data[index]
                m.check(np.abs(got.astype(float) - want).max() <= 1.02, "data", lambda: "%s: frame %d of %s has data %s, expected %s" % (why, i, n, got[2], want[2]))
                m.check(abs(sums[index][0, 0] - got.astype(float).sum()) < 1e-6, "sum", lambda: "%s: frame %d of %s has sum %s, expected %s" % (why, i, n, sums[index], got.sum()))
                m.count("frames")
            m.check(filled == np.count_nonzero(uids), "elsewhere", lambda: "%s: %d frames of %s written for %d points" % (why, np.count_nonzero(uids), n, filled))
            for d in g.dimensions:
                for a in d.axes:
                    v, w = f["/entry/%s_set" % a][()], d.get_positions(a)
                    m.check(len(v) == len(w) and np.allclose(v, w), "setpoints", lambda: "%s: setpoints of %s are %s, expected %s" % (why, a, v, w))
                    m.check(f["/entry/%s_set" % a].attrs["units"] == g.units[a], "setpoints", "units of %s" % a)
            f.close()

    def motion(self, ends, why):
        """In each run the axes go through the points in order, from one side of each to the other"""
        m = self.m
        logs = {a: list(v) for a, v in self.rig.log.items()}
        for k, (mark, start) in enumerate(self.marks):
            nxt = self.marks[k + 1][0] if k + 1 < len(self.marks) else {a: len(v) for a, v in logs.items()}
            if ends[k] is None:
                continue
            for a in self.axes:
                seen = logs[a][max(0, mark[a] - 1) : nxt[a]]
                pos = 0
                for i in range(start, ends[k]):
                    p = self.generator.get_point(i)
                    for side, v in (("start", p.lower[a]), ("end", p.upper[a])):
                        while pos < len(seen) and abs(seen[pos] - v) > 1e-9:
                            pos += 1
                        m.require(pos < len(seen), "motion", lambda: "%s: %s did not go to the %s of point %d, %s: after starting from %d it went to %s" % (why, a, side, i, v, start, seen))
                    m.count("moves")


def states(rig):
    return rig.value("state")


def runs(m, rng, idx):
    """Scans to the end, with pauses and rewinds on the way"""
    rig = Rig(m, rng)
    for k in range(rng.choice([1, 2])):
        s = Scan(m, rng, rig)
        s.configure()
        still = {a: len(rig.log[a]) for a in "xy" if a not in s.axes}
        ends, plan = [], [rng.randrange(0, s.size + 1) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        targets = list(np.cumsum(s.breaks)) if s.breaks else list(range(s.each, s.size + 1, s.each))
        start = 0
        for _ in range(40):
            target = next(t for t in targets if t > start)
            box = rig.send("run") if states(rig) == "Armed" else None
            if box is None:
                r = rig.call("resume")
                m.require(ok(r), "resume", lambda: "resume gave %s" % r)
                box = running
            else:
                running = box
            pausing = None
            if plan:
                at, lag = plan.pop(0), rng.choice([0, 0, 1, 5, 20])
                for _ in range(20000):
                    if box or rig.steps >= at or states(rig) not in ("Running", "Armed"):
                        break
                    cothread.Sleep(0.0005)
                mh.yields(lag)
                if not box and states(rig) == "Running":
                    # To where it has got, or back
                    back = rng.choice([-1, -1, 0, rng.randrange(0, max(1, rig.steps + 1))])
                    if back >= 0 and back >= target:
                        back = -1
                    pausing = rig.wait(rig.send("pause", **({} if back < 0 else dict(lastGoodStep=back))))
            if pausing is not None and ok(pausing) and states(rig) == "Paused":
                step = rig.value("completedSteps")
                m.check(back < 0 or step == back, "pause", lambda: "paused at %d when asked for %d" % (step, back))
                m.require(step < s.size, "pause", "paused at the end")
                ends.append(None)
                s.look("paused at %d of %d" % (step, s.size))
                start = step
                s.mark(start)
                s.standing(start)
                m.count("pauses")
                m.distinct("pause", s.size, step)
                continue
            r = rig.wait(box)
            m.require(ok(r), "run", lambda: "run from %d of %s gave %s" % (start, s.params, r))
            ends.append(target)
            s.look("after the run to %d of %d" % (target, s.size))
            done = rig.value("completedSteps")
            if states(rig) == "Finished":
                m.check(done == s.size == target, "finished", lambda: "finished at %d of %d, going to %d" % (done, s.size, target))
                break
            m.require(states(rig) == "Armed", "run", lambda: "in %s after a run to %d of %d" % (states(rig), target, s.size))
            start = done
            s.mark(start)
            s.standing(start)
            m.count("breakpoints")
        m.require(states(rig) == "Finished", "run", "did not finish")
        cothread.Sleep(0.002)
        s.motion(ends, "finished")
        at, p = rig.at(), s.generator.get_point(s.size - 1)
        for a in s.axes:
            m.check(abs(at[a] - p.upper[a]) < 1e-9, "end", lambda: "%s finished at %s, expected %s" % (a, at[a], p.upper[a]))
        for a, n in still.items():
            m.check(len(rig.log[a]) == n, "still", lambda: "%s moved to %s though not asked to" % (a, rig.log[a][n:]))
        r = rig.call("reset")
        m.require(ok(r), "reset", lambda: "reset gave %s" % r)
        s.files(s.size, "finished", exact=True)
        m.count("scans")
        m.distinct("scan", s.generator.shape, tuple(sorted(s.dets.items()))[:1], bool(s.breaks))


def stops(m, rng, idx):
    """Scans aborted, or told to fail, leave what they had done"""
    rig = Rig(m, rng)
    for k in range(2):
        fail = rng.random() < 0.4
        extra = {}
        if fail:
            extra["exceptionStep"] = rng.choice([1, 1, 2, 3, 5])
        s = Scan(m, rng, rig, **extra)
        s.configure()
        if fail and extra["exceptionStep"] > (s.breaks or [s.each])[0]:
            # Not in this run
            fail = False
        at, lag = rng.randrange(0, s.size + 1), rng.choice([0, 0, 1, 3, 10, 40])
        box = rig.send("run")
        if fail:
            r = rig.wait(box)
            m.check(r is not None and not ok(r), "fail", lambda: "run told to fail at %s gave %s" % (extra, r))
            for _ in range(4000):
                if states(rig) == "Fault":
                    break
                cothread.Sleep(0.002)
            m.check(states(rig) == "Fault", "fail", lambda: "in %s after failing" % states(rig))
            done = rig.value("completedSteps")
            m.check(done <= extra["exceptionStep"], "fail", lambda: "%d steps done when failing at %s" % (done, extra))
            m.count("failures")
            what = "failed at %s" % extra
        else:
            for _ in range(20000):
                if box or rig.steps >= at:
                    break
                cothread.Sleep(0.0005)
            mh.yields(lag)
            if rng.random() < 0.5:
                s.look("before abort")
            r = rig.call("abort")
            if not ok(r):
                rig.wait(box)
                r = rig.call("abort")
            m.check(ok(r) and states(rig) == "Aborted", "abort", lambda: "abort gave %s in %s" % (r, states(rig)))
            done = rig.value("completedSteps")
            m.count("aborts")
            what = "aborted at %d" % done
        if rng.random() < 0.7 or "failed" in what:
            r = rig.call("reset")
            m.check(ok(r), "reset", lambda: "reset gave %s" % r)
        else:
            m.count("closed_by_abort")
        s.files(done, what)
        m.distinct("stop", s.size, done, what.split()[0])
        # And it can be used again
        if rng.random() < 0.5:
            if states(rig) != "Ready":
                m.require(ok(rig.call("reset")), "reset", "could not be reset")
            s = Scan(m, rng, rig)
            s.configure()
            while states(rig) == "Armed":
                r = rig.call("run")
                m.require(ok(r), "recover", lambda: "run after %s gave %s" % (what, r))
            m.require(ok(rig.call("reset")), "reset", "could not be reset")
            s.files(s.size, "after " + what, exact=True)
            m.count("recoveries")
        elif states(rig) != "Ready":
            m.require(ok(rig.call("reset")), "reset", "could not be reset")


check = vmon.Check(
    "C30",
    [
        vmon.Scenario("runs", runs, quick=270, thorough=3000, timeout=120),
        vmon.Scenario("stops", stops, quick=180, thorough=2000, timeout=120),
    ],
    rule="Distinct shapes of scan with what the detectors do, steps paused at, and steps stopped at",
    required=["scans", "frames", "moves", "starts", "ids", "looks", "pauses", "breakpoints", "tables", "aborts", "failures", "recoveries", "closed_by_abort"],
    level="exploration",
)
if __name__ == "__main__":
    check.main()
