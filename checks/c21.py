#!/opt/venv/bin/python
"""C21: motor trajectories pass through every scan point, within limits, on time.

Real scans through the real PMAC parts to a simulated trajectory scan, whose
profiles are compared with the points of the scan (lib/motionrig.py)."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vmon
import mh
import motionrig as mr
from manrig import ok

import numpy as np
from malcolm.core import Error
from malcolm.modules.pmac.parts import pmacchildpart
from malcolm.modules.scanning.infos import MotionTrigger
from scanpointgenerator import CompoundGenerator, LineGenerator

TRIGGERS = [None, MotionTrigger.EVERY_POINT, MotionTrigger.EVERY_POINT, MotionTrigger.ROW_GATE, MotionTrigger.ROW_GATE, MotionTrigger.NONE]


def shrink(m, rng, longest, profile=(60, 150, 400), batch=(3, 40, 200)):
    """Fewer points at a time, so that ends of chunks are met often"""
    if longest > 60:
        # Moves are cut into pieces of 4 s, and the points of a profile must do for one
        profile = [1000]
    for name, values in (("PROFILE_POINTS", profile), ("BATCH_POINTS", batch)):
        if hasattr(pmacchildpart, name):
            old = getattr(pmacchildpart, name)
            m.defer(lambda name=name, old=old: setattr(pmacchildpart, name, old))
            setattr(pmacchildpart, name, rng.choice(values))


def longest(g):
    return float(np.max(g.get_points(0, g.size).duration))


def make_rig(m, rng, limits=False):
    n = rng.choice([1, 2, 2, 3, 3, 4])
    letters = rng.sample(mr.AXES, n)
    motors = [mr.Motor(rng, x, letters[i]) for i, x in enumerate(["x", "y", "z", "theta"][:n])]
    trigger = rng.choice(TRIGGERS)
    turn = rng.choice([None, None, (0.0, 0.002), (0.1, 0.002), (0.05, 0.02), (1.0, 0.1)])
    r = mr.Rig(m, rng, motors, trigger, min_turnaround=turn)
    r.trig = "EVERY_POINT" if trigger is None else trigger.name
    m.distinct("rig", n, r.trig, turn)
    return r


def judge(m, r, seg, what):
    """The segment of a scan that was run"""
    start, end = seg["segment"]
    run = r.run_of(seg)
    m.require(run is not None, "executed", lambda: "%s: no trajectory was executed" % what)
    m.check(run["finished"] and not run["late"], "executed", lambda: "%s: the trajectory ended before all of it was sent" % what)
    scan = mr.Scan(seg["generator"], start, end)
    m.check(run["cs"] == "CS1", "cs", lambda: "%s: coordinate system %r" % (what, run["cs"]))
    gaps, ends, T = mr.judge_trajectory(m, run, scan, r.motors, r.trig, r.min_turnaround, what, seg["axes"])
    m.count("trajectories")
    m.distinct("shape", r.trig, len(scan.rows) > 1, len(run["chunks"]) > 1, len(scan.axes))
    # Progress
    if r.trig == "EVERY_POINT":
        tol = 3.0 + len(run["chunks"])
        for scanned, done in run["progress"]:
            want = start + int(np.sum(ends <= T[scanned - 1] + tol))
            m.check(done == want, "progress", lambda: "%s: %d steps said to be complete after %d points of the profile, not %d" % (what, done, scanned, want))
            m.count("progress_judged")
    return scan


def judge_move(m, r, what):
    by = {x.letter: x for x in r.motors}
    for time, where in r.cs.moves:
        for letter, p in where.items():
            mot = by[letter]
            lo, hi = mot.limits
            if lo or hi:
                m.check(lo <= p <= hi, "limits", lambda: "%s: %s moved to %s outside %s" % (what, mot.name, p, mot.limits))
    r.cs.moves.clear()


def declined(m, r, resp):
    """velocity_profile can't do all turnarounds, e.g. of motors that need to settle"""
    text = str(getattr(resp, "message", ""))
    bad = ("math domain error", "time stretch required", "consistent time")
    if "check the math" in text or any(x.settle for x in r.motors) and any(b in text for b in bad):
        m.count("declined")
        return True
    return False


def run_scan(m, r, g, what, breakpoints=None):
    rng = r.rng
    args = dict(generator=g)
    if breakpoints:
        args["breakpoints"] = breakpoints
    r.segments.clear()
    r.cs.moves.clear()
    resp = r.wait(r.post("configure", **args))
    if declined(m, r, resp):
        return False
    m.require(ok(resp), "configure", lambda: "%s: configure: %s" % (what, resp))
    m.count("configures")
    n = len(breakpoints) if breakpoints else 1
    for i in range(n):
        resp = r.wait(r.post("run"))
        if declined(m, r, resp):
            return False
        m.require(ok(resp), "run", lambda: "%s: run: %s" % (what, resp))
    m.check(len(r.segments) == n, "segments", lambda: "%s: ran %s" % (what, [x["segment"] for x in r.segments]))
    at = 0
    for seg in r.segments:
        m.check(seg["segment"][0] == at, "segments", lambda: "%s: ran %s" % (what, [x["segment"] for x in r.segments]))
        at = seg["segment"][1]
        judge(m, r, seg, "%s %s" % (what, seg["segment"]))
    m.check(at == r.generator.size, "segments", lambda: "%s: ran %s of %d" % (what, [x["segment"] for x in r.segments], r.generator.size))
    judge_move(m, r, what)
    return True


def describe(g, kind, r):
    return "%s of %d points of %.4g s%s%s, %s" % (
        kind, g.size, g.duration, "" if g.continuous else " stepped", " delay %s" % g.delay_after if g.delay_after else "", r.trig,
    )


def scans(m, rng, idx):
    r = make_rig(m, rng)
    for _ in range(rng.choice([1, 2])):
        g, kind = mr.make_scan(rng, r.motors, rng.choice([1, 2, 3, 7, 20, 60, 150]), durations=[0.01, 0.1, 0.5, 1.0, 3.0, 9.0])
        shrink(m, rng, longest(g))
        breakpoints = None
        if g.size > 3 and rng.random() < 0.25:
            a = rng.randrange(1, g.size)
            breakpoints = [a, g.size - a]
            m.count("breakpoints")
        if not run_scan(m, r, g, describe(g, kind, r), breakpoints):
            break
        m.distinct("scan", kind, r.trig)


def big(m, rng, idx):
    """As many points at a time as there really are"""
    r = make_rig(m, rng)
    sizes = [2500, 4200, 6000] if idx % 5 else [21000, 41000]
    g, kind = mr.make_scan(rng, r.motors, rng.choice(sizes), kinds=["line", "grid", "grid", "roi", "spiral"], durations=[0.01, 0.1])
    run_scan(m, r, g, describe(g, kind, r))
    m.count("big_scans")


def seeks(m, rng, idx):
    """Paused and sent elsewhere, at any time"""
    r = make_rig(m, rng)
    g, kind = mr.make_scan(rng, r.motors, rng.choice([7, 20, 60]))
    shrink(m, rng, longest(g))
    what = describe(g, kind, r)
    resp = r.wait(r.post("configure", generator=g))
    if declined(m, r, resp):
        return
    m.require(ok(resp), "configure", lambda: "%s: configure: %s" % (what, resp))
    for _ in range(rng.choice([1, 2, 3])):
        box = None
        if rng.random() < 0.7:
            box = r.post("run")
            mh.yields(rng.choice([5, 50, 120, 300]))
        if box:
            # It is over by now
            r.wait(box, 1)
        if r.get("state", "value") == "Finished":
            break
        to = rng.randrange(0, r.generator.size)
        resp = r.wait(r.post("pause", lastGoodStep=to))
        if not ok(resp):
            m.count("pause_refused")
            mh.settle(lambda: r.get("state", "value") in ("Finished", "Armed", "Paused"), 3000)
            break
        m.check(r.segment[0] == to, "seek", lambda: "%s: %s after a seek to %d" % (what, r.segment, to))
        m.count("seeks")
        if r.get("state", "value") == "Paused":
            r.segments.clear()
            resp = r.wait(r.post("resume"))
            m.check(ok(resp), "resume", lambda: "%s: resume: %s" % (what, resp))
    state = r.get("state", "value")
    if state == "Armed":
        r.segments.clear()
        resp = r.wait(r.post("run"))
        m.require(ok(resp), "run", lambda: "%s: run: %s" % (what, resp))
    else:
        mh.settle(lambda: r.get("state", "value") == "Finished", 20000)
    m.require(r.get("state", "value") == "Finished", "finish", lambda: "%s: %s" % (what, r.get("state", "value")))
    seg = r.segments[-1]
    judge(m, r, seg, "%s %s after seeks" % (what, seg["segment"]))
    done = r.get("completedSteps", "value")
    m.check(done == r.generator.size == seg["segment"][1], "finish", lambda: "%s: finished with %s steps" % (what, done))


def limits(m, rng, idx):
    """Motors with soft limits, near which scans are or are not possible; scans
    that are too fast; durations to be guessed"""
    n = rng.choice([1, 2])
    motors = [mr.Motor(rng, x, mr.AXES[i]) for i, x in enumerate(["x", "y"][:n])]
    kind = rng.choice(["limits", "limits", "fast", "guess", "guess"])
    start = [rng.choice([0.0, -5.0, 3.0]) for _ in motors]
    stop = [s + rng.choice([-1, 1]) * rng.choice([1.0, 4.0]) for s in start]
    size = rng.choice([2, 5, 11])
    step = [(b - a) / (size - 1) for a, b in zip(start, stop)]
    need = max(abs(s) / x.v for s, x in zip(step, motors))
    # A whole number of servo cycles
    d = np.ceil(need / rng.choice([0.9, 0.3]) * 1000) / 1000
    room = {}
    if kind == "limits":
        for s0, st, a, b, mot in zip([0] * n, step, start, stop, motors):
            v = st / d
            ramp = max(v * v / mot.a / 2, abs(v) * 0.002 / 2)
            end = v * v / mot.a / 2
            far = [a - st / 2 - np.sign(v) * ramp, b + st / 2 + np.sign(v) * end]
            spare = rng.choice([0.01, 0.01, -0.01, 1.0])
            mot.limits = (min(far) - (spare if rng.random() < 0.5 else 1), max(far) + (spare if rng.random() < 0.5 else 1))
            room[mot.name] = mot.limits[0] <= min(far) and max(far) <= mot.limits[1]
    r = mr.Rig(m, rng, motors, rng.choice([None, MotionTrigger.ROW_GATE]), min_turnaround=None, servo=1000.0)
    r.trig = "EVERY_POINT" if r.trigger is None else r.trigger.name
    names = [x.name for x in motors]
    g = CompoundGenerator([LineGenerator(names, ["mm"] * n, start, stop, size)], [], [], d)
    if kind == "fast":
        g.duration = need / rng.choice([1.1, 3.0])
        if np.ceil(g.duration * 1000 - 1e-6) / 1000 > need * 0.99:
            return  # To be made up to a whole number of servo cycles
    elif kind == "guess":
        g.duration = 0.0
    what = "%s from %s to %s in %s of %s s with limits %s" % (kind, start, stop, size, g.duration, [x.limits for x in motors])
    if kind == "guess":
        resp = r.wait(r.post("validate", generator=g))
        m.require(ok(resp), "guess", lambda: "%s: %s" % (what, resp))
        g = resp.value["generator"] if isinstance(resp.value, dict) else resp.value.generator
        m.check(g.duration >= need * 0.99, "guess", lambda: "%s: guessed a duration of %s, needs %s" % (what, g.duration, need))
        m.count("guesses")
        g = CompoundGenerator([LineGenerator(names, ["mm"] * n, start, stop, size)], [], [], 0.0)
    resp = r.wait(r.post("configure", generator=g))
    if kind == "fast" or (kind == "limits" and not all(room.values())):
        m.check(isinstance(resp, Error), "refuse", lambda: "%s: configured" % what)
        m.check(not [x for x in r.traj.runs if x["use"]], "refuse", lambda: "%s: moved" % what)
        m.count("refused")
    else:
        if kind == "guess" and not ok(resp) and "elocity" in str(resp.message):
            # A guess might be only just too fast
            m.count("guess_too_fast")
            return
        m.require(ok(resp), "configure", lambda: "%s: configure: %s" % (what, resp))
        resp = r.wait(r.post("run"))
        m.require(ok(resp), "run", lambda: "%s: run: %s" % (what, resp))
        judge(m, r, r.segments[-1], what)
        for mot in motors:
            lo, hi = mot.limits
            p = r.traj.runs[-1]["positions" + mot.letter]
            if lo or hi:
                m.check(lo <= p[0] and p[0] <= hi and lo <= p[-1] <= hi, "limits", lambda: "%s: %s went to %s" % (what, mot.name, (p[0], p[-1])))
        m.count("allowed")
    judge_move(m, r, what)


check = vmon.Check(
    "C21",
    [
        vmon.Scenario("scans", scans, quick=160, thorough=8000, timeout=240),
        vmon.Scenario("big", big, quick=10, thorough=300, timeout=600),
        vmon.Scenario("seeks", seeks, quick=60, thorough=2500, timeout=240),
        vmon.Scenario("limits", limits, quick=60, thorough=2000, timeout=120),
    ],
    rule="Distinct (axes, triggers, turnarounds) of rigs, kinds of scan with triggers, and shapes of profile (rows, chunks, axes)",
    required=[
        "trajectories", "positions_judged", "outputs_judged", "rows", "turnarounds_judged", "appends", "progress_judged",
        "breakpoints", "big_scans", "seeks", "guesses", "refused", "allowed",
    ],
    level="exploration",
    assumptions=[
        "Scan velocities change by more than numpy.isclose resolves, or not at all",
        "Between points of a profile the PMAC moves as its velocity modes say",
    ],
)
if __name__ == "__main__":
    check.main()
