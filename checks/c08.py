"""C08: a scan performs every point exactly in order through pauses, seeks and
breakpoints. Recording parts log the segments they are told to prepare for and
run; a reference scan model predicts them."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vmon  # noqa

import cothread  # noqa
import mh  # noqa
import scanrig  # noqa
from scanrig import Rig, gen_scan, merged_dims, pick_axes, scan_reference  # noqa
from malcolm.modules.scanning.infos import RunProgressInfo  # noqa

SEG_HOOKS = ("Configure", "PostRunArmed", "Seek")
ALL = [h for h in scanrig.HOOKS if h != "Halt"]


class Scan:
    """Reference model of the step bookkeeping"""

    def __init__(self, total, ends):
        self.total, self.ends = total, ends
        self.completed, self.configured = 0, ends[0]

    def end_of(self, start):
        return [e for e in self.ends if e > start][0]

    def seek(self, k):
        self.completed, self.configured = k, self.end_of(k)


def pick_breakpoints(rng, inner):
    if rng.random() < 0.5 or inner < 2:
        return []
    out, left = [], inner
    while left > 0 and len(out) < 4:
        n = rng.randrange(1, left + 1)
        out.append(n)
        left -= n
        if rng.random() < 0.3:
            break
    return out


def build(m, rng):
    rig = Rig(m, rng)
    nparts = rng.randrange(1, 4)
    for i in range(nparts):
        hooks = [h for h in ALL if h in SEG_HOOKS or h == "Run" or rng.random() < 0.5]
        rig.add_part("p%d" % i, hooks)
    return rig


def scans(m, rng, idx):
    rig = build(m, rng)
    reporters = [p for p in rig.parts if rng.random() < 0.7]
    progress = {}  # part name -> last reported
    done = {}  # part -> points physically done, in order of doing

    state = dict(hold=False, seg=None, gate=None)
    posn = {}  # where each part is in the segment it is running

    def planner(part, hook, kw, context):
        plan = dict(steps=rng.randrange(0, 4))
        if hook == "Run":
            seg = state["seg"]
            posn[part.name] = seg[0]
            slow = rng.randrange(1, 4)

            def until():
                for _ in range(slow - 1):
                    cothread.Yield()
                if posn[part.name] >= seg[1]:
                    return True
                stop = state["gate"]
                if stop is not None and posn[part.name] >= stop:
                    return False
                done.setdefault(part.name, []).append(posn[part.name])
                posn[part.name] += 1
                if part in reporters:
                    progress[part.name] = posn[part.name]
                    part.registrar.report(RunProgressInfo(posn[part.name]))
                return posn[part.name] >= seg[1]

            plan.update(until=until)
        return plan

    rig.planner = planner
    rig.start()
    gen, _ = gen_scan(rng)
    dims, size = merged_dims(gen)
    axes = pick_axes(rng, dims)
    total, inner, ends = scan_reference(dims, axes, [])
    bps = pick_breakpoints(rng, inner)
    total, inner, ends = scan_reference(dims, axes, bps)
    m.require(total == size, "harness", "reference size")
    m.distinct(dims, axes, bps)
    mark = [0]

    last_completed = [None]

    def on_event(e):
        # Continuous invariants on the published counters. While a new segment
        # is being set up the counters move one after the other, so compare
        # them in the states where a segment is in place.
        if e["kind"] == "steps" and e["which"] == "completed":
            if rig.state == "Running":
                m.check(
                    rig.completed <= rig.configured <= rig.total,
                    "counter-order",
                    "%s/%s/%s" % (rig.completed, rig.configured, rig.total),
                )
                m.check(
                    e["old"] is None or e["new"] >= e["old"],
                    "completed-went-back",
                    str(e["old"]) + ">" + str(e["new"]),
                )
                if progress:
                    slow = min(progress.values())
                    m.check(
                        e["new"] <= slow,
                        "completed-ahead",
                        lambda: "completed %s but slowest reported %s"
                        % (e["new"], progress),
                    )
        elif e["kind"] == "state" and e["new"] in (
            "Armed",
            "Paused",
            "Finished",
            "Running",
        ):
            m.check(
                rig.completed <= rig.configured <= rig.total,
                "counter-order",
                "%s %s/%s/%s" % (e["new"], rig.completed, rig.configured, rig.total),
            )

    rig.on_event = on_event

    def told(hook, model):
        """Every part was told about the segment from model.completed on"""
        seen = 0
        for e in rig.events[mark[0] :]:
            if e["kind"] == "start" and e["hook"] in SEG_HOOKS:
                seg = (e["args"]["completed_steps"], e["args"]["steps_to_do"])
                want = (model.completed, model.configured - model.completed)
                m.check(
                    e["hook"] == hook,
                    "wrong-phase",
                    "%s instead of %s" % (e["hook"], hook),
                )
                m.check(
                    seg == want,
                    "segment",
                    lambda: "%s told %s/%s got (completed, steps) %s, expected %s; "
                    "total %s ends %s"
                    % (hook, e["part"], e["hook"], seg, want, total, ends),
                )
                m.count("segments_told")
                seen += 1
        m.check(
            seen == len(rig.parts),
            "told-parts",
            "%s reached %d of %d parts" % (hook, seen, len(rig.parts)),
        )
        mark[0] = len(rig.events)
        state["seg"] = (model.completed, model.configured)

    def published(model, where):
        got = (rig.completed, rig.configured, rig.total)
        want = (model.completed, model.configured, model.total)
        m.check(
            got == want,
            "published-steps",
            lambda: "%s: published %s expected %s (ends %s) %s"
            % (where, got, want, ends, rig.tail()),
        )

    a = rig.do(
        "configure", generator=gen.to_dict(), axesToMove=axes, breakpoints=bps
    )
    m.require(a.ok, "configure-failed", lambda: str(a.message))
    m.check(rig.state == "Armed", "state", "after configure " + str(rig.state))
    model = Scan(total, ends)
    told("Configure", model)
    published(model, "configure")
    seeks = 0
    runs = 0
    rewound = False
    while runs < 14:
        if rig.state == "Armed":
            r = rng.random()
            if r < 0.3 and seeks < 6:
                # Seek while armed, by put or by pause
                seeks += 1
                k = rng.choice(
                    [rng.randrange(total), rng.randrange(total), -1, total, total + 3]
                )
                want = model.completed if k < 0 else min(k, total - 1)
                if rng.random() < 0.4 and k >= 0:
                    a = rig.do("completedSteps", put=True, value=k)
                else:
                    a = rig.do("pause", lastGoodStep=k)
                m.require(a.ok, "seek-failed", lambda: str(a.message))
                model.seek(want)
                m.check(rig.state == "Armed", "state", "seek -> " + str(rig.state))
                told("Seek", model)
                published(model, "armed seek")
                rewound = True
                for n in progress:
                    progress[n] = want
                m.count("armed_seeks")
                continue
            # Run
            runs += 1
            progress_gate = None
            if rng.random() < 0.6 and seeks < 8:
                progress_gate = rng.randrange(model.completed, model.configured + 1)
            state["gate"] = progress_gate
            run = rig.send("run")
            while not run.done:
                if state["gate"] is None:
                    m.require(
                        rig.wait(run, steps=6000),
                        "run-hang",
                        lambda: str(rig.tail()),
                    )
                    break
                # Let the parts reach the gate (or the run finish)
                mh.settle(
                    lambda: run.done
                    or (
                        rig.state == "Running"
                        and len(posn) == len(rig.parts)
                        and len([1 for (_, h) in rig.open.values() if h == "Run"])
                        == len(rig.parts)
                        and all(
                            v >= min(state["gate"], state["seg"][1])
                            for v in posn.values()
                        )
                    ),
                    400,
                )
                mh.yields(rng.randrange(3))
                if run.done or rig.state != "Running":
                    state["gate"] = None
                    continue
                # Pause somewhere
                seeks += 1
                k = rng.choice([-1, -1, rng.randrange(total), total + 2])
                pub = rig.completed
                pause = rig.do("pause", lastGoodStep=k)
                m.require(
                    pause.done, "pause-hang", lambda: str(rig.tail())
                )
                if not pause.ok:
                    # Only if the run ended before the pause got in
                    m.check(
                        rig.state in ("Armed", "Finished", "PostRun"),
                        "pause-failed",
                        lambda: "%s %s" % (pause.message, rig.tail()),
                    )
                    state["gate"] = None
                    continue
                if k < 0:
                    # published completed at the time the seek was decided
                    prev = pub
                    for e in rig.events[pause.sent : pause.answered]:
                        if e["kind"] == "state" and e["new"] == "Seeking":
                            break
                        if e["kind"] == "steps" and e["which"] == "completed":
                            prev = e["new"]
                    want = prev
                else:
                    want = min(k, total - 1)
                if want == model.configured:
                    want -= 1
                m.check(
                    rig.state == "Paused", "state", "pause -> " + str(rig.state)
                )
                model.seek(want)
                told("Seek", model)
                published(model, "pause")
                m.count("pauses")
                rewound = True
                for n in progress:
                    progress[n] = want
                # Maybe seek again while paused
                while rng.random() < 0.35 and seeks < 10:
                    seeks += 1
                    k = rng.choice([rng.randrange(total), total + 1, -1])
                    want = model.completed if k < 0 else min(k, total - 1)
                    if want == model.configured:
                        want -= 1
                    if k >= 0 and rng.random() < 0.5:
                        a = rig.do("completedSteps", put=True, value=k)
                    else:
                        a = rig.do("pause", lastGoodStep=k)
                    m.require(a.ok, "seek-failed", lambda: str(a.message))
                    model.seek(want)
                    m.check(
                        rig.state == "Paused", "state", "seek -> " + str(rig.state)
                    )
                    told("Seek", model)
                    published(model, "paused seek")
                    for n in progress:
                        progress[n] = want
                    m.count("paused_seeks")
                posn.clear()
                done.clear()
                state["gate"] = (
                    rng.randrange(model.completed, model.configured + 1)
                    if rng.random() < 0.3 and seeks < 8
                    else None
                )
                a = rig.do("resume")
                m.require(a.ok, "resume-failed", lambda: str(a.message))
                m.count("resumes")
            m.require(run.ok, "run-failed", lambda: "%s %s" % (run.message, rig.tail()))
            # The whole segment was run by every part in order
            for p in rig.parts:
                m.check(
                    done.get(p.name, []) == list(range(*state["seg"])),
                    "points-run",
                    lambda: "%s did %s of %s" % (p.name, done.get(p.name), state["seg"]),
                )
            done.clear()
            posn.clear()
            m.count("runs")
            model.completed = model.configured
            if model.configured < total:
                model.configured = model.end_of(model.completed)
                m.check(
                    rig.state == "Armed",
                    "state-after-run",
                    "%s with %d of %d done" % (rig.state, model.completed, total),
                )
                told("PostRunArmed", model)
            else:
                m.check(
                    rig.state == "Finished",
                    "state-after-run",
                    "%s with %d of %d done" % (rig.state, model.completed, total),
                )
                for e in rig.events[mark[0] :]:
                    m.check(
                        not (e["kind"] == "start" and e["hook"] in SEG_HOOKS),
                        "prepared-after-end",
                        "%s" % e.get("hook"),
                    )
                mark[0] = len(rig.events)
                m.count("finishes")
            published(model, "after run")
            progress.clear() if not progress else None
        elif rig.state == "Finished":
            if rng.random() < 0.4 and seeks < 8:
                seeks += 1
                k = rng.randrange(total)
                a = rig.do("pause", lastGoodStep=k)
                m.require(a.ok, "seek-failed", lambda: str(a.message))
                model.seek(k)
                m.check(rig.state == "Armed", "state", "seek -> " + str(rig.state))
                told("Seek", model)
                published(model, "finished seek")
                for n in progress:
                    progress[n] = k
                m.count("finished_seeks")
            else:
                break
        else:
            m.fail("stuck", "state %s %s" % (rig.state, rig.tail()))
            break
    if not rewound:
        m.count("plain_scans")
    m.sample(dict(dims=dims, axes=axes, breakpoints=bps, ends=ends, states=rig.states()))


def bad_scans(m, rng, idx):
    """Scans that can not be performed as asked are refused, none is started
    with other points"""
    rig = build(m, rng)
    rig.start()
    gen, _ = gen_scan(rng)
    dims, size = merged_dims(gen)
    axes = pick_axes(rng, dims)
    total, inner, _ = scan_reference(dims, axes, [])
    bad = rng.randrange(2)
    if bad == 0:
        bps = [rng.randrange(1, 3), inner + rng.randrange(0, 5)]
        a = rig.do("configure", generator=gen.to_dict(), axesToMove=axes, breakpoints=bps)
    else:
        # Inner dimension's axes not available to move
        inner_axes = [ax for ax, _ in dims if ax]
        if not inner_axes:
            return
        axes = ["other"]
        bps = []
        a = rig.do("configure", generator=gen.to_dict(), axesToMove=axes, breakpoints=bps)
    m.check(a.done and not a.ok, "accepted", lambda: "%s %s %s" % (dims, axes, bps))
    told = [e for e in rig.events if e["kind"] == "start" and e["hook"] in SEG_HOOKS]
    m.check(not told, "segment-of-refused-scan", str(len(told)))
    m.count("refused_scans")
    m.distinct(dims, axes, bps)


check = vmon.Check(
    "C08",
    [
        vmon.Scenario("scans", scans, quick=720, thorough=6000, timeout=60),
        vmon.Scenario("bad_scans", bad_scans, quick=90, thorough=300, timeout=60),
    ],
    rule="Distinct (dimensions, axes to move, breakpoints) scans driven through "
    "random histories of run, pause, seek and resume",
    required=[
        "segments_told", "pauses", "resumes", "paused_seeks", "armed_seeks",
        "finished_seeks", "finishes", "runs", "refused_scans",
    ],
    assumptions=[
        "Parts report progress honestly; delays are in scheduler yields",
        "Scan dimensions are taken from scanpointgenerator",
    ],
)
if __name__ == "__main__":
    check.main()
