"""C09: abort and disable work at any moment and leave a recoverable block.

A driver performs configure, run, pause, seek, resume, reset on a block of
recording parts. After the n-th event (plus a few scheduler yields) an abort or
disable is sent; the log from there on is judged."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vmon  # noqa

import cothread  # noqa
import mh  # noqa
import scanrig  # noqa
import statemodel  # noqa
from scanrig import Rig, gen_scan, merged_dims, pick_axes  # noqa

ALLOWED = statemodel.writeable_in("runnable")
REL = statemodel.relation("runnable")
DONE_STATES = {
    "configure": {"Armed"},
    "run": {"Armed", "Finished"},
    "pause": {"Paused", "Armed", "Finished"},
    "completedSteps": {"Paused", "Armed"},
    "resume": {"Running"},
    "reset": {"Ready"},
}


def make(m, rng, dense=True):
    rig = Rig(m, rng)
    for i in range(rng.randrange(1, 4)):
        rig.add_part(
            "p%d" % i,
            [h for h in scanrig.HOOKS if h != "Halt" and rng.random() < 0.85],
        )
    # Some parts can't be interrupted, but finish before long
    stubborn = {p.name for p in rig.parts if rng.random() < 0.15}

    def planner(part, hook, kw, context):
        return dict(
            steps=rng.choice([0, 1, 1, 2, 3, 6]),
            interruptible=part.name not in stubborn and rng.random() < 0.9,
        )

    rig.planner = planner
    return rig


def scan_args(rng):
    gen, _ = gen_scan(rng, maxdims=2, maxsize=3)
    dims, _ = merged_dims(gen)
    return dict(generator=gen.to_dict(), axesToMove=pick_axes(rng, dims))


def drive(rig, rng, stop):
    """Keep doing legal things until told to stop"""
    last_run = None
    for _ in range(40):
        if stop["now"]:
            return
        st = rig.state
        if st == "Ready":
            rig.do("configure", **scan_args(rng))
        elif st == "Finished":
            r = rng.random()
            if r < 0.5:
                rig.do("configure", **scan_args(rng))
            elif r < 0.75:
                rig.do("pause", lastGoodStep=0)
            else:
                rig.do("reset")
        elif st == "Armed":
            if rng.random() < 0.2:
                rig.do("pause", lastGoodStep=rng.randrange(rig.total or 1))
                continue
            last_run = rig.send("run")
            mh.yields(rng.choice([0, 1, 2, 4, 8]))
            if stop["now"]:
                return
            if rng.random() < 0.7:
                rig.do("pause")
            else:
                rig.wait(last_run)
        elif st == "Paused":
            if rng.random() < 0.4:
                rig.do("pause", lastGoodStep=rng.randrange(rig.total or 1))
            else:
                rig.do("resume")
        elif st == "Running" and last_run is not None and not last_run.done:
            mh.yields(rng.choice([0, 1, 3]))
            if stop["now"]:
                return
            if rng.random() < 0.5:
                rig.do("pause")
            else:
                rig.wait(last_run)
        else:
            mh.yields(5)


def interrupt(m, rng, idx):
    what = "disable" if idx % 3 == 2 else "abort"
    n = 8 + (idx * 7) % 150
    rig = make(m, rng)
    extra = rng.choice([None, None, None, "abort", "disable", "pause", "abort"])
    stop = dict(now=False)
    hit = dict(act=None, extra=None, seen=None)
    delay = rng.randrange(0, 5)

    def inject():
        mh.yields(delay)
        # Wait for a moment where it is allowed
        for _ in range(400):
            if rig.state in ALLOWED[what]:
                break
            cothread.Yield()
        if extra == "pause" and rig.state in ALLOWED["pause"]:
            hit["extra"] = rig.send("pause")
            mh.yields(rng.randrange(0, 6))
        if rig.state not in ALLOWED[what]:
            return
        stop["now"] = True
        hit["state"] = rig.state
        hit["opens"] = sorted(set(h for _, h in rig.open.values()))
        hit["act"] = rig.send(what)
        if extra in ("abort", "disable"):
            mh.yields(rng.randrange(0, 6))
            hit["extra"] = rig.send(extra)

    armed = [True]

    def on_event(e):
        if e["kind"] == "state" and e["old"] is not None:
            m.check(
                e["new"] in REL[e["old"]],
                "illegal-transition",
                lambda: "%s -> %s" % (e["old"], e["new"]),
            )
        if armed[0] and e["seq"] >= n:
            armed[0] = False
            cothread.Spawn(inject)

    rig.start()
    rig.on_event = on_event
    driver = cothread.Spawn(drive, rig, rng, stop)
    mh.settle(lambda: hit["act"] is not None, 6000)
    if hit["act"] is None:
        m.count("not_reached")
        return
    x = hit["act"]
    answered = rig.wait(x, steps=1500)
    if answered and not x.ok and extra == what:
        # Perhaps the other one got in first
        mh.settle(lambda: hit["extra"] is not None, 200)
        if hit["extra"] is not None:
            rig.wait(hit["extra"], steps=1500)
            if hit["extra"].ok:
                x, hit["extra"] = hit["extra"], x
    m.require(
        answered,
        "slow",
        lambda: "%s in %s (during %s) not answered: %s"
        % (what, hit["state"], hit["opens"], rig.tail(40)),
    )
    mh.settle(lambda: all(a.done for a in rig.acts), 600)
    mh.yields(20)
    m.count(what + "s")
    m.distinct(what, extra, hit["state"], tuple(hit["opens"]))
    m.count("during_" + hit["state"])
    disabled = what == "disable" or extra == "disable"
    start_state = "Aborting" if what == "abort" else "Disabling"
    end_state = "Aborted" if what == "abort" else "Disabled"
    if not x.ok:
        # Refused: only because something else got in first
        seen = [x.state_at_answer] + [
            e["new"] for e in rig.events[x.sent : x.answered] if e["kind"] == "state"
        ]
        m.check(
            any(st not in ALLOWED[what] for st in seen)
            and (start_state not in seen or extra in ("abort", "disable")),
            "refused",
            lambda: "%s in %s: %s; %s" % (what, hit["state"], x.message, rig.tail(40)),
        )
        m.count("refused")
    else:
        m.check(
            x.state_at_answer == end_state
            or (disabled and x.state_at_answer in ("Disabling", "Disabled")),
            "end-state",
            lambda: "%s in %s (during %s) ended in %s: %s"
            % (what, hit["state"], hit["opens"], x.state_at_answer, rig.tail(40)),
        )
        # After the block is seen stopping nothing else starts
        begin = [
            e["seq"]
            for e in rig.events[x.sent :]
            if e["kind"] == "state" and e["new"] == start_state
        ][0]
        ok_hooks = {"Abort"} if what == "abort" else {"Disable"}
        if disabled:
            ok_hooks.add("Disable")
        # Validation changes nothing, so it may go on
        validating = not any(
            e["kind"] == "state" and e["new"] in ("Configuring", "Resetting")
            for e in rig.events[begin - 60 if begin > 60 else 0 : begin]
        ) or rig.events[begin]["old"] in ("Ready", "Finished")
        ok_hooks.add("Validate")
        if validating:
            ok_hooks.add("ReportStatus")
        # (a part launched just before may get to run just after)
        launched = {}
        for e in rig.events:
            key = (e.get("part"), e.get("hook"))
            if e["kind"] == "launch":
                launched[key] = e["seq"]
            elif e["kind"] == "start":
                when = launched.pop(key, e["seq"])
                if when < begin:
                    continue
                m.check(
                    e["hook"] in ok_hooks,
                    "started-after",
                    lambda: "%s.%s started after %s was accepted in %s: %s"
                    % (e["part"], e["hook"], what, hit["state"], rig.tail(60)),
                )
        if what == "abort" and not disabled:
            # Everything had ended before the abort phase began
            opened = {}
            for e in rig.events[: x.answered]:
                if e["kind"] == "start":
                    if e["hook"] == "Abort" and e["seq"] > begin:
                        others = [o for o in opened.values() if o[1] not in ("Abort", "Validate") and o[2] not in ("validate",)]
                        others = [o for o in others if o[1] != "ReportStatus" or rig.events[begin]["old"] not in ("Ready", "Finished")]
                        m.check(
                            not others,
                            "abort-overlap",
                            lambda: "%s still open when Abort began" % others,
                        )
                    opened[e["token"]] = (e["part"], e["hook"], "")
                elif e["kind"] == "end":
                    opened.pop(e["token"], None)
        # Actions in progress were told
        for a in rig.acts:
            if a is x or a is hit["extra"] or a.name == "validate":
                continue
            m.check(
                a.done,
                "left-hanging",
                lambda: "%s never answered after %s in %s: %s"
                % (a.name, what, hit["state"], rig.tail(40)),
            )
            if a.done and a.answered > begin and a.ok:
                got_there = [
                    e
                    for e in rig.events[a.sent : begin]
                    if e["kind"] == "state" and e["new"] in DONE_STATES.get(a.name, ())
                ]
                m.check(
                    bool(got_there),
                    "told-success",
                    lambda: "%s told success after %s in %s: %s"
                    % (a.name, what, hit["state"], rig.tail(40)),
                )
            if a.done and a.answered > begin and not a.ok:
                m.count("stopped_actions")
    if hit["extra"] is not None:
        m.check(hit["extra"].done, "left-hanging", lambda: "extra " + hit["extra"].name)
    m.check(
        not rig.open, "still-open", lambda: "%s %s" % (rig.open, rig.tail(30))
    )
    if x.ok:
        rest = "Disabled" if disabled and (what == "disable" or hit["extra"].ok) else end_state
        m.check(
            rig.state == rest,
            "rest-state",
            lambda: "%s after %s+%s in %s: %s"
            % (rig.state, what, extra, hit["state"], rig.tail(40)),
        )
    # Recover
    stop["now"] = True
    mh.settle(lambda: all(a.done for a in rig.acts), 600)
    if rig.state in ("Paused", "Running", "Seeking"):
        rig.do("abort")
    if rig.state == "Ready":
        pass
    else:
        a = rig.do("reset")
        m.require(
            a.ok and rig.state == "Ready",
            "recover-reset",
            lambda: "%s %s %s" % (a.message, rig.state, rig.tail(40)),
        )
    lo = len(rig.events)
    a = rig.do("configure", **scan_args(rng))
    m.require(
        a.ok and rig.state == "Armed",
        "recover-configure",
        lambda: "%s %s %s" % (a.message, rig.state, rig.tail(40)),
    )
    for _ in range(20):
        a = rig.do("run")
        m.require(
            a.ok and rig.state in ("Armed", "Finished"),
            "recover-run",
            lambda: "%s %s %s" % (a.message, rig.state, rig.tail(40)),
        )
        if rig.state == "Finished":
            break
    m.check(
        rig.state == "Finished" and rig.completed == rig.total,
        "recover-run",
        lambda: "%s %s/%s" % (rig.state, rig.completed, rig.total),
    )
    bad = [
        e for e in rig.events[lo:] if e["kind"] == "end" and e["outcome"] != "ok"
    ]
    m.check(not bad, "recover-clean", lambda: str(bad[:2]))
    m.count("recoveries")
    m.sample(dict(what=what, state=hit["state"], opens=hit["opens"], log=rig.tail(30)))


def during_reset(m, rng, idx):
    """Disable while resetting or saving"""
    kind = rng.choice(["stateful", "manager", "runnable"])
    rig = Rig(m, rng, kind)
    for i in range(rng.randrange(1, 4)):
        rig.add_part("p%d" % i, [h for h in scanrig.STATEFUL_HOOKS if h != "Halt"])
    rig.planner = lambda *a: dict(
        steps=rng.choice([0, 1, 3, 6]), interruptible=rng.random() < 0.8
    )
    rig.start()
    a = rig.do("disable")
    m.require(a.ok and rig.state == "Disabled", "disable", lambda: str(a.message))
    r = rig.send("reset")
    mh.yields(rng.randrange(1, 12))
    st = rig.state
    if st not in ("Resetting", "Ready"):
        return
    d = rig.send("disable")
    rig.wait(r, d)
    mh.yields(20)
    m.count("reset_disables")
    m.distinct("reset", kind, st)
    m.check(
        d.ok and d.state_at_answer == "Disabled" and rig.state == "Disabled",
        "disable-in-reset",
        lambda: "%s: %s, state %s: %s" % (st, d.message, rig.state, rig.tail(30)),
    )
    m.check(r.done, "left-hanging", "reset")
    a = rig.do("reset")
    m.check(a.ok and rig.state == "Ready", "recover-reset", lambda: str(rig.tail()))


check = vmon.Check(
    "C09",
    [
        vmon.Scenario("interrupt", interrupt, quick=1800, thorough=15000, timeout=60),
        vmon.Scenario("during_reset", during_reset, quick=180, thorough=1000, timeout=60),
    ],
    rule="Distinct (abort or disable, second request, state, phases open) moments",
    required=[
        "aborts", "disables", "recoveries", "stopped_actions", "during_Configuring",
        "during_Running", "during_PostRun", "during_Paused", "during_Seeking",
        "during_Armed", "during_Finished", "reset_disables",
    ],
    level="fault_enumeration",
    assumptions=["Delays are in scheduler yields; parts' waits go through their context"],
)
if __name__ == "__main__":
    check.main()
