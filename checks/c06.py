"""C06: state traces follow the allowed transitions, actions end where they
promise or in Fault, illegal actions are refused and harmless."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vmon  # noqa

import mh  # noqa
import scanrig  # noqa
import statemodel  # noqa
from scanrig import Boom, Rig, gen_scan, merged_dims, pick_axes  # noqa

KINDS = ["runnable", "runnable", "runnable", "manager", "stateful"]


def make(m, rng, kind):
    rig = Rig(m, rng, kind)
    names = list(scanrig.HOOKS) if kind == "runnable" else scanrig.STATEFUL_HOOKS
    for i in range(rng.randrange(1, 4)):
        rig.add_part(
            "p%d" % i, [h for h in names if h != "Halt" and rng.random() < 0.8]
        )
    rig.rel = statemodel.relation(kind)
    rig.allowed = statemodel.writeable_in(kind)

    def on_event(e):
        if e["kind"] == "state" and e["old"] is not None:
            m.check(
                e["new"] in rig.rel.get(e["old"], ()),
                "illegal-transition",
                lambda: "%s -> %s: %s" % (e["old"], e["new"], rig.tail()),
            )
            m.count("transitions")
            m.distinct("transition", kind, e["old"], e["new"])

    rig.on_event = on_event
    return rig


def actions(kind):
    if kind == "stateful":
        return ["reset", "disable"]
    if kind == "manager":
        return ["reset", "disable", "save", "load"]
    return [
        "configure", "run", "pause", "seek", "resume", "abort", "reset", "disable",
        "save", "validate",
    ]


def request(rig, rng, action):
    """(method name, args)"""
    if action in ("configure", "validate"):
        gen, _ = gen_scan(rng, maxdims=2, maxsize=3)
        dims, _ = merged_dims(gen)
        return action, dict(generator=gen.to_dict(), axesToMove=pick_axes(rng, dims))
    if action == "seek":
        return "pause", dict(lastGoodStep=rng.randrange(0, 12))
    if action == "save":
        return "save", dict(designName=rng.choice(["a", "b", "c"]))
    return action, {}


def promised(rig, action, before, args):
    if action in ("configure",):
        return {"Armed"}
    if action == "run":
        return {"Finished"} if rig.configured >= rig.total else {"Armed"}
    if action == "pause":
        if before == "Finished" and args.get("lastGoodStep", -1) < 0:
            return {"Finished"}
        return {"Paused"} if before == "Paused" else {"Armed"}
    return {
        "resume": {"Running"},
        "abort": {"Aborted"},
        "reset": {"Ready"},
        "disable": {"Disabled"},
        "save": {"Ready"},
        "design": {"Ready"},
        "validate": {before},
    }[action]


def health_ok(rig, kind, text):
    h = rig.get("health")
    return h and h["alarm"]["severity"] != 0 and text in h["alarm"]["message"] and text in h["value"]


def sequential(m, rng, idx):
    kind = KINDS[idx % len(KINDS)]
    rig = make(m, rng, kind)
    inject = dict(at=None, fired=None)

    def planner(part, hook, kw, context):
        plan = dict(steps=rng.choice([0, 1, 2]))
        if inject["at"] is not None:
            if inject["at"] == 0:
                inject["at"] = None
                inject["fired"] = hook
                plan["fail_at"] = rng.randrange(plan["steps"] + 1)
                plan["exc"] = Boom(inject["text"])
            else:
                inject["at"] -= 1
        return plan

    rig.planner = planner
    rig.start()
    m.require(rig.state == "Ready", "init", str(rig.state))
    run = None  # a run in progress
    for step in range(rng.randrange(6, 16)):
        legal = [
            a
            for a in actions(kind)
            if a == "load" or rig.state in rig.allowed[request(rig, rng, a)[0]]
        ]
        action = rng.choice(legal if rng.random() < 0.65 and legal else actions(kind))
        if action == "load":
            name, args = "design", dict(value=rng.choice(["a", "b", "", "nope"]))
        else:
            name, args = request(rig, rng, action)
        before = rig.state
        before_alarm = mh.norm(rig.get("state"))
        may = before in rig.allowed[name]
        inject.update(at=None, fired=None, text="broke %d" % rng.randrange(10**6))
        if rng.random() < 0.2:
            inject["at"] = rng.randrange(0, 10)
        lo = len(rig.events)
        want = promised(rig, name, before, args)
        if name == "run" and before == "Armed" and rng.random() < 0.5:
            # Pause it half way
            hold = [True]
            old = rig.planner

            def planner2(part, hook, kw, context, old=old, hold=hold):
                plan = old(part, hook, kw, context)
                if hook == "Run" and "fail_at" not in plan:
                    plan["until"] = lambda: not hold[0]
                return plan

            if any("Run" in p.hook_names for p in rig.parts):
                rig.planner = planner2
                run = rig.send("run")
                mh.settle(
                    lambda: run.done
                    or any(h == "Run" for _, h in rig.open.values()),
                    200,
                )
                mh.yields(20)
                rig.planner = old
                if not run.done:
                    p = rig.do("pause")
                    hold[0] = False
                    if inject["fired"]:
                        m.check(
                            rig.state == "Fault", "failed-pause", str(rig.tail())
                        )
                        mh.settle(lambda: run.done, 100)
                    else:
                        m.require(
                            p.ok and rig.state == "Paused",
                            "pause",
                            lambda: "%s %s %s" % (p.message, rig.state, rig.tail()),
                        )
                        m.count("pauses")
                    continue
                hold[0] = False
                m.check(
                    bool(inject["fired"]) and rig.state == "Fault" and not run.ok,
                    "run-ended",
                    lambda: str(rig.tail()),
                )
                continue
        a = rig.do(name, put=(name == "design"), **args)
        m.require(a.done, "hang", lambda: "%s: %s" % (name, rig.tail()))
        if name == "resume" and a.ok and run is not None:
            m.check(a.state_at_answer == "Running", "promise", str(a.state_at_answer))
            rig.wait(run)
            m.require(run.done, "hang", lambda: "run: %s" % rig.tail())
            if inject["fired"]:
                m.check(
                    not run.ok and inject["text"] in run.message and rig.state == "Fault",
                    "failure",
                    lambda: str(rig.tail()),
                )
            else:
                m.check(
                    run.ok and rig.state in ("Armed", "Finished"),
                    "resumed-run",
                    lambda: str(rig.tail()),
                )
            continue
        mh.yields(2)
        if not may:
            m.count("illegal_requests")
            m.distinct("illegal", kind, before, name)
            m.check(
                not a.ok,
                "illegal-accepted",
                lambda: "%s in %s was accepted" % (name, before),
            )
            m.check(
                rig.state == before and not rig.phases(lo) and rig.get("state") == before_alarm,
                "illegal-had-effect",
                lambda: "%s in %s: %s" % (name, before, rig.tail()),
            )
        elif inject["fired"]:
            m.count("failures")
            m.distinct("failure", kind, name, inject["fired"])
            m.check(
                not a.ok and inject["text"] in a.message,
                "failure-not-told",
                lambda: "%s failed in %s, answer %s" % (name, inject["fired"], a.message),
            )
            validating = name == "validate" or (
                name == "configure" and "Configuring" not in rig.states(lo)
            )
            if validating:
                m.check(rig.state == before, "validate-moved", str(rig.state))
            else:
                m.check(
                    rig.state == "Fault",
                    "failure-not-fault",
                    lambda: "%s failed in %s, state %s"
                    % (name, inject["fired"], rig.state),
                )
                m.check(
                    health_ok(rig, kind, inject["text"]),
                    "health-message",
                    lambda: "%s" % rig.get("health"),
                )
        elif name == "design" and args["value"] not in ("a", "b", ""):
            m.check(not a.ok and rig.state == before, "bad-design", str(rig.state))
        elif name == "design" and not a.ok:
            # A design that was never saved isn't a choice
            m.check(rig.state == before, "bad-design", str(rig.state))
        else:
            m.count("legal_requests")
            m.distinct("legal", kind, before, name)
            m.check(
                a.ok,
                "legal-refused",
                lambda: "%s in %s: %s %s" % (name, before, a.message, rig.tail()),
            )
            m.check(
                a.state_at_answer in want,
                "promise",
                lambda: "%s from %s ended in %s not %s"
                % (name, before, a.state_at_answer, want),
            )
            if rig.state != "Fault" and rig.state != "Disabled":
                h = rig.get("health")
                m.check(
                    h["value"] == "OK" and h["alarm"]["severity"] == 0,
                    "healthy",
                    lambda: "%s in %s" % (h, rig.state),
                )
        if run is not None and rig.state not in ("Paused", "Running", "Seeking"):
            # Whatever took us out of Paused told run about it
            mh.settle(lambda: run.done, 100)
            m.check(run.done, "run-left", lambda: "in %s %s" % (rig.state, rig.tail()))
            run = None
    # Every resting state can be disabled and reset
    inject.update(at=None)
    if rig.state not in ("Disabled",):
        a = rig.do("disable")
        m.check(
            a.ok and rig.state == "Disabled",
            "disable",
            lambda: "%s %s" % (a.message, rig.tail()),
        )
    a = rig.do("reset")
    m.check(
        a.ok and rig.state == "Ready", "reset", lambda: "%s %s" % (a.message, rig.tail())
    )
    m.sample(dict(kind=kind, states=rig.states()))


def concurrent(m, rng, idx):
    """Bursts of requests at the same time: each is either refused or carried
    out; without a failing part the block never faults and always comes to rest"""
    kind = KINDS[idx % len(KINDS)]
    rig = make(m, rng, kind)
    rig.planner = lambda *a: dict(steps=rng.choice([0, 1, 2, 3, 5]))
    rig.start()
    for burst in range(rng.randrange(2, 7)):
        acts = []
        menu = [a for a in actions(kind) if a not in ("load", "disable")]
        for _ in range(rng.randrange(1, 4)):
            legal = [a for a in menu if rig.state in rig.allowed[request(rig, rng, a)[0]]]
            action = rng.choice(legal if rng.random() < 0.6 and legal else menu)
            name, args = request(rig, rng, action)
            acts.append(rig.send(name, **args))
            mh.yields(rng.choice([0, 0, 1, 2, 5, 9]))
        # A run may be left waiting for a resume
        mh.settle(lambda: all(a.done or a.name == "run" for a in acts), 3000)
        mh.settle(lambda: all(a.done for a in rig.acts) or rig.state == "Paused", 3000)
        mh.yields(20)
        m.require(
            all(a.done or (a.name == "run" and rig.state == "Paused") for a in rig.acts),
            "unanswered",
            lambda: "%s in %s %s"
            % ([a.name for a in rig.acts if not a.done], rig.state, rig.tail(40)),
        )
        m.require(
            rig.state in statemodel.REST[kind],
            "not-at-rest",
            lambda: "%s after %s: %s" % (rig.state, [a.name for a in acts], rig.tail(40)),
        )
        m.require(
            rig.state != "Fault",
            "fault-without-failure",
            lambda: "%s" % rig.tail(40),
        )
        m.count("bursts")
        m.distinct("burst", kind, tuple(a.name for a in acts), rig.state)
    m.sample(dict(kind=kind, log=rig.tail(30)))


check = vmon.Check(
    "C06",
    [
        vmon.Scenario("sequential", sequential, quick=780, thorough=6000, timeout=60),
        vmon.Scenario("concurrent", concurrent, quick=600, thorough=5000, timeout=60),
    ],
    rule="Distinct transitions, (state, action) pairs legal and illegal, "
    "(action, failing phase) pairs and request bursts observed",
    required=[
        "transitions", "illegal_requests", "legal_requests", "failures", "pauses",
        "bursts",
    ],
    level="fault_enumeration",
    assumptions=["Delays are in scheduler yields"],
)
if __name__ == "__main__":
    check.main()
