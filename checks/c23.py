"""C23: health always shows the worst current problem.

Parts report, replace and clear alarms, also from inside phases, while actions
change the block's state. Every snapshot of the block that a subscriber is sent
is compared with a shadow copy of the alarms."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vmon  # noqa

import cothread  # noqa
import mh  # noqa
import scanrig  # noqa
import statemodel  # noqa
from malcolm.core import Alarm, AlarmSeverity, AlarmStatus, Get, Subscribe, TimeStamp  # noqa
from malcolm.modules.builtin.controllers import BasicController  # noqa
from malcolm.modules.builtin.infos import HealthInfo  # noqa
from scanrig import Boom, Rig, gen_scan, merged_dims, pick_axes  # noqa


def gen(rng, who, k):
    text = rng.choice(["%s broke %d" % (who, k), "shared text", "", "x" * 200, "\u2603"])
    sev = rng.choice(list(AlarmSeverity))
    if rng.random() < 0.3:
        sev = AlarmSeverity.NO_ALARM
    return Alarm(sev, rng.choice(list(AlarmStatus)), text)


def health(m, rng, idx):
    kind = ["basic", "stateful", "runnable", "manager"][idx % 4]
    rig = Rig(m, rng, kind if kind != "basic" else "stateful")
    nparts = rng.randrange(1, 5)
    for i in range(nparts):
        hooks = []
        if kind != "basic":
            hooks = [
                h
                for h in (scanrig.HOOKS if kind == "runnable" else scanrig.STATEFUL_HOOKS)
                if h not in ("Halt", "Init")
            ]
        rig.add_part("p%d" % i, hooks)
    shadow = {}
    busy = [0]
    k = [0]
    events = []

    reporting = set()

    def report(part):
        # Which of two overlapping reports of one part gets the lock first
        # is not ours to say, so a part only makes one at a time
        if part.name in reporting:
            return
        reporting.add(part.name)
        try:
            report_one(part)
        finally:
            reporting.discard(part.name)

    def report_one(part):
        k[0] += 1
        alarm = gen(rng, part.name, k[0])
        ts = rng.choice([None, TimeStamp(k[0], 5)])
        busy[0] += 1
        try:
            if alarm.severity == AlarmSeverity.NO_ALARM:
                shadow.pop(part.name, None)
            else:
                shadow[part.name] = (int(alarm.severity.value), alarm.message)
            events.append((part.name, int(alarm.severity.value)))
            part.registrar.report(HealthInfo(alarm, ts))
        finally:
            busy[0] -= 1
        m.count("reports")
        if not busy[0]:
            judge(mh.norm(get()), "report")

    def get():
        # Straight from the model, as nothing else can run in between
        return rig.controller.block_view().to_dict()

    def worst(state):
        alarms = list(shadow.values())
        if state is not None:
            if state["value"] == "Disabled":
                alarms.append((3, "Disabled"))
            elif state["value"] == "Fault":
                alarms.append((2, state["alarm"]["message"]))
        return alarms

    def judge(v, where):
        state = v.get("state")
        h = v["health"]
        alarms = worst(state)
        sev = max([0] + [a[0] for a in alarms])
        texts = {a[1] for a in alarms if a[0] == sev} if sev else {"OK"}
        m.check(
            h["alarm"]["severity"] == sev
            and h["value"] in texts
            and (not sev or h["alarm"]["message"] == h["value"]),
            "health",
            lambda: "%s: shows %r severity %s, expected severity %s with one of %s; state %s, alarms %s, events %s"
            % (where, h["value"], h["alarm"]["severity"], sev, texts, state and state["value"], shadow, events[-8:]),
        )
        m.count("snapshots")
        m.distinct(
            kind, state and state["value"], tuple(sorted(a[0] for a in alarms)), h["alarm"]["severity"]
        )
        if len(alarms) > 1:
            m.count("several_alarms")
        if state and state["value"] in ("Fault", "Disabled"):
            m.count("in_" + state["value"])

    def on_block(resp):
        if busy[0]:
            return
        judge(mh.norm(resp.value), "update")

    started = [False]

    def planner(part, hook, kw, context):
        plan = dict(steps=rng.choice([0, 1, 3]))
        if started[0]:
            plan["each"] = lambda i: report(part) if rng.random() < 0.4 else None
            if rng.random() < 0.05:
                plan.update(fail_at=0, exc=Boom(rng.choice(["part blew up", "other text"])))
        return plan

    rig.planner = planner
    if kind == "basic":
        rig.kind = "stateful"
        from malcolm.core import Process

        rig.process = mh.make_process()
        m.defer(mh.stop_process, rig.process)
        rig.controller = BasicController(rig.MRI)
        for p in rig.parts:
            rig.controller.add_part(p)
        rig.process.add_controller(rig.controller)
    else:
        rig.start()
    started[0] = True
    r = Subscribe(7, [rig.MRI], delta=False)
    r.set_callback(on_block)
    rig.controller.handle_request(r)
    mh.yields(3)
    acts = {
        "basic": [],
        "stateful": ["reset", "disable"],
        "manager": ["reset", "disable"],
        "runnable": ["configure", "configure", "run", "run", "pause", "abort", "reset", "disable"],
    }[kind]
    allowed = statemodel.writeable_in(kind) if acts else {}
    for _ in range(rng.randrange(8, 30)):
        legal = [a for a in acts if rig.state in allowed[a]]
        if legal and rng.random() < 0.4:
            act = rng.choice(legal)
            args = {}
            if act == "configure":
                g, _ = gen_scan(rng, maxdims=1, maxsize=3)
                dims, _ = merged_dims(g)
                args = dict(generator=g.to_dict(), axesToMove=pick_axes(rng, dims))
            a = rig.send(act, **args)
            if rng.random() < 0.7:
                rig.wait(a, steps=300)
            m.count("actions")
        else:
            report(rng.choice(rig.parts))
        mh.yields(rng.choice([0, 1, 3]))
        if not busy[0]:
            judge(mh.norm(get()), "after")
    m.sample(dict(kind=kind, events=events[:20]))


check = vmon.Check(
    "C23",
    [vmon.Scenario("health", health, quick=720, thorough=6000, timeout=60)],
    rule="Distinct (kind of block, state, severities of current alarms, severity shown)",
    required=["reports", "snapshots", "several_alarms", "in_Fault", "in_Disabled", "actions"],
    level="exploration",
    assumptions=["When several alarms are equally severe any of them may be shown"],
)
if __name__ == "__main__":
    check.main()
