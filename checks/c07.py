"""C07: phases are barriers. Recording parts with random speeds take part in
random phases; the start/end log is checked for order, overlap, participation,
information flow and arguments, with and without a failing part."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vmon  # noqa

import cothread  # noqa
import mh  # noqa
import scanrig  # noqa
from malcolm.core import BadValueError, NumberMeta, StringMeta  # noqa
from malcolm.modules.scanning.infos import (  # noqa
    ConfigureParamsInfo,
    ParameterTweakInfo,
)
from scanpointgenerator import CompoundGenerator  # noqa
from scanrig import (  # noqa
    Boom,
    OtherInfo,
    Rig,
    ThingInfo,
    gen_scan,
    merged_dims,
    pick_axes,
    scan_reference,
)

PARAM_HOOKS = ("Validate", "Configure", "PostRunArmed", "Seek")
STEP_HOOKS = ("Configure", "PostRunArmed", "Seek")
INFO_IN = {
    "Validate": "ReportStatus",
    "Configure": "ReportStatus",
    "PostConfigure": "Configure",
    "PostRunArmed": "ReportStatus",
    "Seek": "ReportStatus",
}


class Phased(Rig):
    """Rig that knows who is expected in each phase"""

    def setup_parts(self, nparts, density):
        rng = self.rng
        self.names = []
        self.extras = {}  # name -> (owner, default or None)
        for i in range(nparts):
            hooks = [h for h in scanrig.HOOKS if h != "Halt" and rng.random() < density]
            asks = {}
            name = rng.choice(["p%d", "Part-%d", "x_%d"]) % i
            mine = []
            if "Configure" in hooks and rng.random() < 0.5:
                for j in range(rng.randrange(1, 3)):
                    extra = "extra%d%s" % (i, "ab"[j])
                    default = rng.choice([None, rng.randrange(100)])
                    self.extras[extra] = (name, default)
                    mine.append(extra)
            for h in hooks:
                if h in PARAM_HOOKS and rng.random() < 0.6:
                    can = ["part_info", "generator", "axesToMove"] + mine
                    if h in STEP_HOOKS:
                        can += ["completed_steps", "steps_to_do"]
                    if h in ("Validate", "Configure"):
                        can.append("breakpoints")
                    asks[h] = ["context"] + [c for c in can if rng.random() < 0.6]
            self.add_part(name, hooks, asks)
        self.who = {
            h: [p.name for p in self.parts if h in p.hook_names] for h in scanrig.HOOKS
        }
        self.part_setup_fn = self._params

    def _params(self, part, registrar):
        mine = {e: d for e, (o, d) in self.extras.items() if o == part.name}
        if mine:
            registrar.report(
                ConfigureParamsInfo(
                    {e: NumberMeta("int32", "extra " + e) for e in mine},
                    [e for e, d in mine.items() if d is None],
                    {e: d for e, d in mine.items() if d is not None},
                )
            )

    # Which instance of a phase are we in
    inst = None

    def enter(self, part, hook):
        if self.inst is None or self.inst["hook"] != hook or part.name in self.inst["parts"]:
            self.inst = dict(hook=hook, parts=set())
        self.inst["parts"].add(part.name)
        return self.inst

    def expected(self, names):
        return [h for h in names if self.who[h]]


def barrier(m, rig, lo, hi, allow=()):
    """Nothing starts while something of another phase instance is open"""
    opened = {}
    for e in rig.events[:hi]:
        if e["kind"] == "start":
            for (part, hook) in opened.values():
                if e["seq"] >= lo and e["hook"] not in allow:
                    m.check(
                        hook == e["hook"] and part != e["part"],
                        "overlap",
                        lambda: "%s.%s started while %s.%s had not finished"
                        % (e["part"], e["hook"], part, hook),
                    )
            opened[e["token"]] = (e["part"], e["hook"])
        elif e["kind"] == "end":
            opened.pop(e["token"], None)
    return opened


def infos_of(part_info):
    out = {}
    for k, v in part_info.items():
        out[k] = [(type(i).__name__, i.source, i.number) for i in (v or [])]
    return {k: v for k, v in out.items() if v}


def walk(m, rng, idx):
    rig = Phased(m, rng)
    rig.setup_parts(rng.randrange(1, 5), rng.choice([0.4, 0.7, 1.0]))
    returned = {}  # (hook) -> {part: [infos]} of the latest instance
    number = [0]
    tweaks = dict(pending=[])

    def planner(part, hook, kw, context):
        inst = rig.enter(part, hook)
        plan = dict(steps=rng.choice([0, 0, 1, 2, 5]))
        if rng.random() < 0.6 and rig.who[hook]:
            tries = [0]

            def until():
                tries[0] += 1
                if len(inst["parts"]) >= len(rig.who[hook]):
                    return True
                if tries[0] > 150:
                    m.fail(
                        "not-concurrent",
                        "%s of %s: only %s of %s started"
                        % (hook, part.name, sorted(inst["parts"]), rig.who[hook]),
                    )
                    return True
                return False

            plan["until"] = until
            m.count("rendezvous")
        if hook in scanrig.INFO_HOOKS:
            infos = []
            for _ in range(rng.choice([0, 1, 1, 2])):
                number[0] += 1
                infos.append(rng.choice([ThingInfo, OtherInfo])(part.name, number[0]))
            if inst.get("ret") is None:
                inst["ret"] = {}
                returned[hook] = inst["ret"]
            inst["ret"][part.name] = [
                (type(i).__name__, i.source, i.number) for i in infos
            ]
            plan["ret"] = infos if len(infos) != 1 or rng.random() < 0.5 else infos[0]
            if not infos and rng.random() < 0.5:
                plan["ret"] = None
        if hook == "Validate" and tweaks["pending"]:
            mine = [t for t in tweaks["pending"] if t[0] == part.name]
            if mine:
                plan["ret"] = [ParameterTweakInfo(k, v) for _, k, v in mine]
                for t in mine:
                    tweaks["pending"].remove(t)
        return plan

    rig.planner = planner
    rig.start()
    m.check(
        [h for h, _ in rig.phases()] == rig.expected(["Init"]),
        "order",
        lambda: "init ran %s" % [h for h, _ in rig.phases()],
    )

    gen = None
    model = dict(total=0)

    def judge(a, want, lo, params=None, names=None):
        hi = len(rig.events)
        want = rig.expected(want)
        got = rig.phases(lo, hi)
        m.check(
            [h for h, _ in got] == want,
            "order",
            lambda: "%s ran %s, expected %s" % (names or a.name, [h for h, _ in got], want),
        )
        for h, parts in got:
            m.check(
                sorted(parts) == sorted(rig.who[h]),
                "participation",
                lambda: "%s ran for %s, expected %s" % (h, sorted(parts), rig.who[h]),
            )
            m.count("phases")
        left = barrier(m, rig, lo, hi)
        m.check(not left, "answered-early", lambda: "%s still in %s" % (a.name, left))
        return got

    def judge_args(got, params):
        for h, parts in got:
            for name, e in parts.items():
                part = [p for p in rig.parts if p.name == name][0]
                ask = part.asks.get(h)
                args = e["args"]
                if ask is not None:
                    m.check(
                        sorted(args) == sorted(set(ask) - {"context"}),
                        "arguments",
                        lambda: "%s.%s asked %s got %s" % (name, h, ask, sorted(args)),
                    )
                if h in PARAM_HOOKS:
                    for k, v in args.items():
                        if k in params:
                            m.check(
                                mh.norm(v) == mh.norm(params[k]),
                                "argument-value",
                                lambda: "%s.%s %s = %s expected %s"
                                % (name, h, k, mh.norm(v), mh.norm(params[k])),
                            )
                    if ask is None:
                        missing = set(params) - set(args)
                        if h in ("PostRunArmed", "Seek"):
                            missing -= {"breakpoints"}
                        m.check(not missing, "arguments", "%s missing %s" % (h, missing))
                    m.count("argument_sets")

    def judge_infos(lo, hi):
        """part_info handed to each phase is what the source phase returned"""
        latest = {}
        for e in rig.events[lo:hi]:
            if e["kind"] != "start":
                continue
            src = INFO_IN.get(e["hook"])
            if src and "part_info" in e["args"]:
                want = {k: v for k, v in e["infos"].items() if v}
                got = infos_of(e["args"]["part_info"])
                m.check(
                    got == want,
                    "info-flow",
                    lambda: "%s.%s got %s expected %s" % (e["part"], e["hook"], got, want),
                )
                things = {
                    k: [i.number for i in v]
                    for k, v in OtherInfo.filter_parts(e["args"]["part_info"]).items()
                }
                want_things = {
                    k: [i[2] for i in v if i[0] == "OtherInfo"] for k, v in want.items()
                }
                m.check(
                    things == {k: v for k, v in want_things.items() if v},
                    "info-filter",
                    lambda: "%s vs %s" % (things, want_things),
                )
                m.count("infos", sum(len(v) for v in want.values()))

    # Snapshot what the source phase returned when a consumer starts
    def on_event(e):
        if e["kind"] == "start" and e["hook"] in INFO_IN:
            src = INFO_IN[e["hook"]]
            e["infos"] = dict(returned.get(src, {})) if rig.who[src] else {}

    rig.on_event = on_event
    nact = rng.randrange(4, 10)
    for _ in range(nact):
        lo = len(rig.events)
        st = rig.state
        if st in ("Ready", "Finished"):
            if st == "Finished" and rng.random() < 0.3:
                a = rig.do("reset")
                m.require(a.ok, "reset", lambda: str(a.message))
                judge(a, ["Reset"], lo)
                continue
            gen, _ = gen_scan(rng)
            dims, size = merged_dims(gen)
            axes = pick_axes(rng, dims)
            total, inner, ends = scan_reference(dims, axes, [])
            bps = [1] if inner > 1 and rng.random() < 0.3 else []
            total, inner, ends = scan_reference(dims, axes, bps)
            params = dict(generator=gen.to_dict(), axesToMove=axes, breakpoints=bps)
            want = dict(params)
            for e, (owner, default) in rig.extras.items():
                if default is None or rng.random() < 0.5:
                    params[e] = want[e] = rng.randrange(1000)
                else:
                    want[e] = default
            nval = 1
            pend = []
            if rig.who["Validate"] and rng.random() < 0.4:
                owner = rng.choice(rig.who["Validate"])
                if rig.extras and rng.random() < 0.6:
                    e = rng.choice(sorted(rig.extras))
                    v = rng.randrange(1000, 2000)
                    pend.append((owner, e, v))
                    want[e] = v
                    nval = 2
                else:
                    # Several parts want a longer duration: longest wins
                    durs = []
                    for o in set(rng.choice(rig.who["Validate"]) for _ in range(2)):
                        d = round(rng.uniform(0.2, 3), 3)
                        durs.append(d)
                        g = CompoundGenerator.from_dict(gen.to_dict())
                        g.duration = d
                        pend.append((o, "generator", g))
                    want["generator"] = dict(gen.to_dict(), duration=max(durs))
                    nval = 2
                m.count("tweaks")
            only = rng.random() < 0.2
            tweaks["pending"] = list(pend)
            a = rig.do("validate" if only else "configure", **params)
            m.require(a.ok, "configure", lambda: "%s %s" % (a.message, rig.tail()))
            val = ["ReportStatus"] + ["Validate"] * nval
            if only:
                got = judge(a, val, lo)
                m.check(rig.state == st, "validate-state", str(rig.state))
            else:
                seq = val + (["Reset"] if st == "Finished" else [])
                seq += ["PreConfigure", "ReportStatus", "Configure", "PostConfigure"]
                got = judge(a, seq, lo)
                m.check(rig.state == "Armed", "state", str(rig.state))
                model = dict(total=total, ends=ends, params=want)
            # The result says what was settled on
            ret = mh.norm(a.response.value)
            for k, v in want.items():
                m.check(
                    ret.get(k) == mh.norm(v),
                    "returned-params",
                    lambda: "%s: %s vs %s" % (k, ret.get(k), v),
                )
            nv = len([1 for h, _ in got if h in ("Validate", "ReportStatus")])
            judge_args([g for g in got if g[0] not in ("Validate",)], want)
            judge_args([g for g in got if g[0] == "Validate"][nval - 1 :], want)
            judge_infos(lo, len(rig.events))
        elif st == "Armed":
            r = rng.random()
            if r < 0.2:
                a = rig.do("pause", lastGoodStep=rng.randrange(model["total"]))
                m.require(a.ok, "seek", lambda: str(a.message))
                got = judge(a, ["Pause", "ReportStatus", "Seek"], lo)
                judge_args(got, model["params"])
                judge_infos(lo, len(rig.events))
            elif r < 0.3:
                a = rig.do("reset")
                m.require(a.ok, "reset", lambda: str(a.message))
                judge(a, ["Reset"], lo)
            elif r < 0.4:
                a = rig.do("abort")
                m.require(a.ok, "abort", lambda: str(a.message))
                judge(a, ["Abort"], lo)
            else:
                a = rig.do("run")
                m.require(a.ok, "run", lambda: "%s %s" % (a.message, rig.tail()))
                if rig.state == "Armed":
                    seq = ["PreRun", "Run", "ReportStatus", "PostRunArmed"]
                else:
                    seq = ["PreRun", "Run", "PostRunReady"]
                got = judge(a, seq, lo)
                judge_args(got, model["params"])
                judge_infos(lo, len(rig.events))
        elif st == "Aborted":
            a = rig.do("reset")
            m.require(a.ok, "reset", lambda: str(a.message))
            judge(a, ["Reset"], lo)
        else:
            break
        m.distinct(a.name, st, sorted((k, tuple(v)) for k, v in rig.who.items()))
    if rng.random() < 0.3:
        lo = len(rig.events)
        a = rig.do("disable")
        m.require(a.ok, "disable", lambda: str(a.message))
        judge(a, ["Disable"], lo)
    m.sample(dict(who=rig.who, log=rig.tail(40)))


ACTION_PHASES = {
    "configure": ["ReportStatus", "Validate", "PreConfigure", "ReportStatus", "Configure", "PostConfigure"],
    "run": ["PreRun", "Run", "ReportStatus", "PostRunArmed"],
    "seek": ["Pause", "ReportStatus", "Seek"],
    "abort": ["Abort"],
    "reset": ["Reset"],
    "disable": ["Disable"],
}


def failing(m, rng, idx):
    """One part fails in one phase of one action, for every (action, phase)"""
    cases = [(a, i) for a, ph in ACTION_PHASES.items() for i in range(len(ph))]
    action, pos = cases[idx % len(cases)]
    phases = ACTION_PHASES[action]
    hook = phases[pos]
    occurrence = phases[: pos + 1].count(hook)
    rig = Phased(m, rng)
    nparts = rng.randrange(1, 5)
    for i in range(nparts):
        rig.add_part("p%d" % i, [h for h in scanrig.HOOKS if h != "Halt"])
    rig.who = {h: [p.name for p in rig.parts] for h in scanrig.HOOKS}
    culprit = rng.choice(rig.parts).name
    how = rng.choice(["boom", "assert", "badvalue", "value", "return"])
    text = "went wrong %d" % rng.randrange(10**6)
    exc = dict(
        boom=Boom(text),
        assert_=AssertionError(text),
        badvalue=BadValueError(text),
        value=ValueError(text),
    ).get(how, AssertionError(text))
    if how == "return" and hook in ("Validate", "ReportStatus", "Configure"):
        bad_return = object()
    else:
        bad_return = "unexpected " + text
    armed = dict(on=False, seen=0, failed_at=None)
    others = rng.choice(["wait", "mixed", "quick"])
    waiting = []

    def planner(part, h, kw, context):
        rig.enter(part, h)
        plan = dict(steps=rng.choice([0, 1, 2, 4]))
        if not armed["on"] or h != hook:
            return plan
        armed["n"] = armed.get("n", {})
        armed["n"][part.name] = armed["n"].get(part.name, 0) + 1
        if armed["n"][part.name] != occurrence:
            return plan
        if part.name == culprit:
            if how == "return":
                plan["ret"] = bad_return
            else:
                plan["fail_at"] = rng.randrange(plan["steps"] + 1)
                plan["exc"] = exc
            armed["on_culprit"] = True
        elif others == "wait" or (others == "mixed" and rng.random() < 0.5):
            count = [0]

            def until():
                # Waiting for something that never comes
                count[0] += 1
                if count[0] > 1500:
                    m.fail("never-stopped", "%s.%s was left waiting" % (part.name, h))
                    return True
                return False

            plan["until"] = until
            waiting.append(part.name)
        return plan

    rig.planner = planner
    rig.start()
    gen, _ = gen_scan(rng)
    dims, size = merged_dims(gen)
    axes = dims[-1][0]
    total, inner, ends = scan_reference(dims, axes, [])
    if action == "run" and len(ends) == 1:
        phases = ["PreRun", "Run", "PostRunReady"]
        if pos > 2:
            pos = 2
        hook = phases[pos]
        occurrence = 1
    cfg = dict(generator=gen.to_dict(), axesToMove=axes)
    if action in ("run", "seek", "abort") or (action == "reset"):
        a = rig.do("configure", **cfg)
        m.require(a.ok, "configure", lambda: str(a.message))
    before = rig.state
    armed["on"] = True
    lo = len(rig.events)
    if action == "configure":
        a = rig.do("configure", **cfg)
    elif action == "seek":
        a = rig.do("pause", lastGoodStep=0)
    else:
        a = rig.do(action)
    m.require(a.done, "hang", lambda: "%s failing in %s: %s" % (action, hook, rig.tail()))
    m.count("failures")
    m.distinct(action, hook, occurrence, how, nparts, others)
    m.check(not a.ok, "failure-hidden", "%s succeeded with %s failing" % (action, hook))
    if how != "return":
        m.check(
            a.message is not None and text in a.message,
            "failure-message",
            lambda: "%s reported %r, failed with %r" % (action, a.message, text),
        )
    # Only phases up to and including the failing one, everything ended
    mh.yields(30)
    got = [h for h, _ in rig.phases(lo)]
    m.check(
        got == phases[: pos + 1],
        "later-phase",
        lambda: "%s failing in %s ran %s" % (action, hook, got),
    )
    left = barrier(m, rig, lo, a.answered + 1)
    m.check(not left, "answered-early", lambda: str(left))
    fault = not (action == "configure" and pos < 2)
    m.check(
        rig.state == ("Fault" if fault else before),
        "state-after-failure",
        lambda: "%s failing in %s: %s" % (action, hook, rig.state),
    )
    fail_seq = [
        e["seq"]
        for e in rig.events[lo:]
        if e["kind"] == "end" and e["outcome"] == "failed"
    ]
    if how != "return" and fail_seq:
        # Everyone still waiting was stopped
        last = {}
        for e in rig.events[lo:]:
            if e["kind"] == "end" and e["part"] in waiting and e["hook"] == hook:
                last[e["part"]] = e["outcome"]
        for name, outcome in last.items():
            m.check(outcome == "aborted", "not-stopped", "%s %s" % (name, outcome))
            m.count("waits_stopped")
    m.sample(dict(action=action, hook=hook, culprit=culprit, how=how, log=rig.tail()))


check = vmon.Check(
    "C07",
    [
        vmon.Scenario("walk", walk, quick=780, thorough=6000, timeout=60),
        vmon.Scenario("failing", failing, quick=510, thorough=3400, timeout=60),
    ],
    rule="Distinct (action, state, who takes part in which phase) walks and "
    "(action, phase, failure) injections",
    required=[
        "phases", "rendezvous", "infos", "argument_sets", "tweaks", "failures",
        "waits_stopped",
    ],
    assumptions=["Delays are in scheduler yields"],
)
if __name__ == "__main__":
    check.main()
