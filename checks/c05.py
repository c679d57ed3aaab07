"""C05: nothing read-only can be used from outside.

A block with fields of every writeability goes through random actions with
parts of different speeds. After every visible change of anything, puts and
posts are tried against fields; their outcome is compared with the writeable
flag served at the time, and the flags with the states declared."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vmon  # noqa

import cothread  # noqa
import manrig  # noqa
import mh  # noqa
import scanrig  # noqa
import statemodel  # noqa
from annotypes import Anno, add_call_types  # noqa
from malcolm.core import (  # noqa
    Context, NotWriteableError, NumberMeta, Post, Put, Return, StringMeta, Subscribe,
)
from malcolm.modules import builtin, scanning  # noqa
from scanrig import Boom, Rig, gen_scan, merged_dims, pick_axes  # noqa

with Anno("A number"):
    ANum = int
with Anno("The context"):
    AContext = Context


class Fields:
    """Recording fields added to the first part"""

    def __init__(self, m, rng, rig):
        self.m, self.rng, self.rig = m, rng, rig
        self.calls = {}  # field -> number of times the code behind it ran
        self.declared = {}
        self.models = {}

    def ran(self, name):
        self.calls[name] = self.calls.get(name, 0) + 1
        self.rig.log("ran", name=name)
        if self.rng.random() < 0.3:
            mh.yields(self.rng.randrange(1, 4))
        if self.rng.random() < 0.1:
            raise Boom("deliberate")

    def setup(self, part, registrar):
        if part is self.rig.parts[0]:
            self.add(registrar, False)

    def add(self, registrar, stated):
        def attr(name, writeable, context):
            model = NumberMeta("int32", name).create_attribute_model(1)

            if context:
                def setter(ctx, value):
                    self.ran(name)
                    model.set_value(value)
            else:
                def setter(value):
                    self.ran(name)
                    model.set_value(value)

            registrar.add_attribute_model(
                name, model, setter if writeable else None, needs_context=context
            )
            self.models[name] = (model, "attr", writeable)

        fields = self

        def method(name, context):
            if context:

                @add_call_types
                def func(context: AContext, num: ANum = 3) -> None:
                    fields.ran(name)

            else:

                @add_call_types
                def func(num: ANum = 3) -> None:
                    fields.ran(name)

            self.models[name] = (
                registrar.add_method_model(func, name, needs_context=context),
                "method",
                True,
            )

        if stated:
            attr("stated", True, False)
            attr("statedContext", True, True)
            attr("statedNot", False, False)
            method("statedDoIt", False)
        else:
            attr("plain", True, False)
            attr("needsContext", True, True)
            attr("readOnly", False, False)
            method("doIt", False)
            method("contextDoIt", True)


def walk(m, rng, idx):
    kind = ["runnable", "stateful", "manager", "runnable"][idx % 4]
    rig = Rig(m, rng, kind)
    names = [
        h
        for h in (scanrig.HOOKS if kind == "runnable" else scanrig.STATEFUL_HOOKS)
        if h != "Halt"
    ]
    for i in range(rng.randrange(1, 3)):
        rig.add_part("p%d" % i, names)
    fields = Fields(m, rng, rig)
    rig.part_setup_fn = fields.setup
    failing, started = rng.random() < 0.4, [False]

    def planner(part, hook, kw, context):
        plan = dict(steps=rng.choice([0, 2, 5]))
        if failing and started[0] and rng.random() < 0.06:
            plan.update(fail_at=0, exc=Boom("broke"))
        return plan

    rig.planner = planner
    every = statemodel.states(kind)
    declared = dict(statemodel.writeable_in(kind))
    controller = rig.make_controller()
    # Some of the fields declare their own states
    up = set(every) - {"Disabling", "Disabled"}
    flags = {}  # field -> served flag
    history = []  # (seq, flags)
    latest = {}

    def on_block(resp):
        v = mh.norm(resp.value)
        latest.clear()
        latest.update(v)
        if "state" not in v:
            return
        state = v["state"]["value"]
        now = {
            f: d["meta"]["writeable"]
            for f, d in v.items()
            if isinstance(d, dict) and f != "meta" and "meta" in d
        }
        seq = rig.log("flags", flags=now, state=state)
        history.append((seq, now))
        if now != flags:
            m.count("flag_changes")
        flags.clear()
        flags.update(now)
        m.distinct(kind, state)
        m.count("in_" + state)
        for f, w in now.items():
            if f not in declared:
                m.fail("unknown-field", "%s in %s" % (f, kind))
                continue
            m.check(
                w == (state in declared[f]),
                "flag",
                lambda: "%s writeable=%s in %s, declared %s"
                % (f, w, state, sorted(declared[f])),
            )

    orig_add = controller.add_part

    def add_part(part):
        orig_add(part)
        if part is rig.parts[0]:
            # Those that declare their own states belong to the controller
            fields.add(controller.field_registry, True)
            for f, (model, _, writeable) in fields.models.items():
                if not writeable:
                    declared[f] = set()
                elif f.startswith("stated"):
                    st = {s for s in every if rng.random() < 0.4}
                    controller.set_writeable_in(model, *sorted(st))
                    declared[f] = st
                else:
                    declared[f] = set(up)

    controller.add_part = add_part
    rig.start(controller, wait=False)
    r = Subscribe(5, [rig.MRI], delta=False)
    r.set_callback(on_block)
    rig.controller.handle_request(r)
    pending = []
    done = [False]
    n_id = [5000]

    def attempt():
        """Try something, and judge it when it is answered"""
        n_id[0] += 1
        n = n_id[0]
        if not flags:
            return
        f = rng.choice(sorted(flags))
        if f in fields.models and rng.random() < 0.5 or rng.random() < 0.5:
            f = rng.choice(sorted(fields.models))
        is_method = "takes" in latest[f]["meta"]
        own = f in fields.models
        if not own and flags.get(f):
            # Would really do something
            return
        right = rng.random() < 0.85
        if is_method == right:
            args = {} if rng.random() < 0.5 else dict(num=n)
            if not own:
                args = {}
            r = Post(n, [rig.MRI, f], args)
        else:
            tail = rng.choice([[], ["value"], ["value"], ["meta", "writeable"]])
            value = n if tail != ["meta", "writeable"] else True
            r = Put(n, [rig.MRI, f] + tail, value)
            if tail and tail[0] == "meta":
                right = False
        a = dict(
            f=f, n=n, right=right, own=own, sent=len(rig.events) - 1, resp=None,
            ran=fields.calls.get(f, 0), kind=type(r).__name__, path=r.path,
            value=mh.norm(latest[f].get("value")), method=is_method,
        )

        def cb(resp):
            a["resp"] = resp
            a["answered"] = len(rig.events)
            judge(a)

        r.set_callback(cb)
        rig.log("try", f=f, n=n, what=type(r).__name__)
        pending.append(a)
        rig.controller.handle_request(r)

    def flags_between(f, lo, hi):
        """Values the flag had in the window of the log, inclusive"""
        before = [h for h in history if h[0] <= lo][-1:]
        inside = [h for h in history if lo < h[0] < hi]
        return {h[1].get(f) for h in before + inside}

    def judge(a):
        f = a["f"]
        seen = flags_between(f, a["sent"], a["answered"])
        ok = isinstance(a["resp"], Return)
        m.count("attempts")
        if seen == {False}:
            m.count("refusals")
            if f in fields.models:
                m.count("own_refusals")
            m.check(
                not ok,
                "accepted-readonly",
                lambda: "%s %s accepted in %s" % (a["kind"], a["path"], rig.state),
            )
            m.check(
                not [
                    e
                    for e in rig.events[a["sent"] : a["answered"]]
                    if e["kind"] == "ran" and e["name"] == f
                ]
                or any(
                    p is not a
                    and p["f"] == f
                    and (p["resp"] is None or p["answered"] > a["sent"])
                    for p in pending
                ),
                "ran-readonly",
                lambda: "code behind %s ran in %s" % (f, rig.state),
            )
            if f.startswith(("readOnly", "design", "exports", "layout")):
                m.check(
                    mh.norm(latest[f].get("value")) == a["value"]
                    or f != "readOnly",
                    "changed-readonly",
                    lambda: "%s changed from %s" % (f, a["value"]),
                )
        elif seen == {True} and a["right"] and a["own"]:
            m.count("accepted")
            m.check(
                ok or not isinstance(a["resp"].message, NotWriteableError)
                and "not writeable" not in str(a["resp"].message),
                "refused-writeable",
                lambda: "%s %s refused in %s: %s"
                % (a["kind"], a["path"], rig.state, a["resp"].message),
            )
            m.check(
                fields.calls.get(f, 0) > a["ran"],
                "accepted-not-run",
                lambda: "%s %s in %s did not run the code"
                % (a["kind"], a["path"], rig.state),
            )
            m.distinct("accepted", kind, f, rig.state)
        if seen == {False}:
            m.distinct("refused", kind, f, rig.state, a["kind"])

    trigger = [0]

    def on_event(e):
        # Right after a state change becomes visible
        if e["kind"] == "state" and not done[0]:
            trigger[0] += 1
            for _ in range(3):
                cothread.Spawn(attempt)

    rig.on_event = on_event

    def hammer():
        while not done[0]:
            mh.yields(rng.randrange(1, 4))
            attempt()

    cothread.Spawn(hammer)
    mh.settle(lambda: rig.state == "Ready", 400)
    # (one of the attempts may have come just as it became allowed)
    started[0] = True
    acts = {
        "stateful": ["reset", "disable"],
        "manager": ["reset", "disable", "save", "design"],
        "runnable": [
            "configure", "configure", "run", "run", "pause", "resume", "abort", "reset",
            "disable", "save", "validate",
        ],
    }[kind]
    saved = set()
    last = None
    for _ in range(rng.randrange(5, 14)):
        legal = [a for a in acts if rig.state in declared[a]]
        if not legal:
            mh.yields(4)
            continue
        act = rng.choice(legal)
        if act in ("configure", "validate"):
            gen, _ = gen_scan(rng, maxdims=2, maxsize=3)
            dims, _ = merged_dims(gen)
            args = dict(generator=gen.to_dict(), axesToMove=pick_axes(rng, dims))
        elif act == "save":
            args = dict(designName="d%d" % rng.randrange(3))
            saved.add(args["designName"])
        elif act == "design":
            args = dict(value=rng.choice(sorted(saved) or [""]))
        else:
            args = {}
        a = rig.send(act, put=act == "design", **args)
        last = a
        if rng.random() < 0.7:
            rig.wait(a, steps=400)
        else:
            mh.yields(rng.randrange(1, 10))
    mh.settle(lambda: all(a.done for a in rig.acts), 1000)
    done[0] = True
    mh.settle(lambda: all(p["resp"] is not None for p in pending), 600)
    m.check(all(p["resp"] is not None for p in pending), "unanswered", "")
    m.sample(dict(kind=kind, declared={k: sorted(v) for k, v in declared.items()}, log=rig.tail(15)))


def never_writeable(m, rng, idx):
    """Fields on a plain block whose owner never gave a setter, tried by
    requests and through views, with all kinds of paths"""
    from malcolm.core import Part, Process
    from malcolm.modules.builtin.controllers import BasicController

    metas = mh.make_metas()

    class P(Part):
        def setup(self, registrar):
            super().setup(registrar)
            self.ran = {}
            self.models = {}
            for name, (meta, gen) in metas.items():
                w = rng.random() < 0.5
                model = meta.create_attribute_model(gen(rng) if rng.random() < 0.7 else None)
                if w:
                    def setter(value, name=name, model=model):
                        self.ran[name] = self.ran.get(name, 0) + 1
                        model.set_value(value)
                else:
                    setter = None
                registrar.add_attribute_model(name, model, setter)
                self.models[name] = (model, w, gen)

    proc = mh.make_process()
    m.defer(mh.stop_process, proc)
    c = BasicController("B")
    p = P("p")
    c.add_part(p)
    proc.add_controller(c)
    block = proc.block_view("B")
    for k in range(40):
        name = rng.choice(sorted(p.models))
        model, w, gen = p.models[name]
        value = gen(rng)
        before = mh.norm(model)
        ran = p.ran.get(name, 0)
        how = rng.choice(["put", "view", "put_value", "async", "post", "meta"])
        ok, exc = True, None
        try:
            if how == "put_value":
                getattr(block, name).put_value(value)
            elif how == "view":
                block.put_attribute_values({name: value})
            elif how == "async":
                f = getattr(block, name).put_value_async(value)
                f.result(5)
            elif how == "meta":
                f = block._context.put_async(["B", name, "meta", "writeable"], True)
                f.result(5)
            else:
                box = []
                r = (
                    Put(k, ["B", name, "value"], value)
                    if how == "put"
                    else Post(k, ["B", name], dict(value=value))
                )
                r.set_callback(box.append)
                c.handle_request(r)
                mh.settle(lambda: box, 50)
                if not isinstance(box[0], Return):
                    raise box[0].message
        except Exception as e:
            ok, exc = False, e
        m.count("view_attempts")
        served = mh.norm(model)["meta"]["writeable"]
        m.check(served == w, "flag", lambda: "%s writeable=%s, setter=%s" % (name, served, w))
        if not w or how == "post":
            m.check(not ok, "accepted-readonly", lambda: "%s by %s" % (name, how))
            m.check(p.ran.get(name, 0) == ran, "ran-readonly", lambda: "%s by %s" % (name, how))
            m.check(mh.norm(model) == before, "changed-readonly", lambda: "%s by %s" % (name, how))
            m.distinct("never", name, how)
            m.count("never_refusals")
        elif how != "meta":
            m.check(
                ok and p.ran.get(name, 0) == ran + 1,
                "refused-writeable",
                lambda: "%s by %s: %r" % (name, how, exc),
            )

def rebuilt(m, rng, idx):
    """Fields that are rebuilt because what a child offers changed, in any
    state of the block"""
    from malcolm.core import Process
    from malcolm.modules.builtin.controllers import BasicController, ManagerController
    from malcolm.modules.builtin.parts import ChildPart
    from manrig import Client, FieldPart, ok

    metas = mh.make_metas()
    names = rng.sample(sorted(metas), 4)
    proc = Process("proc")
    low = BasicController("LOW")
    lp = FieldPart("lp").prepare(rng, {n: metas[n] for n in names})
    low.add_part(lp)
    mid = ManagerController("MID", m.tmpdir())
    mid.add_part(ChildPart("low", "LOW", initial_visibility=True, stateful=False))
    top = ManagerController("TOP", m.tmpdir())
    top.add_part(ChildPart("mid", "MID", initial_visibility=True, stateful=False))
    ran = []

    class Own(manrig.Part):
        def setup(self, registrar):
            super().setup(registrar)
            model = NumberMeta("int32", "own").create_attribute_model(1)
            registrar.add_attribute_model("own", model, lambda v: ran.append(v))

    top.add_part(Own("own"))
    for c in (low, mid, top):
        proc.add_controller(c)
    manrig.start(proc)
    m.defer(mh.stop_process, proc)
    cl = Client(proc)
    declared = statemodel.writeable_in("manager")
    for d in ("own",):
        declared[d] = {
            s for s in statemodel.states("manager") if s not in ("Disabled", "Disabling")
        }
    seen = []

    def on_block(resp):
        v = mh.norm(resp.value)
        st = v["state"]["value"]
        for f, states in declared.items():
            if f not in v:
                continue
            w = v[f]["meta"]["writeable"]
            seen.append(st)
            m.check(
                w == (st in states),
                "flag",
                lambda: "%s writeable=%s in %s after rebuild" % (f, w, st),
            )

    def export(block, part, fields):
        return cl.put(
            [block, "exports", "value"],
            dict(source=["%s.%s" % (part, f) for f in fields], export=fields),
        )

    m.require(ok(export("MID", "low", names)), "setup", "export mid")
    m.require(ok(export("TOP", "mid", names[:2])), "setup", "export top")
    cl.subscribe(["TOP"], on_block)
    down = False
    for k in range(10):
        act = rng.choice(["disable", "reset", "shrink", "grow", "grow", "shrink"])
        if act == "disable" and not down:
            cl.post(["TOP", "disable"])
            down = True
        elif act == "reset" and down:
            cl.post(["TOP", "reset"])
            down = False
        elif act in ("shrink", "grow"):
            some = names if act == "grow" else rng.sample(names, rng.randrange(0, 4))
            export("MID", "low", some)
        mh.yields(20)
        block = cl.get("TOP")
        st = block["state"]["value"]
        m.check(st == ("Disabled" if down else "Ready"), "state", st)
        for f in ["own"] + [n for n in names if n in block]:
            w = block[f]["meta"]["writeable"]
            if down:
                m.count("rebuilt_down")
                m.check(
                    f != "own" or not w, "flag", lambda: "%s writeable in %s" % (f, st)
                )
            if f == "own":
                n = len(ran)
                r = cl.put(["TOP", "own", "value"], k)
                m.check(
                    ok(r) == (not down) and len(ran) == n + (not down),
                    "accepted-readonly" if down else "refused-writeable",
                    lambda: "%s in %s" % (r, st),
                )
    m.count("rebuilds")
    m.distinct("rebuilt", tuple(sorted(set(seen))))


check = vmon.Check(
    "C05",
    [
        vmon.Scenario("walk", walk, quick=360, thorough=4000, timeout=60),
        vmon.Scenario("rebuilt", rebuilt, quick=120, thorough=800, timeout=60),
        vmon.Scenario("never_writeable", never_writeable, quick=120, thorough=800, timeout=60),
    ],
    rule="Distinct (kind of block, field, state, outcome) attempts judged",
    required=[
        "attempts", "refusals", "own_refusals", "accepted", "never_refusals", "rebuilt_down",
        "in_Disabled", "in_Disabling", "in_Resetting", "in_Ready", "in_Configuring",
        "in_Armed", "in_Running", "in_Aborting", "in_Aborted", "in_Saving", "in_Finished",
    ],
    level="exploration",
    assumptions=["Attempts whose window spans a flag change may go either way"],
)
if __name__ == "__main__":
    check.main()
