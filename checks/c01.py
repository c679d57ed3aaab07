"""C01: every request gets exactly one final response; failures stay contained"""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vmon  # noqa: E402

import cothread  # noqa: E402
import mh  # noqa: E402
from annotypes import Anno, WithCallTypes, add_call_types  # noqa: E402
from malcolm.core import (  # noqa: E402
    Controller,
    Delta,
    Error,
    Get,
    NumberMeta,
    Part,
    Post,
    Put,
    Return,
    Subscribe,
    Unsubscribe,
    Update,
)
from malcolm.modules.builtin.controllers import (  # noqa: E402
    BasicController,
    ManagerController,
    StatefulController,
)

with Anno("x"):
    AX = int
with Anno("name"):
    AName = str
with Anno("scale"):
    AScale = float
with Anno("result"):
    AResult = str


class Boom(Exception):
    pass


class ZooPart(Part):
    """Attributes of every type with setters of every temperament, plus
    methods. What really ran is recorded here, as ground truth"""

    def prepare(self, rng):
        self.rng = rng
        self.metas = mh.make_metas()
        self.models = {}
        self.calls = []  # (field, value/params, outcome)
        self.behaviour = {}
        self.gate = cothread.Event(auto_reset=False)
        return self

    def setup(self, registrar):
        super().setup(registrar)
        temper = ["plain", "plain", "slow", "fail", "slowfail", "returns", "ro", "held"]
        for i, (name, (meta, gen)) in enumerate(self.metas.items()):
            b = temper[(i + self.rng.randrange(3)) % len(temper)]
            self.behaviour[name] = b
            attr = meta.create_attribute_model()
            self.models[name] = attr
            registrar.add_attribute_model(
                name, attr, None if b == "ro" else self.make_setter(name, b)
            )
        for f in (
            self.echo,
            self.slowEcho,
            self.failing,
            self.noArgs,
            self.badReturn,
            self.heldCall,
        ):
            self.models[f.__name__] = registrar.add_method_model(f)
            self.behaviour[f.__name__] = "method"

    def make_setter(self, name, b):
        attr = self.models[name]

        def setter(value):
            rec = [name, mh.norm(value), "started"]
            self.calls.append(rec)
            if b in ("slow", "slowfail"):
                mh.yields(self.rng.randrange(1, 8))
            if b == "held":
                self.gate.Wait()
            if b in ("fail", "slowfail"):
                rec[2] = "boom%d" % len(self.calls)
                raise Boom(rec[2])
            attr.set_value(value)
            rec[2] = "done"
            if b == "returns":
                # Might be something that looks like nothing
                ret = self.rng.choice(["res%d" % len(self.calls), 0, "", False, 7])
                rec.append(ret)
                return ret

        return setter

    @add_call_types
    def echo(self, x: AX, name: AName = "dflt") -> AResult:
        self.calls.append(["echo", dict(x=int(x), name=name), "done"])
        return "%s/%s" % (x, name)

    @add_call_types
    def slowEcho(self, x: AX, scale: AScale = 2.0) -> AResult:
        rec = ["slowEcho", dict(x=int(x), scale=float(scale)), "started"]
        self.calls.append(rec)
        mh.yields(self.rng.randrange(1, 8))
        rec[2] = "done"
        return "%s*%s" % (x, scale)

    @add_call_types
    def failing(self, x: AX) -> AResult:
        rec = ["failing", dict(x=int(x)), "boom%d" % len(self.calls)]
        self.calls.append(rec)
        mh.yields(self.rng.randrange(0, 4))
        raise Boom(rec[2])

    def noArgs(self):
        self.calls.append(["noArgs", {}, "done"])

    @add_call_types
    def badReturn(self, x: AX) -> AX:
        # Lies about what it returns
        self.calls.append(["badReturn", dict(x=int(x)), "lied"])
        return "not a number"

    @add_call_types
    def heldCall(self, x: AX) -> AResult:
        rec = ["heldCall", dict(x=int(x)), "started"]
        self.calls.append(rec)
        self.gate.Wait()
        rec[2] = "done"
        return "held %s" % x


KINDS = {
    "plain": Controller,
    "basic": BasicController,
    "stateful": StatefulController,
    "manager": ManagerController,
}


class Rig:
    def __init__(self, m, rng, kind):
        self.m, self.rng = m, rng
        cls = KINDS[kind]
        if kind == "manager":
            self.c = cls("MRI", m.tmpdir())
        else:
            self.c = cls("MRI")
        self.part = ZooPart("zoo").prepare(rng)
        self.c.add_part(self.part)
        self.p = mh.make_process()
        m.defer(mh.stop_process, self.p, 1)
        m.defer(self.part.gate.Signal)
        self.p.add_controller(self.c)
        mh.yields(5)
        self.ledger = {}  # id -> dict
        self.next_id = rng.choice([0, 1, 100, 2**31])

    def send(self, req_cls, path, what, **kw):
        rid = self.next_id
        self.next_id += 1
        entry = dict(what=what, path=path, responses=[], kw=kw)
        self.ledger[rid] = entry
        req = req_cls(id=rid, path=path, **kw) if path is not None else req_cls(id=rid)
        m = self.m

        def cb(response):
            m.count("responses")
            snap = None
            if what == "get":
                # Served state at this very moment, from the models themselves
                snap = self.expected_get(path)
            elif what in ("put", "put_get") and path[1] in self.part.models:
                a = self.part.models[path[1]]
                snap = mh.norm(a.value) if hasattr(a, "value") else None
            entry["responses"].append((response, snap))

        entry["cb"] = cb
        req.set_callback(cb)
        entry["ncalls"] = len(self.part.calls)
        self.c.handle_request(req)
        self.m.count("requests")
        self.m.distinct(what, tuple(path or ())[1:3], sorted(kw))
        return rid

    def unsubscribe(self, sub_id, known=True):
        """Send an unsubscribe for a subscription (or for an unknown id)"""
        if known:
            entry = self.ledger[sub_id]
            cb, rid = entry["cb"], sub_id
            entry["unsubscribed"] = len(entry["responses"])
        else:
            entry = dict(what="unsub_unknown", path=None, responses=[], kw={})

            def cb(response):
                self.m.count("responses")
                entry["responses"].append((response, None))

            rid = self.next_id
            self.next_id += 1
            self.ledger[rid] = entry
        req = Unsubscribe(rid)
        req.set_callback(cb)
        self.c.handle_request(req)
        self.m.count("requests")

    def expected_get(self, path):
        whole = mh.norm(self.c.block_view().to_dict())
        return mh.walk(whole, path[1:])


ALL_GETS = [
    [],
    ["meta"],
    ["meta", "fields"],
    ["F"],
    ["F", "value"],
    ["F", "meta"],
    ["F", "alarm"],
    ["F", "alarm", "severity"],
    ["F", "timeStamp", "nanoseconds"],
    ["F", "meta", "description"],
    ["F", "meta", "tags"],
    ["M"],
    ["M", "meta", "takes"],
    ["M", "meta", "takes", "elements"],
    ["M", "took"],
    ["M", "returned", "value"],
    ["nope"],
    ["F", "nope"],
    ["F", "value", "nope"],
    ["F", "meta", "display", "nope"],
    ["meta", "fields", "nope"],
    ["F", "alarm", "severity", "x", "y"],
    ["F", "__class__"],
    ["M", "call_types"],
    [""],
]
JUNK = [None, "junk", -1, 3.7, [], ["x", 1], {"a": 1}, {}, object(), b"bytes", True]


def one_op(rig, rng, fields, methods):
    r = rng.random()
    if r < 0.25:
        p = [
            rng.choice(fields) if x == "F" else rng.choice(methods) if x == "M" else x
            for x in rng.choice(ALL_GETS)
        ]
        rig.send(Get, ["MRI"] + p, "get")
    elif r < 0.60:
        f = rng.choice(fields)
        gen = rig.part.metas[f][1]
        what = rng.choice(["put", "put_get"])
        value = gen(rng) if rng.random() < 0.75 else rng.choice(JUNK)
        rig.send(Put, ["MRI", f, "value"], what, value=value, get=what == "put_get")
    elif r < 0.66:
        p = rng.choice([["MRI"], ["MRI", "nope", "value"], ["MRI", "echo", "value"], ["MRI", "meta", "label"]])
        rig.send(Put, p, "put_bad", value=1)
    elif r < 0.86:
        name = rng.choice(methods)
        n = len(rig.ledger) + 1000
        params = rng.choice(
            [dict(x=n), dict(x=n), dict(x=str(n)), {}, dict(y=1), dict(x=n, y=1), dict(x="zz"), None,
             dict(x=n, name="nm%d" % n), dict(x=n, scale=0.5)]
        )
        rig.send(Post, ["MRI", name], "post", parameters=params)
    elif r < 0.90:
        rig.send(
            Post,
            rng.choice([["MRI"], ["MRI", "nope"], ["MRI", rng.choice(fields)], ["MRI", "meta"]]),
            "post_bad",
            parameters={},
        )
    elif r < 0.95:
        p = [rng.choice(fields) if x == "F" else x for x in rng.choice([["F", "value"], ["F"], ["meta"], ["F", "alarm"]])]
        rig.send(Subscribe, ["MRI"] + p, "sub", delta=rng.random() < 0.5)
    else:
        subs = [i for i, e in rig.ledger.items() if e["what"] == "sub" and "unsubscribed" not in e]
        if subs and rng.random() < 0.7:
            rig.unsubscribe(rng.choice(subs))
        else:
            rig.unsubscribe(None, known=False)


METHOD_TAKES = {
    "echo": ({"x"}, {"x", "name"}),
    "slowEcho": ({"x"}, {"x", "scale"}),
    "failing": ({"x"}, {"x"}),
    "noArgs": (set(), set()),
    "badReturn": ({"x"}, {"x"}),
    "heldCall": ({"x"}, {"x"}),
}


def judge(m, rig):
    """Offline check of the ledger against the ground truth"""
    used = [False] * len(rig.part.calls)
    for rid, e in rig.ledger.items():
        what, path = e["what"], e["path"]
        resp = [r for r, _ in e["responses"]]
        tag = "%s %s" % (what, path)
        if what == "sub":
            finals = [r for r in resp if isinstance(r, (Return, Error))]
            m.check(
                resp and isinstance(resp[0], (Update, Delta)),
                "no-initial-update",
                "%s: first response %s" % (tag, resp[:1]),
            )
            want = 1 if "unsubscribed" in e else 0
            m.check(len(finals) == want, "final-count", "%s: finals %s" % (tag, finals))
            m.check(all(r.id == rid for r in resp), "wrong-id", tag)
            if want and finals:
                m.check(
                    isinstance(finals[0], Return) and resp[-1] is finals[0],
                    "after-unsubscribe",
                    "%s: %s" % (tag, resp[-2:]),
                )
                m.count("unsubscribes")
            continue
        if not m.check(
            len(resp) == 1 and isinstance(resp[0], (Return, Error)),
            "not-exactly-one-response",
            "%s %r got %d responses %s" % (tag, e["kw"], len(resp), resp[:3]),
        ):
            continue
        r, snap = e["responses"][0]
        m.check(r.id == rid, "wrong-id", "%s expected id %s got %s" % (tag, rid, r.id))
        ok = isinstance(r, Return)
        m.count("returns" if ok else "errors")
        if what == "get":
            if snap is mh.MISSING:
                m.check(not ok, "get-of-missing", "%s returned %r" % (tag, r))
            else:
                m.check(
                    ok and mh.norm(r.value) == snap,
                    "get-wrong",
                    lambda: "%s gave %r, block has %r" % (tag, mh.norm(getattr(r, "value", r)), snap),
                )
        elif what in ("put_bad", "post_bad", "unsub_unknown"):
            m.check(not ok, "bad-request-accepted", "%s gave %r" % (tag, r))
        elif what in ("put", "put_get"):
            name = path[1]
            b = rig.part.behaviour[name]
            meta = rig.part.metas[name][0]
            try:
                v = mh.norm(meta.validate(e["kw"]["value"]))
                valid = True
            except Exception:
                valid = False
            # Find the call this request made
            mine = None
            if valid and b != "ro":
                for i, c in enumerate(rig.part.calls):
                    if not used[i] and i >= e["ncalls"] and c[0] == name and c[1] == v:
                        mine = i
                        break
            if mine is not None:
                used[mine] = True
            if not valid or b == "ro":
                m.check(not ok, "refusable-put-accepted", "%s %r behaviour %s: %r" % (tag, e["kw"], b, r))
            elif not m.check(mine is not None, "put-not-run", "%s %r: setter not called, response %r" % (tag, e["kw"], r)):
                pass
            else:
                outcome = rig.part.calls[mine][2]
                if b in ("fail", "slowfail"):
                    m.check(
                        not ok and outcome.split("boom")[0] == "" and "boom" in str(r.message),
                        "failure-lost",
                        "%s: setter %s, response %r" % (tag, outcome, r),
                    )
                else:
                    m.check(ok and outcome == "done", "put-outcome", "%s: setter %s, response %r" % (tag, outcome, r))
                    if ok and what == "put":
                        m.check(r.value is None, "put-value", "%s: plain put returned %r" % (tag, r.value))
                    elif ok and b == "returns":
                        want = rig.part.calls[mine][3]
                        m.check(
                            r.value == want and type(r.value) is type(want),
                            "put-value",
                            "%s: setter returned %r, response %r" % (tag, want, r.value),
                        )
                    elif ok:
                        m.check(mh.norm(r.value) == snap, "put-value", "%s: returned %r, attribute is %r" % (tag, r.value, snap))
        elif what == "post":
            name = path[1]
            params = e["kw"]["parameters"] or {}
            need, allowed = METHOD_TAKES[name]
            valid = need <= set(params) <= allowed and params.get("x") != "zz"
            mine = None
            if valid:
                for i, c in enumerate(rig.part.calls):
                    if (
                        not used[i]
                        and i >= e["ncalls"]
                        and c[0] == name
                        and (not params or c[1].get("x") == int(params["x"]))
                    ):
                        mine = i
                        break
            if mine is not None:
                used[mine] = True
            if not valid:
                m.check(not ok, "refusable-post-accepted", "%s %s: %r" % (tag, params, r))
            elif m.check(mine is not None, "post-not-run", "%s %s: %r" % (tag, params, r)):
                args, outcome = rig.part.calls[mine][1:]
                if outcome.startswith("boom"):
                    m.check(not ok and str(r.message) == outcome, "failure-lost", "%s: raised %s, response %r" % (tag, outcome, r))
                elif name == "badReturn":
                    m.check(not ok, "bad-return-accepted", "%s: %r" % (tag, r))
                else:
                    want = {
                        "echo": lambda a: "%s/%s" % (a["x"], params.get("name", "dflt")),
                        "slowEcho": lambda a: "%s*%s" % (a["x"], float(params.get("scale", 2.0))),
                        "noArgs": lambda a: None,
                        "heldCall": lambda a: "held %s" % a["x"],
                    }[name](args)
                    m.check(ok and r.value == want, "post-result", "%s %s: wanted %r got %r" % (tag, params, want, r))
    extra = [c for i, c in enumerate(rig.part.calls) if not used[i]]
    m.check(not extra, "ran-without-request", "calls with no matching request: %s" % extra[:3])


def mixed(m, rng, idx):
    kind = rng.choice(list(KINDS))
    rig = Rig(m, rng, kind)
    fields = [f for f in rig.part.metas]
    # A few fields only, so that requests collide
    fields = rng.sample(fields, 8)
    methods = list(METHOD_TAKES)
    for burst in range(rng.randrange(4, 9)):
        for _ in range(rng.randrange(1, 14)):
            one_op(rig, rng, fields, methods)
        mh.yields(rng.choice([0, 1, 2, 5, 20]))
    # Those held must still be waiting, and must be all that is waiting
    mh.settle_quiet(lambda: m.counts.get("responses", 0), quiet=25)
    held_running = sum(1 for c in rig.part.calls if c[2] == "started")
    silent = [e for e in rig.ledger.values() if not e["responses"]]
    m.check(
        len(silent) == held_running,
        "unanswered",
        lambda: "%d unanswered but %d held: %s" % (len(silent), held_running, [(e["what"], e["path"]) for e in silent][:5]),
    )
    m.count("held", held_running)
    # A healthy request is still answered while others are stuck
    rid = rig.send(Post, ["MRI", "echo"], "post", parameters=dict(x=77))
    mh.settle(lambda: rig.ledger[rid]["responses"], 50)
    m.check(rig.ledger[rid]["responses"], "blocked", "request not answered while others are stuck")
    rig.part.gate.Signal()
    mh.settle_quiet(lambda: m.counts.get("responses", 0), quiet=25)
    # Read your writes: at rest every Get gives the last value set
    for f in fields:
        rid = rig.send(Get, ["MRI", f, "value"], "get")
    mh.settle_quiet(lambda: m.counts.get("responses", 0))
    judge(m, rig)
    m.sample(dict(kind=kind, requests=len(rig.ledger), calls=rig.part.calls[:4]))


def read_your_writes(m, rng, idx):
    """One client, sequential: a put that returned is what Get returns; a
    refused one leaves everything as it was"""
    rig = Rig(m, rng, rng.choice(list(KINDS)))
    rig.part.gate.Signal()
    for _ in range(25):
        f = rng.choice(list(rig.part.metas))
        b = rig.part.behaviour[f]
        before = mh.norm(rig.part.models[f].to_dict())
        calls = len(rig.part.calls)
        junk = rng.random() < 0.3
        value = rng.choice(JUNK) if junk else rig.part.metas[f][1](rng)
        rid = rig.send(Put, ["MRI", f, "value"], "put", value=value, get=False)
        mh.settle(lambda: rig.ledger[rid]["responses"], 60)
        gid = rig.send(Get, ["MRI", f], "get")
        mh.settle(lambda: rig.ledger[gid]["responses"], 60)
        m.require(rig.ledger[rid]["responses"] and rig.ledger[gid]["responses"], "unanswered", f)
        r = rig.ledger[rid]["responses"][0][0]
        g = mh.norm(rig.ledger[gid]["responses"][0][0].value)
        if isinstance(r, Return):
            want = mh.norm(rig.part.metas[f][0].validate(value))
            m.check(g["value"] == want, "write-lost", "%s: put %r then got %r" % (f, value, g["value"]))
            m.count("writes")
        else:
            m.check(g == before, "refused-put-had-effect", "%s: put %r refused but %r -> %r" % (f, value, before, g))
            if b not in ("fail", "slowfail"):
                m.check(len(rig.part.calls) == calls, "refused-put-ran", "%s: %r" % (f, value))
            m.count("refused")
        m.distinct(f, b, isinstance(r, Return), type(value).__name__)
    judge(m, rig)


class ClosingPart(Part):
    """Things that stop being writeable, or go back to being so, because of
    being used"""

    def prepare(self):
        self.ran = []
        return self

    def setup(self, registrar):
        super().setup(registrar)
        self.attr = NumberMeta("int32", "n").create_attribute_model(0)
        registrar.add_attribute_model("num", self.attr, self.set_num)
        self.method = registrar.add_method_model(self.close)

    def set_num(self, value):
        self.attr.set_value(value)
        self.ran.append(int(value))
        mh.yields(int(value) % 3)
        self.attr.meta.set_writeable(False)

    @add_call_types
    def close(self, x: AX) -> AResult:
        self.ran.append(int(x))
        mh.yields(int(x) % 3)
        self.method.meta.set_writeable(False)
        return "closed %d" % x


def closing(m, rng, idx):
    """A request that was accepted and done is answered with its result, even
    if the field is not writeable any more when it is done"""
    c = rng.choice([Controller, BasicController, StatefulController])("MRI")
    part = ClosingPart("closing").prepare()
    c.add_part(part)
    p = mh.make_process()
    m.defer(mh.stop_process, p, 1)
    p.add_controller(c)
    mh.yields(5)
    for step in range(8):
        part.attr.meta.set_writeable(True)
        part.method.meta.set_writeable(True)
        n = rng.randrange(1, 1000)
        got = []
        which = rng.choice(["put", "put_get", "post"])
        before = len(part.ran)
        if which == "post":
            req = Post(step, ["MRI", "close"], dict(x=n))
        else:
            req = Put(step, ["MRI", "num", "value"], n, get=which == "put_get")
        req.set_callback(got.append)
        c.handle_request(req)
        mh.settle(lambda: got, 50)
        m.require(len(got) == 1, "not-exactly-one-response", "%s got %s" % (which, got))
        m.check(part.ran[before:] == [n], "put-not-run", "%s %s ran %s" % (which, n, part.ran[before:]))
        want = {"put": None, "put_get": n, "post": "closed %d" % n}[which]
        m.check(
            isinstance(got[0], Return) and got[0].value == want,
            "done-but-refused",
            "%s was done, but the answer is %r" % (which, got[0]),
        )
        m.count("closing")
        # Now it is refused
        got = []
        req.set_callback(got.append)
        c.handle_request(req)
        mh.settle(lambda: got, 50)
        m.require(len(got) == 1, "not-exactly-one-response", "%s got %s" % (which, got))
        m.check(
            isinstance(got[0], Error) and part.ran[before:] == [n],
            "refusable-put-accepted",
            "%s when not writeable gave %r" % (which, got[0]),
        )


def slow_clients(m, rng, idx):
    """Clients that take their time over a response, or ask for something else
    while they get it, don't stop others being answered"""
    rig = Rig(m, rng, rng.choice(list(KINDS)))
    rig.part.gate.Signal()
    plain = [f for f, b in rig.part.behaviour.items() if b == "plain"]
    let_go = cothread.Event(auto_reset=False)
    m.defer(let_go.Signal)
    stuck, nested, watched = [], [], set()

    def slow(r):
        stuck.append(r)
        let_go.Wait()

    def ask_again(r):
        # Ask from inside the response, and wait for it
        got = []
        req = Get(900 + len(nested), ["MRI", plain[0], "value"])
        req.set_callback(got.append)
        rig.c.handle_request(req)
        nested.append(got)
        if mh.settle(lambda: got, 60):
            m.count("nested_requests")

    for i in range(rng.randrange(1, 4)):
        kind = rng.choice(["get", "sub", "put", "post", "subchange"])
        cb = rng.choice([slow, slow, ask_again])
        f = rng.choice(plain)
        if kind == "get":
            req = Get(i, ["MRI", f])
        elif kind.startswith("sub"):
            watched.add(f)
            req = Subscribe(i, ["MRI", f, "value"], rng.random() < 0.5)
        elif kind == "put":
            req = Put(i, ["MRI", f, "value"], rig.part.metas[f][1](rng))
        else:
            req = Post(i, ["MRI", "echo"], dict(x=i))
        if kind == "subchange":
            # Only slow when it changes
            seen = []

            def later(r, cb=cb, seen=seen):
                seen.append(r)
                if len(seen) == 2:
                    cb(r)

            req.set_callback(later)
            rig.c.handle_request(req)
            mh.yields(3)
            cothread.Spawn(rig.part.models[f].set_value, rig.part.metas[f][1](rng))
        else:
            req.set_callback(cb)
            rig.c.handle_request(req)
        mh.yields(rng.randrange(0, 4))
        m.distinct("slow", kind, cb is slow, i)
    mh.yields(70)
    m.check(all(nested), "blocked", "a request made while getting a response was not answered: %s" % nested)
    for i in range(4):
        kind = rng.choice(["get", "put", "post"])
        # Who changes what a slow client watches tells it, so not those
        f = rng.choice([x for x in plain if kind != "put" or x not in watched] or ["none"])
        if kind == "get" or f == "none":
            f = rng.choice(plain)
            rid = rig.send(Get, ["MRI", f], "get")
        elif kind == "put":
            rid = rig.send(Put, ["MRI", f, "value"], "put", value=rig.part.metas[f][1](rng), get=False)
        else:
            rid = rig.send(Post, ["MRI", "echo"], "post", parameters=dict(x=5))
        mh.settle(lambda: rig.ledger[rid]["responses"], 60)
        m.check(
            len(rig.ledger[rid]["responses"]) == 1,
            "blocked",
            "%s not answered while %d clients are busy with their responses" % (kind, len(stuck)),
        )
    m.count("slow_clients", len(stuck))
    let_go.Signal()
    mh.yields(10)


check = vmon.Check(
    "C01",
    [
        vmon.Scenario("mixed", mixed, quick=900, thorough=4000, timeout=30),
        vmon.Scenario("closing", closing, quick=60, thorough=300, timeout=30),
        vmon.Scenario("slow_clients", slow_clients, quick=180, thorough=1500, timeout=30),
        vmon.Scenario("read_your_writes", read_your_writes, quick=360, thorough=1500, timeout=30),
    ],
    rule="distinct (request kind, field/endpoint, options) tuples whose single response was judged",
    required=["returns", "errors", "held", "unsubscribes", "writes", "refused", "closing", "nested_requests", "slow_clients"],
    assumptions=[
        "callbacks given to requests do not raise",
        "Put is only sent to <attribute>/value or to paths that are not attributes",
    ],
)
if __name__ == "__main__":
    check.main()
