#!/opt/venv/bin/python
"""C32: a view of a block reads, writes and calls exactly what it names.

Clients with views of a block, made at different times, read, put and call at
once with changes to the block. What they get is compared with the state of the
block at the time, and what ran behind it with what they asked for."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vmon
import mh
import collections

import cothread
from annotypes import Anno, Array, add_call_types
from typing import Sequence, Union

import manrig
from malcolm.core import Context, Part, Process
from malcolm.modules.builtin.controllers import BasicController, StatefulController

with Anno("A number"):
    ANum = int
with Anno("A name"):
    AName = str
with Anno("A fraction"):
    AFrac = float
with Anno("A flag"):
    AFlag = bool
with Anno("Some names"):
    ANames = Array[str]
UNames = Union[ANames, Sequence[str]]

TAKES = dict(
    nothing=[],
    one=[("num", int, None)],
    swap=[("name", str, None), ("num", int, None)],
    mixed=[("num", int, None), ("name", str, "dflt"), ("frac", float, 0.25), ("flag", bool, True)],
    options=[("frac", float, 1.5), ("flag", bool, False)],
    listed=[("names", list, None), ("num", int, 7)],
)


class Boom(Exception):
    pass


class Methods(Part):
    def prepare(self, rng):
        self.rng, self.calls, self.n = rng, [], 0
        return self

    def setup(self, registrar):
        super().setup(registrar)
        for name in TAKES:
            registrar.add_method_model(getattr(self, name))

    def ran(self, method, **kw):
        self.n += 1
        n = self.n
        self.calls.append((method, {k: mh.norm(v) for k, v in kw.items()}))
        mh.yields(self.rng.choice([0, 0, 1, 4]))
        if self.rng.random() < 0.08:
            raise Boom("call %d" % n)
        return n

    @add_call_types
    def nothing(self) -> None:
        self.ran("nothing")

    @add_call_types
    def one(self, num: ANum) -> ANum:
        self.ran("one", num=num)
        return num

    @add_call_types
    def swap(self, name: AName, num: ANum) -> AName:
        self.ran("swap", name=name, num=num)
        return name

    @add_call_types
    def mixed(self, num: ANum, name: AName = "dflt", frac: AFrac = 0.25, flag: AFlag = True) -> AName:
        self.ran("mixed", num=num, name=name, frac=frac, flag=flag)
        return "%d %s %r %r" % (num, name, float(frac), bool(flag))

    @add_call_types
    def options(self, frac: AFrac = 1.5, flag: AFlag = False) -> AFlag:
        self.ran("options", frac=frac, flag=flag)
        return flag

    @add_call_types
    def listed(self, names: UNames, num: ANum = 7) -> UNames:
        self.ran("listed", names=names, num=num)
        return list(names)


def returned(method, kw):
    if method == "one":
        return kw["num"]
    if method == "swap":
        return kw["name"]
    if method == "mixed":
        return "%d %s %r %r" % (kw["num"], kw["name"], kw["frac"], kw["flag"])
    if method == "listed":
        return kw["names"]
    if method == "options":
        return kw["flag"]


def gen(rng, typ):
    if typ is int:
        return rng.choice([0, 0, 1, rng.randrange(-1000, 1000)])
    if typ is str:
        return mh.gen_string(rng)
    if typ is float:
        return rng.choice([0.0, 0.5, -2.25, 1e6, rng.random()])
    if typ is bool:
        return rng.random() < 0.5
    return [mh.gen_string(rng) for _ in range(rng.randrange(4))]


class World:
    def __init__(self, m, rng):
        self.m, self.rng = m, rng
        self.process = p = Process("views")
        metas = mh.make_metas(rng)
        keep = rng.sample(sorted(metas), rng.randrange(4, 10))
        self.c = rng.choice([BasicController, StatefulController])(rng.choice(["B", "BL-01:B"]))
        self.f = manrig.FieldPart("fields").prepare(rng, {k: metas[k] for k in keep}, readonly=0.2, methods=False)
        self.f.on_put = self.on_put
        self.calls = Methods("methods").prepare(rng)
        self.c.add_part(self.f)
        self.c.add_part(self.calls)
        p.add_controller(self.c)
        m.defer(mh.stop_process, p)
        manrig.start(p)
        self.version = collections.Counter()
        self.asked = []  # (field, value) of puts that should have got there
        self.wanted = []  # (method, parameters) of calls that should have
        self.names = list(self.f.models)
        for name in self.names:
            self.watch(name)

    def watch(self, name):
        model = self.f.models[name]
        orig = model.set_value

        def set_value(*a, **k):
            self.version[name] += 1
            try:
                return orig(*a, **k)
            finally:
                self.version[name] += 1

        self.setters = getattr(self, "setters", {})
        self.setters[name] = set_value

    def on_put(self, name, value):
        mh.yields(self.rng.choice([0, 0, 1, 3]))
        if self.rng.random() < 0.06:
            raise Boom("put")
        # It is set straight after this
        self.version[name] += 1

    def change(self):
        name = self.rng.choice(self.names)
        self.setters[name](self.f.gens[name](self.rng))
        self.m.count("changes")

    def truth(self, name):
        return mh.norm(self.f.models[name].value)


class Client:
    def __init__(self, w):
        self.w, self.m, self.rng = w, w.m, w.rng
        self.ctx = Context(w.process)
        self.block = self.ctx.block_view(w.c.mri)
        self.kept = {}

    def field(self, name):
        """A view of a field, new or not"""
        rng = self.rng
        if name in self.kept and rng.random() < 0.5:
            return self.kept[name]
        if rng.random() < 0.2:
            self.block = self.ctx.block_view(self.w.c.mri)
        v = getattr(self.block, name) if rng.random() < 0.5 else self.block[name]
        self.kept[name] = v
        return v

    def read(self):
        w, m, rng = self.w, self.m, self.rng
        name = rng.choice(w.names)
        attr = self.field(name)
        how = rng.choice(["value", "item", "dict", "block", "meta", "alarm", "iter"])
        before = w.version[name]
        truth = w.truth(name)
        model = w.f.models[name]
        if how == "value":
            got = attr.value
        elif how == "item":
            got = attr["value"]
        elif how == "dict":
            got = attr.to_dict()["value"]
        elif how == "block":
            got = self.block.to_dict()[name]["value"]
        elif how == "meta":
            key = rng.choice(["description", "tags", "writeable", "label", "typeid"])
            got = getattr(attr.meta, key) if rng.random() < 0.5 else attr.meta[key]
            m.check(mh.norm(got) == mh.norm(getattr(model.meta, key)), "read", lambda: "%s of %s is %r, not %r" % (key, name, got, getattr(model.meta, key)))
            return
        elif how == "alarm":
            got = attr.alarm
            m.check(mh.norm(got) == mh.norm(model.alarm) or w.version[name] != before, "read", lambda: "alarm of %s is %r, not %r" % (name, got, model.alarm))
            return
        else:
            got, want = list(self.block), list(w.c._block)
            m.check(got == want and set(w.names) | set(TAKES) <= set(got), "fields", lambda: "fields are %s, not %s" % (got, want))
            got = list(attr)
            m.check(sorted(got) == ["alarm", "meta", "timeStamp", "value"], "fields", lambda: "%s has %s" % (name, got))
            return
        got = mh.norm(got)
        if w.version[name] == before:
            m.check(truth == got, "read", lambda: "%s of %s is %r, not %r" % (how, name, got, truth))
            m.count("reads")
            m.distinct("read", how, type(model.meta).__name__)

    def missing(self):
        m, rng = self.m, self.rng
        name = rng.choice(["nothing_here", "valu", "Value", "0", "", "method"])
        what = rng.choice(["block", "attr", "meta", "method"])
        attr = self.w.names[0]
        view = {"block": lambda: self.block, "attr": lambda: self.block[attr], "meta": lambda: self.block[attr].meta, "method": lambda: self.block.swap}[what]()
        try:
            got = view[name] if rng.random() < 0.6 else getattr(view, name)
        except (KeyError, AttributeError):
            pass
        else:
            m.fail("missing", "%r of a view of a %s, which doesn't have any, is %r" % (name, what, got))
        m.count("missing")
        m.distinct("missing", what, name)
        attr = rng.choice(self.w.names)
        view, key = rng.choice([(self.block, attr), (self.block[attr], "value"), (self.block[attr].meta, "writeable"), (self.block, "brandNew")])
        try:
            setattr(view, key, 12)
        except NameError:
            pass
        else:
            m.fail("set", "%s could be set on a view" % key)
        m.check("brandNew" not in list(self.block), "set", "a new name on a view")

    def outcome(self, fn):
        try:
            return True, fn()
        except Boom as e:
            return True, e
        except Exception as e:
            return False, e

    def put(self):
        w, m, rng = self.w, self.m, self.rng
        name = rng.choice(w.names)
        ro = name in w.f.readonly
        value = w.f.gens[name](rng)
        want = mh.norm(w.f.models[name].meta.validate(value))
        attr = self.field(name)
        if not ro:
            w.asked.append((name, want))
        if rng.random() < 0.6:
            ran, r = self.outcome(lambda: attr.put_value(value))
        else:
            ran, r = self.outcome(lambda: attr.put_value_async(value).result(20))
        m.check(ran != ro, "put", lambda: "put %r to %s%s: %r" % (value, name, " (read only)" if ro else "", r))
        if not ro:
            m.check((name, want) in w.f.puts, "put", lambda: "put of %r to %s returned, and it hadn't got there" % (value, name))
        m.count("refused" if ro else "puts")
        m.distinct("put", type(w.f.models[name].meta).__name__, ro)

    def alone(self):
        """Nothing else is going on, so it is there afterwards"""
        w, m, rng = self.w, self.m, self.rng
        names = [x for x in w.names if x not in w.f.readonly]
        some = rng.sample(names, rng.randrange(1, len(names) + 1)) if names else []
        before = {x: w.truth(x) for x in w.names}
        values = collections.OrderedDict((x, w.f.gens[x](rng)) for x in some)
        want = {x: mh.norm(w.f.models[x].meta.validate(v)) for x, v in values.items()}
        arg = values if rng.random() < 0.5 else dict(values)
        n = len(w.f.puts)
        w.asked += list(want.items())
        ran, r = self.outcome(lambda: self.block.put_attribute_values(arg))
        m.check(ran, "put", lambda: "put of %s: %r" % (values, r))
        if isinstance(r, Boom):
            # The rest may still be on their way
            mh.settle(lambda: len(w.f.puts) >= n + len(some))
            mh.yields(10)
            m.count("failed_puts")
            return
        got = w.f.puts[n:]
        m.check(sorted(x for x, _ in got) == sorted(some), "put", lambda: "put of %s ran %s" % (some, got))
        order = some if arg is values else sorted(some)
        m.check([x for x, _ in got] == order, "put", lambda: "put of %s ran in the order %s" % (order, [x for x, _ in got]))
        for x in w.names:
            now = w.truth(x)
            m.check(want.get(x, before[x]) == now, "put", lambda: "%s is %r after a put of %s" % (x, now, values))
        m.count("puts_of_many")
        m.distinct("many", len(some))

    def call(self):
        w, m, rng = self.w, self.m, self.rng
        method = rng.choice(list(TAKES))
        takes = TAKES[method]
        given = [(k, gen(rng, t)) for k, t, d in takes if d is None or rng.random() < 0.6]
        if rng.random() < 0.3:
            given = [(k, gen(rng, t)) for k, t, d in takes]
        keys = [k for k, _, _ in takes]
        # As many as follow each other can be given by position
        n = 0
        while n < len(given) and given[n][0] == keys[n]:
            n += 1
        n = rng.randrange(n + 1)
        args = [v for _, v in given[:n]]
        rest = given[n:]
        rng.shuffle(rest)
        kwargs = dict(rest)
        good = rng.random() < 0.75
        what = "right"
        if not good:
            wrongs = ["many", "unknown"]
            if n:
                wrongs.append("twice")
            if any(d is None for k, _, d in takes if k in kwargs):
                wrongs.append("short")
            what = rng.choice(wrongs)
            if what == "many":
                args = [v for _, v in [(k, gen(rng, t)) for k, t, d in takes]] + [rng.choice([0, "x", None, 1.5])] * rng.choice([1, 2])
                kwargs = {}
            elif what == "unknown":
                kwargs["other"] = 3
            elif what == "twice":
                kwargs[keys[rng.randrange(n)]] = gen(rng, takes[0][1])
            else:
                kwargs.pop(rng.choice([k for k, _, d in takes if d is None and k in kwargs]))
        full = {k: d for k, _, d in takes}
        full.update(given)
        if good:
            w.wanted.append((method, mh.norm(full)))
        count = len(w.calls.calls)
        how = rng.choice(["call", "post", "async", "post_async"])
        view = self.field(method)

        def go():
            if how == "call":
                return getattr(self.block, method)(*args, **kwargs)
            if how == "post":
                return view.post(*args, **kwargs)
            if how == "async":
                return getattr(self.block, method + "_async")(*args, **kwargs).result(20)
            return view.post_async(*args, **kwargs).result(20)

        ran, r = self.outcome(go)
        text = "%s(%s, %s) by %s" % (method, args, kwargs, how)
        m.check(ran == good, "call", lambda: "%s, which is %s: %r" % (text, what, r))
        m.count("calls" if good else "bad_calls")
        m.distinct("call", method, what, how, n, len(kwargs))
        if good and ran and not isinstance(r, Boom):
            now = w.calls.calls[count:]
            m.check((method, mh.norm(full)) in now, "call", lambda: "%s ran %s, not with %s" % (text, now, full))
            want = returned(method, mh.norm(full))
            m.check(mh.norm(r) == want and (r is None) == (want is None), "return", lambda: "%s gave %r, not %r" % (text, r, want))

    def stop(self):
        self.ctx.unsubscribe_all()


def key(x):
    return repr(x)


def together(m, rng, idx):
    """Several clients at once"""
    w = World(m, rng)
    clients = [Client(w) for _ in range(rng.choice([1, 2, 3]))]

    def go(c):
        for _ in range(rng.choice([10, 25, 40])):
            k = rng.random()
            if k < 0.4:
                c.read()
            elif k < 0.5:
                c.missing()
            elif k < 0.75:
                c.put()
            else:
                c.call()
            mh.yields(rng.choice([0, 0, 1, 3]))

    def shake():
        for _ in range(rng.choice([0, 20, 60])):
            w.change()
            mh.yields(rng.choice([1, 2, 5]))

    jobs = [cothread.Spawn(go, c, raise_on_wait=True) for c in clients] + [cothread.Spawn(shake, raise_on_wait=True)]
    for j in jobs:
        j.Wait(40)
    mh.yields(20)
    for what, want, got in (("puts", w.asked, w.f.puts), ("calls", w.wanted, w.calls.calls)):
        a, b = collections.Counter(map(key, want)), collections.Counter(map(key, got))
        m.check(a == b, "exactly", lambda: "%s not made %s, made and not asked for %s" % (what, list(a - b)[:4], list(b - a)[:4]))
    m.count("rounds")


def one(m, rng, idx):
    """One client"""
    w = World(m, rng)
    c = Client(w)
    for _ in range(rng.choice([15, 40])):
        k = rng.random()
        if k < 0.25:
            w.change()
        elif k < 0.5:
            c.read()
        elif k < 0.75:
            c.alone()
        elif k < 0.8:
            c.missing()
        else:
            c.call()
    a, b = collections.Counter(map(key, w.asked)), collections.Counter(map(key, w.f.puts))
    m.check(a == b, "exactly", lambda: "puts not made %s, made and not asked for %s" % (list(a - b)[:4], list(b - a)[:4]))


check = vmon.Check(
    "C32",
    [
        vmon.Scenario("together", together, quick=1200, thorough=8000, timeout=60),
        vmon.Scenario("one", one, quick=900, thorough=6000, timeout=60),
    ],
    rule="Distinct kinds of read by type, of put by type, and of call by method, arguments and way of calling",
    required=["reads", "missing", "puts", "refused", "puts_of_many", "calls", "bad_calls", "changes", "rounds"],
    level="exploration",
)
if __name__ == "__main__":
    check.main()
