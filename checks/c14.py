#!/opt/venv/bin/python
"""C14: PVA clients see the same structure and changes as the block.

The real PvaServerComms, BlockHandler, conversions and PvaClientComms run over
a network inside the process that carries real p4p Values (lib/pvasim.py)."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vmon
import mh
import blockworld
import manrig
import pvasim
from manrig import BC, Client, FieldPart, ok

import cothread
import numpy as np
from annotypes import Array
from p4p import Type, Value
from p4p.nt import NTURI
from malcolm.core import Alarm, NumberMeta, Process, Return, StringMeta, Table, TimeStamp
from malcolm.modules.pva.controllers import pvaclientcomms, pvaconvert, pvaservercomms


def unlabel(d):
    """Drop the labels PVA adds to tables"""
    return d


def served(view):
    return mh.norm(pvaconvert.convert_value_to_dict(view))


def typed(view, want):
    """Independent reading of a Value: field names, typeids and leaves. `want`
    is the normalised dict it should be equal to."""
    if isinstance(view, Value):
        d = {}
        tid = view.getID()
        if tid != "structure":
            d["typeid"] = tid
        for k in view.keys():
            if tid == "epics:nt/NTTable:1.0" and k == "labels":
                continue
            d[k] = typed(view[k], None)
        return d
    if isinstance(view, list):
        return [typed(x, None) for x in view]
    return mh.norm(view)


# ------------------------------------------------------------------ conversion
def gen_leaf(rng):
    k = rng.randrange(9)
    if k == 0:
        return mh.gen_string(rng)
    if k == 1:
        return rng.random() < 0.5
    if k == 2:
        return rng.randint(-(2**63), 2**63 - 1)
    if k == 3:
        return mh.gen_float(rng)
    if k == 4:
        dt = rng.choice(mh.DTYPES)
        return np.dtype(dt).type(mh.gen_number(rng, dt))
    if k == 5:
        dt = rng.choice(mh.DTYPES)
        return np.array([mh.gen_number(rng, dt) for _ in range(rng.randrange(4))], dtype=dt)
    if k == 6:
        return Array[str]([mh.gen_string(rng) for _ in range(rng.randrange(4))])
    if k == 7:
        return Array[bool]([rng.random() < 0.5 for _ in range(rng.randrange(4))])
    return rng.choice(list(mh.Fruit))


def gen_dict(rng, depth=0):
    d = {}
    if rng.random() < 0.4:
        d["typeid"] = "some:type/%d" % rng.randrange(5)
    for i in range(rng.randrange(0 if depth else 1, 5)):
        k = "f%s%d" % (rng.choice("abcXYZ_"), i)
        r = rng.random()
        if r < 0.25 and depth < 3:
            d[k] = gen_dict(rng, depth + 1)
        elif r < 0.35 and depth < 3:
            d[k] = [gen_dict(rng, depth + 1) for _ in range(rng.randrange(3))]
        else:
            d[k] = gen_leaf(rng)
    return d


def convert(m, rng, idx):
    for _ in range(40):
        d = gen_dict(rng)
        want = mh.norm(d)
        v = pvaconvert.convert_dict_to_value(d)
        back = mh.norm(pvaconvert.convert_value_to_dict(v))
        m.count("converted")
        m.check(back == want, "round-trip", lambda: "%s became %s" % (want, back))
        got = typed(v, None)
        m.check(got == want, "value", lambda: "%s converted to %s" % (want, got))
        m.check(
            list(back) == [k for k in want] or set(back) == set(want), "fields", lambda: "%s %s" % (back, want)
        )
    metas = mh.make_metas(rng)
    for name, (meta, gen) in metas.items():
        a = meta.create_attribute_model(meta.validate(gen(rng)))
        a.set_alarm(mh.gen_alarm(rng))
        a.set_timeStamp(mh.gen_ts(rng))
        want = mh.norm(a.to_dict())
        for src in (a,):
            v = pvaconvert.convert_dict_to_value(src)
            back = mh.norm(pvaconvert.convert_value_to_dict(v))
            m.check(back == want, "attribute", lambda: "%s: %s became %s" % (name, want, back))
            got = typed(v, None)
            m.check(got == want, "attribute-value", lambda: "%s: %s became %s" % (name, want, got))
            m.count("attributes")
            m.distinct(name, want["alarm"]["severity"], str(want["value"])[:10])
        # Decodes to the same kind of object
        from annotypes import deserialize_object

        d = deserialize_object(pvaconvert.convert_value_to_dict(pvaconvert.convert_dict_to_value(a)))
        m.check(type(d) is type(a) and mh.norm(d) == want, "decode", name)
    # Not possible in PVA
    for bad in (
        {"a": np.zeros((2, 2))},
        {"a": 2**70},
        {"a": object()},
        {"a": 1 + 2j},
        {"a": {1, 2}},
        {"a": b"bytes"},
        {"a": np.array(["x"], dtype=object)},
    ):
        try:
            v = pvaconvert.convert_dict_to_value(bad)
            got = mh.norm(pvaconvert.convert_value_to_dict(v))
        except Exception:
            m.count("refused")
            m.check(True, "refused")
        else:
            m.check(got == mh.norm(bad), "altered", lambda: "%r became %r" % (bad, got))


# --------------------------------------------------------------------- a world
class World(blockworld.Blocks):
    def __init__(self, m, rng, proxies=False, delay=30):
        self.m, self.rng = m, rng
        self.net = pvasim.Net()
        m.defer(
            pvasim.install(self.net, pvaservercomms, pvaclientcomms if proxies else None, delay)
        )
        self.process = Process("server")
        self.build()
        self.comms = pvaservercomms.PvaServerComms("SERVER")
        self.process.add_controller(self.comms)
        m.defer(mh.stop_process, self.process)
        manrig.start(self.process)
        mh.yields(5)
        self.cl = Client(self.process)
        self.mons = []
        # What an ordinary subscriber is told has changed, the reference
        self.deltas = {}
        for mri in self.ctrl:
            self.reference(mri)

    def reference(self, mri):
        paths = self.deltas[mri] = set()

        def cb(resp):
            for change in getattr(resp, "changes", []):
                paths.add(".".join(change[0]))

        self.cl.subscribe([mri], cb, delta=True)
        mh.yields(5)
        paths.clear()

    def quiet(self):
        for paths in self.deltas.values():
            paths.clear()
        for mon in self.mons:
            del mon.leaves[:]

    # -- monitors
    def connect(self, name):
        mon = pvasim.Monitor(self.net, name, delay=self.rng.choice([30, 60]))
        mri, field = (name, None) if name in self.ctrl else name.rsplit(".", 1)
        mon.mri, mon.field = mri, field or None

        mon.leaves = []

        def on_value(view):
            self.m.count("updates")
            if mon.last is not None:
                self.m.count("changes")
                mon.leaves += [((field + ".") if field else "") + leaf for leaf in mon.last]

        mon.callback = on_value
        self.mons.append(mon.start())
        return mon

    def judge(self, what):
        """Every client holds what the block serves"""
        m = self.m
        for mon in self.mons:
            if mon.closed:
                continue
            paths = self.deltas[mon.mri]
            for leaf in mon.leaves:
                split = leaf.split(".")
                m.check(
                    any(".".join(split[:i]) in paths for i in range(len(split) + 1)),
                    "unrelated",
                    lambda: "after %s: %s was sent %s when only %s changed" % (what, mon.name, leaf, sorted(paths)),
                )
            path = [mon.mri] + ([mon.field] if mon.field else [])
            want = self.cl.get(*path)
            if want is None:
                # Nothing there to be seen
                continue
            if not m.check(
                mon.view is not None,
                "not-connected",
                lambda: "after %s: no value for %s, %s" % (what, mon.name, mon.pv and mon.pv.log[-4:]),
            ):
                continue
            got = typed(mon.view, want)
            m.count("views_compared")
            m.check(
                got == want,
                "view",
                lambda: "after %s: %s has %s" % (what, mon.name, mh.diff(want, got)),
            )
        self.m.distinct(what, sum(1 for x in self.mons if not x.closed), max([x.opens for x in self.mons] or [0]))

    def settle(self):
        mh.yields(120)

    def names(self):
        rng = self.rng
        mri = rng.choice(list(self.ctrl))
        r = rng.random()
        if r < 0.6:
            return mri
        f = self.fields.get(mri)
        if f is None:
            return rng.choice(["MGR.layout", "MGR.exports", "MGR.health", "MGR"])
        return mri + "." + rng.choice(list(f.models) + ["add", "health"])


def monitors(m, rng, idx):
    w = World(m, rng)
    for _ in range(rng.randrange(1, 4)):
        w.connect(w.names())
    w.settle()
    w.judge("connect")
    for _ in range(rng.randrange(10, 25)):
        r = rng.random()
        w.quiet()
        if r < 0.1:
            w.connect(w.names())
            what = "connect"
            w.settle()
        elif r < 0.2 and len(w.mons) > 1:
            mon = w.mons.pop(rng.randrange(len(w.mons)))
            mon.close()
            w.settle()
            n = mon.n
            what = w.change()
            w.settle()
            m.check(mon.n == n, "after-close", "a client that has gone is sent updates")
            m.count("closed")
        else:
            what = w.change()
            if rng.random() < 0.3:
                what = w.change()
            w.settle()
        m.count("did_" + what)
        w.judge(what)
    m.sample(dict(clients=[x.name for x in w.mons], opens=[x.opens for x in w.mons]))
    m.count("reconnects", sum(x.losses for x in w.mons))


# ------------------------------------------------------------------- operations
def put_value(rng, meta, plain):
    """What a client would set"""
    return plain


def operations(m, rng, idx):
    w = World(m, rng)
    for mri, f in w.fields.items():
        blockmon = w.connect(mri)
        w.settle()
        for name in rng.sample(list(f.models), min(6, len(f.models))):
            model, gen = f.models[name], f.gens[name]
            fieldmon = w.connect("%s.%s" % (mri, name))
            w.settle()
            for mon, prefix in ((blockmon, name + "."), (fieldmon, "")):
                before = w.cl.get(mri, name, "value")
                plain = gen(rng)
                want = mh.norm(model.meta.validate(plain))
                w.quiet()
                m.require(mon.view is not None, "not-connected", mon.name)
                v = Value(mon.view.type())
                if isinstance(plain, dict):
                    keep = list(plain)
                    for k in keep:
                        v[prefix + "value." + k] = plain[k]
                else:
                    v[prefix + "value"] = plain
                ro = name in f.readonly
                nputs = len(f.puts)
                op = pvasim.Op(v)
                mon.pv.operate("put", op)
                w.settle()
                after = w.cl.get(mri, name, "value")
                m.check(len(op.answers) == 1, "answers", lambda: "%s got %s" % (name, op.answers))
                err = op.answers[0][1] if op.answers else None
                m.count("puts")
                if ro:
                    m.check(
                        err and after == before and len(f.puts) == nputs,
                        "read-only",
                        lambda: "%s %s %s" % (name, err, after),
                    )
                else:
                    m.check(
                        not err and after == want and f.puts[nputs:] == [(name, want)],
                        "put",
                        lambda: "%s: put %s got %s, now %s, setter %s" % (name, want, err, after, f.puts[nputs:]),
                    )
                    m.distinct(name, mon is blockmon, str(want)[:12])
                w.judge("put " + name)
            fieldmon.close()
            w.mons.remove(fieldmon)
        # More than one field at a time, or something that is not a value
        names = [n for n in f.models if n not in f.readonly and not isinstance(f.gens[n](rng), dict)]
        if len(names) > 1:
            a, b = rng.sample(names, 2)
            for bad in (
                {a + ".value": f.gens[a](rng), b + ".value": f.gens[b](rng)},
                {a + ".alarm.message": "x"},
                {a + ".meta.description": "x"},
                {},
                {"add.meta.description": "x"},
            ):
                before = w.cl.get(mri)
                v = Value(blockmon.view.type())
                for k, x in bad.items():
                    v[k] = x
                op = pvasim.Op(v)
                blockmon.pv.operate("put", op)
                w.settle()
                m.check(
                    len(op.answers) == 1 and op.answers[0][1] and w.cl.get(mri) == before,
                    "bad-put",
                    lambda: "%s got %s" % (list(bad), op.answers),
                )
                m.count("bad_puts")
        # Methods
        for _ in range(8):
            method = rng.choice(["add", "nothing", "fail", "missing", f and names and names[0]])
            params = {}
            if method == "add":
                if rng.random() < 0.9:
                    params["num"] = rng.randrange(-50, 50)
                if rng.random() < 0.5:
                    params["name"] = mh.gen_string(rng)
                if rng.random() < 0.1:
                    params["extra"] = "x"
            elif method == "fail":
                params["name"] = mh.gen_string(rng)
            types = [(k, "s" if isinstance(x, str) else "l") for k, x in params.items()]
            style = rng.choice(["uri", "request", "field"])
            pv = blockmon.pv
            if style == "uri":
                v = NTURI(types).wrap(path="%s.%s" % (mri, method), kws=params, scheme="pva")
                op = pvasim.Op(v)
            elif style == "request":
                op = pvasim.Op(Value(Type(types), params), {"method": method})
            else:
                if method == "missing":
                    continue
                pv = w.net.find("%s.%s" % (mri, method))
                op = pvasim.Op(Value(Type(types), params))
            ncalls = len(f.calls)
            pv.operate("rpc", op)
            w.settle()
            m.count("calls")
            m.check(len(op.answers) == 1, "answers", lambda: "%s %s: %s" % (style, method, op.answers))
            if not op.answers:
                continue
            ret, err = op.answers[0]
            good = method in ("nothing", "fail") or (
                method == "add" and "num" in params and "extra" not in params
            )
            if not good:
                m.check(
                    err and len(f.calls) == ncalls, "bad-call", lambda: "%s %s %s %s" % (style, method, params, ret)
                )
                continue
            full = dict(params)
            if method == "add":
                full.setdefault("name", "dflt")
            m.check(
                f.calls[ncalls:] == [(method, full)],
                "call",
                lambda: "%s %s(%s) ran %s" % (style, method, params, f.calls[ncalls:]),
            )
            if method == "fail":
                m.check(err and "failed with " + params["name"] in err, "error", lambda: "%r" % err)
            else:
                got = typed(ret, None) if ret is not None else None
                want = {"return": "%s+%d" % (full["name"], full["num"])} if method == "add" else {}
                m.check(not err and got == want, "result", lambda: "%s: %s, wanted %s" % (style, got, want))
            m.distinct(style, method, bool(err))
            w.judge("call")


# ---------------------------------------------------------------------- proxies
def without_time(d):
    return d


def proxy(m, rng, idx):
    w = World(m, rng, proxies=True, delay=rng.choice([30, 60]))
    remote = Process("client")
    comms = pvaclientcomms.PvaClientComms("COMMS")
    remote.add_controller(comms)
    mris = list(w.ctrl)
    m.defer(mh.stop_process, remote)
    for mri in mris:
        remote.add_controller(BC.ProxyController(mri, "COMMS"))
    manrig.start(remote)
    rcl = Client(remote)

    def judge(what):
        for mri in mris:
            want, got = w.cl.get(mri), rcl.get(mri)
            if rng.random() < 0.2:
                field = rng.choice(list(want))
                m.check(
                    rcl.get(mri, field) == want[field],
                    "proxy-field",
                    lambda: "after %s %s.%s: %s" % (what, mri, field, mh.diff(want[field], rcl.get(mri, field))),
                )
            m.count("proxies_compared")
            m.check(got == want, "proxy", lambda: "after %s: %s: %s" % (what, mri, mh.diff(want, got)))
        m.distinct("proxy", what)

    w.settle()
    judge("start")
    for _ in range(rng.randrange(8, 20)):
        w.quiet()
        r = rng.random()
        if r < 0.5:
            what = w.change()
        elif r < 0.75:
            mri = rng.choice(list(w.fields))
            f = w.fields[mri]
            name = rng.choice(list(f.models))
            plain = f.gens[name](rng)
            want = mh.norm(f.models[name].meta.validate(plain))
            before = w.cl.get(mri, name, "value")
            n = len(f.puts)
            resp = rcl.put([mri, name, "value"], plain)
            w.settle()
            after = w.cl.get(mri, name, "value")
            if name in f.readonly:
                m.check(
                    resp is not None and not ok(resp) and after == before, "proxy-put-ro", lambda: "%s" % resp
                )
            else:
                m.check(
                    ok(resp) and after == want and f.puts[n:] == [(name, want)],
                    "proxy-put",
                    lambda: "%s.%s put %s: %s, now %s, setter %s" % (mri, name, want, resp, after, f.puts[n:]),
                )
            what = "put " + name
            m.count("proxy_puts")
        elif r < 0.92:
            mri = rng.choice(list(w.fields))
            f = w.fields[mri]
            method = rng.choice(["add", "nothing", "fail"])
            params = {}
            if method == "add":
                params = dict(num=rng.randrange(100))
                if rng.random() < 0.5:
                    params["name"] = mh.gen_string(rng)
            n = len(f.calls)
            resp = rcl.post([mri, method], **params)
            w.settle()
            full = dict(params)
            if method == "add":
                full.setdefault("name", "dflt")
            if method == "fail":
                full.setdefault("name", "x")
            m.check(f.calls[n:] == [(method, full)], "proxy-call", lambda: "%s %s" % (resp, f.calls[n:]))
            if method == "fail":
                m.check(
                    resp is not None and not ok(resp) and "failed with" in str(resp.message),
                    "proxy-error",
                    lambda: "%s" % resp,
                )
            else:
                want = None if method == "nothing" else "%s+%d" % (full["name"], full["num"])
                m.check(
                    ok(resp) and (mh.norm(resp.value) == want or (not want and not resp.value)),
                    "proxy-result",
                    lambda: "%s(%s) gave %s, wanted %s" % (method, params, resp, want),
                )
            what = "call " + method
            m.count("proxy_calls")
        else:
            # The network goes, and comes back with a different state
            pvs = [pv for d in w.comms._pvs.values() for pv in d.values()] if hasattr(w.comms, "_pvs") else []
            w.net.down = True
            for mon in comms._ctxt.monitors:
                pv = mon.pv
                if pv is not None:
                    pv.disconnect(mon)
                    mon.lost()
            mh.yields(60)
            for mri in mris:
                h = rcl.get(mri, "health")
                m.check(
                    h["alarm"]["severity"] >= 3, "disconnect", lambda: "health of %s is %s" % (mri, h)
                )
            m.count("network_losses")
            w.change()
            w.change()
            mh.yields(20)
            w.net.down = False
            what = "loss"
        w.settle()
        w.settle()
        judge(what)
    m.sample(dict(mris=mris, opens=[x.opens for x in comms._ctxt.monitors]))


# ------------------------------------------------------------------- publishing
def publishing(m, rng, idx):
    w = World(m, rng)
    mris = list(w.ctrl) + ["SERVER"]
    later = []
    for step in range(6):
        published = set()
        for mri in mris + ["NOPE", "BLOCK", "BLOCK0X", "", "."]:
            isthere = mri in mris and w.net.server is not None
            for ch, want in ((mri, isthere), (mri + ".health", isthere)):
                got = w.net.server is not None and bool(w.net.server.testChannel(ch))
                m.check(got == want, "published", lambda: "%s: %s, wanted %s" % (ch, got, want))
                m.count("channels")
        mon = w.connect(rng.choice([x for x in mris if x != "SERVER"]))
        w.settle()
        w.judge("connect")
        r = rng.random()
        if r < 0.5:
            mri = "LATE%d" % step
            c = BC.BasicController(mri)
            f = FieldPart("fields").prepare(rng, mh.make_metas(rng))
            c.add_part(f)
            w.process.add_controllers([c])
            mris.append(mri)
            w.ctrl[mri], w.fields[mri] = c, f
            w.extra[mri] = {}
            w.reference(mri)
            later.append(mri)
            mh.yields(20)
        elif later:
            mri = later.pop()
            mons = [w.connect(mri), w.connect(mri + ".health")]
            w.settle()
            w.judge("late")
            mris.remove(mri)
            w.comms.publish([x for x in mris])
            w.settle()
            for x in [y for y in w.mons if y.mri == mri]:
                m.check(x.losses >= 1 and x.view is None, "kept", "client of a removed block is still served")
                x.close()
                w.mons.remove(x)
            m.count("removed")
            del w.ctrl[mri]
            w.fields.pop(mri)
    # Disabling the server drops everyone, resetting brings them back
    for _ in range(rng.choice([1, 2, 3])):
        for mon in w.mons:
            mon.before = mon.losses
        m.check(ok(w.cl.post(["SERVER", "disable"])), "disable")
        w.settle()
        for mon in w.mons:
            m.check(mon.view is None and mon.losses > mon.before, "disable-kept", mon.name)
        m.check(ok(w.cl.post(["SERVER", "reset"])), "reset")
        w.settle()
        w.judge("reset")
    m.distinct(len(mris), len(w.mons))


check = vmon.Check(
    "C14",
    [
        vmon.Scenario("convert", convert, quick=80, thorough=1500, timeout=60),
        vmon.Scenario("monitors", monitors, quick=120, thorough=2500, timeout=90),
        vmon.Scenario("operations", operations, quick=60, thorough=1000, timeout=90),
        vmon.Scenario("proxy", proxy, quick=80, thorough=1500, timeout=90),
        vmon.Scenario("publishing", publishing, quick=32, thorough=300, timeout=90),
    ],
    rule="Distinct (kind of change, clients, openings), (attribute, channel kind, value), (call style, method, failed)",
    required=[
        "converted", "attributes", "refused", "updates", "changes", "views_compared", "reconnects", "puts",
        "bad_puts", "calls", "proxies_compared", "proxy_puts", "proxy_calls", "network_losses", "removed",
        "did_value", "did_meta", "did_extra", "did_export", "did_method",
    ],
    level="exploration",
    assumptions=[
        "The pvAccess transport is replaced; p4p's Type and Value are real and only marked fields travel",
        "As in p4p closing a PV disconnects its clients, who reconnect later",
    ],
)
if __name__ == "__main__":
    check.main()
