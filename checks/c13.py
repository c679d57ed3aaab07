"""C13: everything the server sends decodes back to the same thing."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vmon  # noqa

import json  # noqa

import cothread  # noqa
import manrig  # noqa
import mh  # noqa
import numpy as np  # noqa
from annotypes import (  # noqa
    Anno, Array, Serializable, add_call_types, deserialize_object, json_decode, json_encode,
)
from malcolm.core import (  # noqa
    Alarm, AlarmSeverity, AlarmStatus, AttributeModel, BlockMeta, BooleanArrayMeta, BooleanMeta,
    ChoiceArrayMeta, ChoiceMeta, Context, Delta, Display, Error, Get, MethodLog, MethodMeta,
    MethodModel, NumberArrayMeta, NumberMeta, Part, Post, Process, Put, Request, Response, Return,
    StringArrayMeta, StringMeta, Subscribe, TableMeta, TimeStamp, Unsubscribe, Update, VMeta,
)
from malcolm.core.models import MapMeta  # noqa
from malcolm.modules.scanning.controllers import RunnableController  # noqa
from malcolm.modules.scanning.util import PointGeneratorMeta  # noqa
from manrig import Client, FieldPart, ok  # noqa
from scanpointgenerator import (  # noqa
    ArrayGenerator, CompoundGenerator, ConcatGenerator, LineGenerator, LissajousGenerator,
    ROIExcluder, SpiralGenerator, StaticPointGenerator, SquashingExcluder,
    ZipGenerator,
)
from scanpointgenerator.rois import CircularROI, RectangularROI  # noqa

S = mh.gen_string
NUMS = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64"]


def word(rng):
    return rng.choice("abcdefgh") + "".join(rng.choice("abcXYZ01") for _ in range(rng.randrange(0, 8)))


def words(rng, n):
    out = []
    while len(out) < n:
        w = word(rng)
        if w not in out:
            out.append(w)
    return out


def common(rng):
    kw = {}
    if rng.random() < 0.7:
        kw["description"] = S(rng)
    if rng.random() < 0.7:
        kw["tags"] = [S(rng) for _ in range(rng.randrange(0, 4))]
    if rng.random() < 0.5:
        kw["writeable"] = rng.random() < 0.5
    if rng.random() < 0.7:
        kw["label"] = S(rng)
    return kw


def gen_display(rng):
    kw = {}
    if rng.random() < 0.7:
        kw["limitLow"] = mh.gen_float(rng)
    if rng.random() < 0.7:
        kw["limitHigh"] = mh.gen_float(rng)
    if rng.random() < 0.7:
        kw["precision"] = rng.randrange(0, 20)
    if rng.random() < 0.7:
        kw["units"] = S(rng)
    if rng.random() < 0.7:
        kw["description"] = S(rng)
    return Display(**kw)


def array_meta(rng):
    k = rng.randrange(4)
    if k == 0:
        return BooleanArrayMeta(**common(rng)), lambda r, n: [r.random() < 0.5 for _ in range(n)]
    if k == 1:
        return StringArrayMeta(**common(rng)), lambda r, n: [S(r) for _ in range(n)]
    if k == 2:
        c = words(rng, rng.randrange(1, 4))
        if rng.random() < 0.3:
            c = list(mh.Fruit)
        return ChoiceArrayMeta(choices=c, **common(rng)), lambda r, n: [r.choice(c) for _ in range(n)]
    d = rng.choice(NUMS)
    kw = common(rng)
    if rng.random() < 0.5:
        kw["display"] = gen_display(rng)
    return NumberArrayMeta(d, **kw), lambda r, n: [mh.gen_number(r, d) for _ in range(n)]


def gen_generator(rng):
    gens = []
    for i in range(rng.randrange(0, 3)):
        ax = "a%d" % i
        k = rng.randrange(7)
        n = rng.randrange(1, 5)
        f = lambda: mh.gen_float(rng, finite=True)  # noqa
        if k == 0:
            g = LineGenerator(ax, rng.choice(["mm", ""]), f(), f(), n, rng.random() < 0.5)
        elif k == 1:
            g = LineGenerator([ax, ax + "b"], ["mm", "deg"], [f(), f()], [f(), f()], n)
        elif k == 2:
            g = SpiralGenerator([ax, ax + "b"], ["mm", "mm"], [0.0, 1.0], 2.0, 1.0)
        elif k == 3:
            g = LissajousGenerator([ax, ax + "b"], ["mm", "mm"], [0.0, 1.0], [1.0, 2.0], 1, n + 3)
        elif k == 4:
            g = ArrayGenerator(ax, "mm", [f() for _ in range(n)])
        elif k == 5:
            g = ConcatGenerator(
                [LineGenerator(ax, "mm", 0, 1, n), LineGenerator(ax, "mm", 2, 3, n + 1)]
            )
        else:
            g = ZipGenerator(
                [LineGenerator(ax, "mm", 0, 1, n), LineGenerator(ax + "z", "mm", 2, 3, n)]
            )
        gens.append(g)
    if rng.random() < 0.2:
        gens.append(StaticPointGenerator(rng.randrange(1, 4)))
    ex, mu = [], []
    names = [a for g in gens for a in g.axes]
    if len(names) >= 2 and rng.random() < 0.3:
        ex.append(ROIExcluder([CircularROI([0.0, 0.5], 5.0)], names[:2]))
    return CompoundGenerator(
        gens, ex, mu, duration=rng.choice([-1, 0.0, 0.5, 3]), continuous=rng.random() < 0.5,
        delay_after=rng.choice([0, 0.25]),
    )


def gen_meta(rng):
    """meta, generator of values"""
    k = rng.randrange(8)
    if k == 0:
        return BooleanMeta(**common(rng)), lambda r: r.random() < 0.5
    if k == 1:
        return StringMeta(**common(rng)), S
    if k == 2:
        c = words(rng, rng.randrange(1, 5))
        if rng.random() < 0.3:
            c = list(mh.Fruit)
        return ChoiceMeta(choices=c, **common(rng)), lambda r: r.choice(c)
    if k == 3:
        d = rng.choice(NUMS)
        kw = common(rng)
        if rng.random() < 0.5:
            kw["display"] = gen_display(rng)
        return NumberMeta(d, **kw), lambda r: mh.gen_number(r, d)
    if k == 4:
        meta, g = array_meta(rng)
        return meta, lambda r: g(r, r.randrange(0, 6))
    if k == 5:
        return PointGeneratorMeta(**common(rng)), gen_generator
    cols = {}
    for name in words(rng, rng.randrange(1, 5)):
        cols[name] = array_meta(rng)
    meta = TableMeta(elements={n: c[0] for n, c in cols.items()}, **common(rng))

    def table(r):
        n = r.randrange(0, 5)
        return {name: c[1](r, n) for name, c in cols.items()}

    return meta, table


def gen_ts(rng):
    ts = mh.gen_ts(rng)
    if rng.random() < 0.3:
        ts = TimeStamp(ts.secondsPastEpoch, ts.nanoseconds, rng.randrange(0, 100))
    return ts


def gen_attr(rng):
    meta, gv = gen_meta(rng)
    attr = meta.create_attribute_model()
    value = gv(rng)
    attr.set_value(value, alarm=mh.gen_alarm(rng), ts=gen_ts(rng))
    return attr


def gen_method(rng):
    takes = {n: gen_meta(rng) for n in words(rng, rng.randrange(0, 4))}
    returns = {n: gen_meta(rng) for n in words(rng, rng.randrange(0, 3))}
    required = [n for n in takes if rng.random() < 0.4]
    defaults = {n: takes[n][1](rng) for n in takes if n not in required and rng.random() < 0.6}
    meta = MethodMeta(
        takes=MapMeta({n: x[0] for n, x in takes.items()}, required),
        returns=MapMeta({n: x[0] for n, x in returns.items()}, [n for n in returns if rng.random() < 0.5]),
        defaults=defaults,
        **common(rng)
    )
    method = MethodModel(meta=meta)
    if rng.random() < 0.5:
        given = {n: takes[n][1](rng) for n in takes}
        method.set_took(
            MethodLog(
                meta.takes.validate(given), [n for n in given if rng.random() < 0.5],
                mh.gen_alarm(rng), gen_ts(rng),
            )
        )
    return method


def plain(o):
    """What it says, decoded without the code under test"""
    return json.loads(json_encode(dict(x=o)))["x"]


def canon(p):
    return json.dumps(p, sort_keys=True)


def typeids(o, path=()):
    """Every (path, class) reachable in a model"""
    out = {}
    if isinstance(o, Serializable):
        out[path] = type(o).__name__
        for k in o.call_types:
            out.update(typeids(getattr(o, k), path + (k,)))
    elif isinstance(o, dict):
        for k, v in o.items():
            out.update(typeids(v, path + (k,)))
    return out


def roundtrip(m, obj, what):
    text = json_encode(obj)
    back = deserialize_object(json_decode(text))
    m.count("roundtrips")
    m.check(
        type(back).__name__ == type(obj).__name__,
        "type",
        lambda: "%s became %s" % (type(obj), type(back)),
    )
    m.check(
        canon(plain(obj)) == canon(json.loads(text)), "encode", lambda: "%s: %s" % (what, text[:300])
    )
    again = json_encode(back)
    m.check(
        again == text,
        "not-same",
        lambda: "%s: %s" % (what, difference(json.loads(text), json.loads(again))),
    )
    return back


def difference(a, b, path=""):
    if type(a) is type(b) and isinstance(a, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b:
                return "%s/%s only in one" % (path, k)
            d = difference(a[k], b[k], path + "/" + k)
            if d:
                return d
        if list(a) != list(b):
            return "%s keys %s then %s" % (path, list(a), list(b))
        return ""
    if canon(a) != canon(b):
        return "%s: %s then %s" % (path, str(a)[:150], str(b)[:150])
    return ""


def member(m, meta, value, what):
    """A decoded value is kept as the same type"""
    m.check(
        canon(plain(meta.validate(plain(value)))) == canon(plain(value)), "member", what
    )


def same_parts(m, a, b, what):
    """Compare field by field with the object itself, not with its text"""
    for k in a.call_types:
        va, vb = getattr(a, k), getattr(b, k)
        m.check(
            canon(mh.norm(va)) == canon(mh.norm(vb)),
            "field-differs",
            lambda: "%s.%s: %s became %s" % (what, k, mh.norm(va), mh.norm(vb)),
        )


def objects(m, rng, idx):
    for _ in range(8):
        attr = gen_attr(rng)
        what = type(attr.meta).__name__
        back = roundtrip(m, attr, what)
        m.check(typeids(back) == typeids(attr) or what in ("TableMeta",), "types", lambda: "%s: %s %s" % (what, typeids(attr), typeids(back)))
        m.check(
            type(back.value) is type(attr.value)
            or what == "TableMeta"
            or "Choice" in what,
            "value-type",
            lambda: "%s: %s became %s" % (what, type(attr.value), type(back.value)),
        )
        if isinstance(attr.value, Array) and hasattr(attr.value.seq, "dtype"):
            m.check(
                back.value.seq.dtype == attr.value.seq.dtype,
                "dtype",
                lambda: "%s became %s" % (attr.value.seq.dtype, back.value.seq.dtype),
            )
        same_parts(m, attr, back, what)
        same_parts(m, attr.meta, back.meta, what)
        m.distinct("attr", what, getattr(attr.meta, "dtype", ""), attr.alarm.is_ok())
        b2 = roundtrip(m, attr.meta, "meta " + what)
        same_parts(m, attr.meta, b2, what)
        member(m, b2, attr.value, what)
        for other in (attr.alarm, attr.timeStamp):
            b3 = roundtrip(m, other, type(other).__name__)
            same_parts(m, other, b3, type(other).__name__)
        m.check(deserialize_object(json_decode(json_encode(attr.alarm))) == attr.alarm, "alarm-eq", "")
    for _ in range(3):
        method = gen_method(rng)
        back = roundtrip(m, method, "method")
        same_parts(m, method, back, "method")
        same_parts(m, method.meta, back.meta, "method meta")
        same_parts(m, method.took, back.took, "took")
        # Decoded, it accepts and refuses the same
        for n, v in method.meta.defaults.items():
            member(m, back.meta.takes.elements[n], v, n)
        m.distinct("method", len(method.meta.takes.elements), len(method.meta.defaults))
    b = BlockMeta(fields=words(rng, rng.randrange(0, 6)), **common(rng))
    same_parts(m, b, roundtrip(m, b, "block meta"), "block meta")
    roundtrip(m, gen_display(rng), "display")


def gen_json(rng, depth=0):
    k = rng.randrange(8 if depth < 2 else 6)
    if k == 0:
        return None
    if k == 1:
        return rng.random() < 0.5
    if k == 2:
        return rng.choice([0, -1, 2 ** 40, rng.randrange(1000)])
    if k == 3:
        return mh.gen_float(rng, finite=True)
    if k in (4, 5):
        return S(rng)
    if k == 6:
        return [gen_json(rng, depth + 1) for _ in range(rng.randrange(0, 4))]
    return {word(rng): gen_json(rng, depth + 1) for _ in range(rng.randrange(0, 4))}


def gen_value(rng):
    """Something a server may send: (object, JSON of it)"""
    k = rng.randrange(7)
    if k < 2:
        v = gen_json(rng)
        return v, v
    if k == 2:
        v = gen_attr(rng)
        return v, plain(v)
    if k == 3:
        v = gen_method(rng)
        return v, plain(v)
    if k == 4:
        v = gen_attr(rng).value
        return v, plain(v)
    if k == 5:
        v = [gen_alarm_or_num(rng) for _ in range(rng.randrange(0, 4))]
        return v, plain(v)
    v = {word(rng): gen_attr(rng).value for _ in range(rng.randrange(0, 4))}
    return v, plain(v)


def gen_alarm_or_num(rng):
    return rng.choice([mh.gen_alarm(rng), np.int32(5), np.float64(2.5), mh.Fruit.APPLE, "s", np.bool_(True)])


def messages(m, rng, idx):
    for _ in range(20):
        id_ = rng.choice([0, 1, 2 ** 31, rng.randrange(10 ** 9), -1])
        path = [S(rng) for _ in range(rng.randrange(1, 5))]
        k = rng.randrange(9)
        expect = dict(id=id_)
        if k == 0:
            msg = Get(id_, path)
            expect.update(typeid="malcolm:core/Get:1.0", path=path)
        elif k == 1:
            v, j = gen_value(rng)
            get = rng.random() < 0.5
            msg = Put(id_, path, v, get)
            expect.update(typeid="malcolm:core/Put:1.0", path=path, value=j, get=get)
        elif k == 2:
            ps = {word(rng): gen_value(rng) for _ in range(rng.randrange(0, 4))}
            msg = Post(id_, path, {n: x[0] for n, x in ps.items()} or None)
            expect.update(
                typeid="malcolm:core/Post:1.0", path=path,
                parameters={n: x[1] for n, x in ps.items()} or None,
            )
        elif k == 3:
            d = rng.random() < 0.5
            msg = Subscribe(id_, path, d)
            expect.update(typeid="malcolm:core/Subscribe:1.0", path=path, delta=d)
        elif k == 4:
            msg = Unsubscribe(id_)
            expect.update(typeid="malcolm:core/Unsubscribe:1.0")
        elif k == 5:
            v, j = gen_value(rng)
            msg = Return(id_, v)
            expect.update(typeid="malcolm:core/Return:1.0", value=j)
        elif k == 6:
            v, j = gen_value(rng)
            msg = Update(id_, v)
            expect.update(typeid="malcolm:core/Update:1.0", value=j)
        elif k == 7:
            s = S(rng)
            e = rng.choice([ValueError, AssertionError, Exception])(s)
            msg = Error(id_, e)
            expect.update(typeid="malcolm:core/Error:1.0", message="%s: %s" % (type(e).__name__, s))
        else:
            changes, j = [], []
            for _ in range(rng.randrange(0, 4)):
                p = [word(rng) for _ in range(rng.randrange(0, 4))]
                if rng.random() < 0.25:
                    changes.append([p])
                    j.append([p])
                else:
                    v, jv = gen_value(rng)
                    changes.append([p, v])
                    j.append([p, jv])
            msg = Delta(id_, changes)
            expect.update(typeid="malcolm:core/Delta:1.0", changes=j)
        text = json_encode(msg)
        m.distinct("message", type(msg).__name__, len(text) // 50)
        m.check(
            canon(json.loads(text)) == canon(expect),
            "message",
            lambda: "%s: %s" % (type(msg).__name__, difference(expect, json.loads(text))),
        )
        m.check(json_encode(msg) == text, "unstable", lambda: "%s" % text[:200])
        back = deserialize_object(json_decode(text), (Request, Response))
        m.count("messages")
        m.check(type(back) is type(msg), "type", lambda: "%s %s" % (type(msg), type(back)))
        m.check(
            json_encode(back) == text,
            "not-same",
            lambda: "%s: %s" % (type(msg).__name__, difference(json.loads(text), json.loads(json_encode(back)))),
        )
        for f in expect:
            if f not in ("typeid", "message"):
                m.check(
                    canon(plain(getattr(back, f))) == canon(expect[f]),
                    "field-differs",
                    lambda: "%s.%s %s" % (type(msg).__name__, f, getattr(back, f)),
                )


def served(m, rng, idx):
    """What a real block gives, over several changes"""
    proc = Process("proc")
    c = RunnableController("BLK", m.tmpdir())
    fields = FieldPart("fields").prepare(rng, mh.make_metas(rng))
    c.add_part(fields)
    proc.add_controller(c)
    manrig.start(proc)
    m.defer(mh.stop_process, proc)
    cl = Client(proc)
    box = []
    path = rng.choice([["BLK"], ["BLK"], ["BLK", rng.choice(list(fields.fields))]])
    sub = cl.subscribe(path, lambda r: box.append(json_encode(r)), delta=True)
    box2 = []
    cl.subscribe(path, lambda r: box2.append(json_encode(r)), delta=False)
    mh.settle(lambda: box and box2)
    view = None
    done = 0
    for _ in range(8):
        what = rng.choice(["put", "put", "validate", "post", "alarm"])
        name = rng.choice(list(fields.models))
        if len(path) > 1:
            name = path[1]
        attr, gv = fields.models[name], fields.gens[name]
        if what == "put":
            attr.set_value(gv(rng), alarm=mh.gen_alarm(rng), ts=gen_ts(rng))
        elif what == "alarm":
            attr.set_alarm(mh.gen_alarm(rng))
        elif what == "post":
            cl.post(["BLK", "add"], num=rng.randrange(5), name=S(rng))
        else:
            g = gen_generator(rng)
            r = cl.post(["BLK", "validate"], generator=g)
            if ok(r):
                text = json_encode(r)
                got = json.loads(text)["value"]
                m.check(
                    canon(got["generator"]) == canon(plain(g)),
                    "generator",
                    lambda: difference(plain(g), got["generator"]),
                )
                back = CompoundGenerator.from_dict(got["generator"])
                m.check(json_encode(back) == json_encode(g), "generator-back", "")
                m.count("generators")
        mh.yields(20)
        while done < len(box):
            d = json.loads(box[done])
            done += 1
            view = mh.apply_delta(view, d["changes"])
        direct = cl.ask(Get(cl.id(), path))
        now = json.loads(json_encode(direct))["value"]
        m.check(
            canon(view) == canon(now), "delta-text", lambda: "%s" % difference(now, view)
        )
        upd = json.loads(box2[-1])["value"]
        m.check(canon(upd) == canon(now), "update-text", lambda: "%s" % difference(now, upd))
        todo = now if len(path) == 1 else {path[1]: now}
        for n, d in todo.items():
            if n == "typeid":
                continue
            back = deserialize_object(d)
            m.count("served_fields")
            text = json_encode(back)
            m.check(
                canon(json.loads(text)) == canon(d),
                "served-not-same",
                lambda: "%s: %s" % (n, difference(d, json.loads(text))),
            )
            model = getattr(c._block, n)
            m.check(type(back) is type(model), "type", lambda: "%s %s" % (n, type(back)))
        m.distinct("served", tuple(path), what)


def mutate(rng, d, kind):
    """A mapping that must not decode, or None if this kind doesn't apply"""
    d = json.loads(json.dumps(d))
    tid = d["typeid"]
    if kind == "typeid":
        d["typeid"] = rng.choice(["", "malcolm:core/Nothing:1.0", tid + "x", None, tid[:-1]])
        return d
    if kind == "no-typeid":
        del d["typeid"]
        return d
    if kind == "extra":
        d[word(rng) + "_extra"] = 3
        return d
    if kind == "severity" and "alarm" in d:
        d["alarm"]["severity"] = rng.choice([5, -1, 99, "x"])
        return d
    if kind == "swapped" and "alarm" in d and "timeStamp" in d:
        d["alarm"], d["timeStamp"] = d["timeStamp"], d["alarm"]
        return d
    if kind == "meta" and "meta" in d and "value" in d:
        arr = d["typeid"].startswith("epics:nt/NTScalarArray")
        d["meta"] = plain(StringMeta("x") if arr else StringArrayMeta("x"))
        if d["typeid"].startswith("epics:nt/NTScalar:") or arr or True:
            return d
    if kind == "choice" and "meta" in d and "choices" in d["meta"]:
        d["value"] = ["not a choice"] if "Array" in d["meta"]["typeid"] else "not a choice"
        return d
    if kind == "dtype" and "meta" in d and "dtype" in d["meta"]:
        d["meta"]["dtype"] = rng.choice(["float16", "int", "", "complex64"])
        return d
    if kind == "number" and d.get("meta", {}).get("typeid", "").startswith("malcolm:core/NumberMeta"):
        d["value"] = rng.choice(["abc", [1, 2], {"a": 1}])
        return d
    if kind == "column" and "NTTable" in tid:
        cols = [k for k in d["value"] if k != "typeid"]
        k = rng.randrange(3)
        if k == 0:
            del d["value"][rng.choice(cols)]
        elif k == 1:
            d["value"]["nosuchcolumn"] = []
        elif len(cols) > 1:
            c = rng.choice(cols)
            if d["value"][c]:
                d["value"][c].append(d["value"][c][-1])
            else:
                return None
        else:
            return None
        return d
    if kind == "required" and "takes" in d.get("meta", {}):
        d["meta"]["takes"]["required"] = ["nosuchparameter"]
        return d
    if kind == "default" and "takes" in d.get("meta", {}):
        d["meta"]["defaults"]["nosuchparameter"] = 1
        return d
    return None


KINDS = [
    "typeid", "no-typeid", "extra", "severity", "swapped", "meta", "choice", "dtype", "number",
    "column", "required", "default",
]


def malformed(m, rng, idx):
    for _ in range(10):
        o = gen_attr(rng) if rng.random() < 0.7 else gen_method(rng)
        for kind in KINDS:
            bad = mutate(rng, plain(o), kind)
            if bad is None:
                continue
            m.count("bad_" + kind)
            m.distinct("bad", kind, type(getattr(o, "meta")).__name__)
            try:
                back = deserialize_object(json_decode(json.dumps(bad)))
            except Exception:
                continue
            m.fail("accepted", "%s: %s decoded to %s" % (kind, str(bad)[:300], type(back).__name__))
    for cls in (Get, Put, Post, Subscribe):
        for bad in (
            dict(typeid=cls.typeid, id=1),
            dict(typeid=cls.typeid, id=1, path=[]),
            dict(typeid=cls.typeid, id=1, path=["a"], nosuch=2),
        ):
            m.count("bad_request")
            try:
                deserialize_object(json_decode(json.dumps(bad)))
            except Exception:
                continue
            m.fail("accepted", "%s" % bad)
    for text in ("", "[]", "3", '"x"', "{", '{"typeid": }', "null", '{"a": 1} x'):
        try:
            json_decode(text)
        except ValueError:
            continue
        m.fail("accepted", "text %r" % text)


check = vmon.Check(
    "C13",
    [
        vmon.Scenario("objects", objects, quick=450, thorough=4000, timeout=60),
        vmon.Scenario("messages", messages, quick=360, thorough=3000, timeout=60),
        vmon.Scenario("served", served, quick=180, thorough=1500, timeout=60),
        vmon.Scenario("malformed", malformed, quick=180, thorough=1500, timeout=60),
    ],
    rule="Distinct (kind of meta, dtype, alarm), (message kind, size), (path, change), (fault, kind)",
    required=["roundtrips", "messages", "served_fields", "generators", "bad_request"]
    + ["bad_" + k for k in KINDS],
    level="exploration",
    assumptions=[],
)
if __name__ == "__main__":
    check.main()
