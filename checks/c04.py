"""C04: values held always satisfy their declared type"""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vmon  # noqa: E402

import enum  # noqa: E402
import struct  # noqa: E402

import mh  # noqa: E402
import numpy as np  # noqa: E402
from annotypes import Anno, Array, add_call_types  # noqa: E402
from malcolm.core import (  # noqa: E402
    Controller,
    Error,
    Get,
    NumberMeta,
    Part,
    Post,
    Put,
    Return,
    Table,
    TableMeta,
)

CONVERTIBLE_NUM = object()


def is_member(meta, v, plain=False):
    """Independent statement of what it is to be of the declared type.
    meta is the served description of the type (a plain dict)"""
    t = meta["typeid"].split("/")[1].split(":")[0]
    if t == "BooleanMeta":
        return type(v) in (bool, np.bool_)
    if t == "StringMeta":
        return isinstance(v, str)
    if t == "ChoiceMeta":
        if isinstance(v, enum.Enum):
            v = v.value
        return isinstance(v, str) and (v in meta["choices"] or (v == "" and not meta["choices"]))
    if t == "NumberMeta":
        return type(v) is getattr(np, meta["dtype"])
    if t in ("BooleanArrayMeta", "NumberArrayMeta"):
        if not isinstance(v, Array):
            return False
        dtype = np.dtype(bool if t == "BooleanArrayMeta" else meta["dtype"])
        if isinstance(v.seq, np.ndarray):
            return v.seq.dtype == dtype and v.seq.ndim == 1
        return len(v.seq) == 0
    if t == "StringArrayMeta":
        return isinstance(v, Array) and all(isinstance(x, str) for x in v)
    if t == "ChoiceArrayMeta":
        return isinstance(v, Array) and all(
            (x.value if isinstance(x, enum.Enum) else x) in meta["choices"] for x in v
        )
    if t == "TableMeta":
        cols = [k for k in meta["elements"] if k != "typeid"]
        if not isinstance(v, Table) or set(v.call_types) != set(cols):
            return False
        if len({len(v[c]) for c in cols}) > 1:
            return False
        return all(is_member(meta["elements"][c], v[c]) for c in cols)
    raise AssertionError("unknown meta %s" % t)


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def convert_number(dtype, v):
    """What an in-range plain number becomes"""
    if v is None:
        v = 0
    if dtype.startswith("float"):
        v = float(v)
        if dtype == "float32":
            v = f32(v)
        return mh.norm(v)
    return int(float(v)) if isinstance(v, float) else int(v)


class Opaque:
    pass


NUMBERS = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64"]


def wrapped(rng, vals, want, dtype):
    """An Array as made by somebody else, of some other type"""
    other = rng.choice(NUMBERS + [dtype])
    typ = getattr(np, other)
    if rng.random() < 0.7:
        v = Array[typ](np.array(vals, dtype=other))
    else:
        v = Array[typ]([typ(x) for x in vals])
    return v, ("keep", want)


def gen_input(rng, name, gen):
    """(input, expectation): expectation is ("keep", plain), ("refuse",) or
    ("any",) meaning: member of the type, or refused"""
    r = rng.random()
    dtype = None
    if name.startswith("num"):
        dtype = name[3:].lower()
    elif name.startswith("arr"):
        dtype = name[3:].lower()
    if r < 0.4:
        v = gen(rng)
        return v, ("keep", mh.norm(v))
    if name == "aBool":
        v, e = rng.choice(
            [
                ("False", ("keep", False)),
                ("false", ("keep", False)),
                ("no", ("keep", False)),
                ("0", ("keep", False)),
                ("1", ("keep", True)),
                ("yes", ("keep", True)),
                ("true", ("keep", True)),
                (0, ("keep", False)),
                (1, ("keep", True)),
                (2.5, ("keep", True)),
                ("", ("keep", False)),
                (None, ("keep", False)),
                (np.bool_(True), ("keep", True)),
                (np.int32(0), ("keep", False)),
                ([], ("any",)),
                ({}, ("any",)),
                (Opaque(), ("any",)),
            ]
        )
        return v, e
    if name == "aString":
        return rng.choice(
            [
                (5, ("keep", "5")),
                (None, ("keep", "")),
                (1.5, ("keep", "1.5")),
                (True, ("keep", "True")),
                ([], ("any",)),
                (b"x", ("any",)),
                (Opaque(), ("any",)),
                (np.str_("abc"), ("any",)),
            ]
        )
    if name in ("aChoice", "anEnum"):
        choices = mh.CHOICES if name == "aChoice" else [f.value for f in mh.Fruit]
        i = rng.randrange(len(choices))
        return rng.choice(
            [
                (i, ("keep", choices[i])),
                (None, ("keep", choices[0])),
                (len(choices), ("refuse",)),
                (-1, ("refuse",)),
                ("nope", ("refuse",)),
                (choices[i] + " ", ("refuse",)),
                (choices[i].upper(), ("refuse",)),
                ("", ("refuse",)),
                ([choices[i]], ("refuse",)),
                ({}, ("refuse",)),
                (Opaque(), ("refuse",)),
                (1.5, ("refuse",)),
                (str(i), ("refuse",)),
                ("APPLE", ("refuse",)),
            ]
        )
    if name.startswith("num"):
        n = rng.randrange(0, 100)
        opts = [
            (n, ("keep", convert_number(dtype, n))),
            (n + 0.75, ("keep", convert_number(dtype, n + 0.75))),
            (str(n), ("keep", convert_number(dtype, n))),
            (None, ("keep", convert_number(dtype, 0))),
            (np.float32(n), ("keep", convert_number(dtype, n))),
            (np.int64(n), ("keep", convert_number(dtype, n))),
            (True, ("keep", convert_number(dtype, 1))),
            ("abc", ("refuse",)),
            ([n, n], ("refuse",)),
            ([n], ("refuse",)),
            ([], ("refuse",)),
            ({}, ("refuse",)),
            ({"a": 1}, ("refuse",)),
            (Opaque(), ("refuse",)),
            (np.array([1, 2]), ("refuse",)),
            ("1,5", ("refuse",)),
            ("0x10", ("refuse",)),
            ("", ("refuse",)),
            (10**30, ("any",)),
            (-1, ("any",)),
            (float("nan"), ("any",)),
        ]
        return rng.choice(opts)
    if name.startswith("arr"):
        vals = [rng.randrange(0, 100) for _ in range(rng.randrange(1, 5))]
        want = [convert_number(dtype, x) for x in vals]
        opts = [
            (tuple(vals), ("keep", want)),
            (np.array(vals, dtype=dtype), ("keep", want)),
            ([str(x) for x in vals], ("keep", want)),
            ([x + 0.5 for x in vals], ("keep", [convert_number(dtype, x + 0.5) for x in vals])),
            (None, ("keep", [])),
            ([], ("keep", [])),
            ((), ("keep", [])),
            (vals[0], ("keep", want[:1])),
            (vals[0] + 0.5, ("keep", [convert_number(dtype, vals[0] + 0.5)])),
            (np.float64(vals[0]), ("keep", want[:1])),
            ("abc", ("refuse",)),
            (vals + ["x"], ("refuse",)),
            ([vals, vals], ("refuse",)),
            ([vals, vals + [1]], ("refuse",)),
            (np.zeros((2, 2), dtype=dtype), ("refuse",)),
            ({}, ("refuse",)),
            ({"a": 1}, ("refuse",)),
            (Opaque(), ("refuse",)),
            ([Opaque()], ("refuse",)),
            (np.array(["a", "b"]), ("refuse",)),
            (str(vals[0]), ("any",)),
            ([None], ("any",)),
            (range(3), ("any",)),
            (np.array(vals, dtype="float64" if dtype != "float64" else "int16"), ("any",)),
            wrapped(rng, vals, want, dtype),
            wrapped(rng, vals, want, dtype),
            wrapped(rng, vals, want, dtype),
        ]
        return rng.choice(opts)
    if name == "boolArray":
        return rng.choice(
            [
                ([1, 0, 1], ("keep", [True, False, True])),
                (np.array([True, False]), ("keep", [True, False])),
                (None, ("keep", [])),
                (True, ("keep", [True])),
                ([[True], [False]], ("refuse",)),
                (Opaque(), ("any",)),
                ("yes", ("any",)),
                ({}, ("any",)),
            ]
        )
    if name == "stringArray":
        return rng.choice(
            [
                (("a", "b"), ("keep", ["a", "b"])),
                ("single", ("keep", ["single"])),
                (None, ("keep", [])),
                ([1, 2], ("refuse",)),
                (["a", None], ("refuse",)),
                (["a", 5], ("refuse",)),
                (Array[str](["a", "b"]), ("keep", ["a", "b"])),
                (Array[str](["a", 5]), ("refuse",)),
                (Array[int]([1, 2]), ("refuse",)),
                (5, ("refuse",)),
                ([["a"]], ("refuse",)),
                ([b"a"], ("refuse",)),
                ({"a": 1}, ("any",)),
            ]
        )
    if name == "choiceArray":
        i = rng.randrange(len(mh.CHOICES))
        return rng.choice(
            [
                ([i, 0], ("keep", [mh.CHOICES[i], mh.CHOICES[0]])),
                ("two", ("keep", ["two"])),
                (None, ("keep", [])),
                (["one", "nope"], ("refuse",)),
                ([99], ("refuse",)),
                (Array[str]([mh.CHOICES[i], "one"]), ("keep", [mh.CHOICES[i], "one"])),
                (Array[str](["one", "nope"]), ("refuse",)),
                (Array[str](["nope", "one"]), ("refuse",)),
                (Array[int]([i]), ("keep", [mh.CHOICES[i]])),
                ("nope", ("refuse",)),
                (5, ("refuse",)),
                ([["one"]], ("refuse",)),
                (["one", ""], ("refuse",)),
            ]
        )
    if name == "aTable":
        n = rng.randrange(1, 4)
        t = mh.gen_table(rng, n)
        bad = dict(t)
        col = rng.choice(sorted(t))
        kind = rng.randrange(9)
        if kind == 0:
            bad.pop(col)
        elif kind == 1:
            bad["extra"] = [0] * n
        elif kind == 2:
            bad[col] = bad[col] + bad[col][:1]
        elif kind == 3:
            bad[col] = bad[col][:-1]
        elif kind == 4:
            bad["num"] = ["zz"] * n
        elif kind == 5:
            bad["pick"] = ["nope"] * n
        elif kind == 6:
            bad["name"] = [5] * n
        elif kind == 7:
            return rng.choice([[1, 2], "str", 5, Opaque(), [t]]), ("refuse",)
        else:
            if rng.random() < 0.5:
                # Legal: typeid as sent by a client, columns in another order
                ok = {k: t[k] for k in sorted(t, reverse=True)}
                ok["typeid"] = "malcolm:core/Table:1.0"
                return ok, ("keep", dict(mh.norm(t), typeid="malcolm:core/Table:1.0"))
            if rng.random() < 0.5:
                # Somebody else's table that happens to have the same columns
                class Theirs(Table):
                    pass

                ob = Theirs()
                for k in t:
                    Theirs.call_types[k] = Anno(k, name=k).set_typ(object, is_array=True)
                    v = t[k]
                    if k == "num":
                        v = Array[np.int64](np.array(v, dtype="int64"))
                    elif k == "pos":
                        v = rng.choice([v, np.array(v, dtype="float64")])
                    setattr(ob, k, v)
                return ob, ("keep", dict(mh.norm(t), typeid="malcolm:core/Table:1.0"))
            return None, ("keep", dict(typeid="malcolm:core/Table:1.0", name=[], on=[], num=[], pos=[], pick=[]))
        if rng.random() < 0.5:
            # As a client would send it
            bad["typeid"] = "malcolm:core/Table:1.0"
        return bad, ("refuse",)
    raise AssertionError(name)


class TypedPart(Part):
    def setup(self, registrar):
        super().setup(registrar)
        self.metas = mh.make_metas()
        self.models = {}
        for n, (meta, gen) in self.metas.items():
            a = meta.create_attribute_model()
            self.models[n] = a
            registrar.add_attribute_model(n, a, self.make_setter(n, a))

    def make_setter(self, n, a):
        def setter(value):
            # The code behind the put must already be given a member
            self.m.check(
                is_member(self.served(n), value),
                "setter-given-non-member",
                lambda: "%s setter was given %r" % (n, value),
            )
            self.m.count("setter_calls")
            a.set_value(value)

        return setter

    def served(self, n):
        return mh.norm(self.models[n].meta.to_dict())


def normalise_table(v):
    if isinstance(v, dict):
        v = dict(v)
        v.setdefault("typeid", "malcolm:core/Table:1.0")
    return v


def attributes(m, rng, idx):
    c = Controller("MRI")
    part = TypedPart("p")
    part.m = m
    c.add_part(part)
    p = mh.make_process()
    m.defer(mh.stop_process, p, 1)
    p.add_controller(c)
    mh.yields(3)
    for name, a in part.models.items():
        m.check(is_member(part.served(name), a.value), "default-non-member", "%s starts as %r" % (name, a.value))
    for step in range(90):
        name = rng.choice(list(part.models))
        a = part.models[name]
        v, expect = gen_input(rng, name, part.metas[name][1])
        before = mh.norm(a.to_dict())
        how = rng.choice(["put", "set", "set_only"])
        err = None
        if how == "put":
            box = []
            req = Put(1, ["MRI", name, "value"], v)
            req.set_callback(box.append)
            c.handle_request(req)
            mh.settle(lambda: box, 20)
            m.require(len(box) == 1, "unanswered", name)
            if isinstance(box[0], Error):
                err = box[0].message
        else:
            try:
                a.set_value(v, set_alarm_ts=how == "set")
            except Exception as e:
                err = e
        tag = "%s %s(%r)" % (name, how, v)
        m.check(
            is_member(part.served(name), a.value),
            "holds-non-member",
            lambda: "%s left %r of type %s" % (tag, a.value, type(a.value)),
        )
        if err is not None:
            m.check(mh.norm(a.to_dict()) == before, "refused-but-changed", lambda: "%s: %s -> %s" % (tag, before, mh.norm(a.to_dict())))
            m.check(expect[0] != "keep", "refused-convertible", lambda: "%s refused: %s" % (tag, err))
            m.count("refused")
        else:
            m.check(expect[0] != "refuse", "accepted-unconvertible", lambda: "%s became %r" % (tag, a.value))
            if expect[0] == "keep":
                got = mh.norm(a.value)
                want = expect[1]
                if name == "aTable":
                    want = normalise_table(want)
                m.check(got == want, "value-altered", lambda: "%s became %r, wanted %r" % (tag, got, want))
            m.count("accepted")
            # Already of the declared type: kept
            again = a.meta.validate(a.value)
            m.check(mh.norm(again) == mh.norm(a.value), "member-altered", tag)
            # What is served has the plain type too
            m.check(isinstance(mh.norm(a.value), type(mh.norm(again))), "plain-type", tag)
        m.distinct(name, how, type(v).__name__, expect[0], err is not None)
    m.sample(dict(field=name, input=repr(v)[:80], expect=str(expect)[:80]))


def changing_types(m, rng, idx):
    """Validation follows the type as currently declared"""
    from malcolm.core import ChoiceArrayMeta, ChoiceMeta, NumberArrayMeta

    meta = ChoiceMeta("c", mh.CHOICES)
    a = meta.create_attribute_model()
    ameta = ChoiceArrayMeta("c", mh.CHOICES)
    for _ in range(10):
        pool = ["w%d" % rng.randrange(12) for _ in range(rng.randrange(1, 6))]
        pool = list(dict.fromkeys(pool))
        meta.set_choices(pool)
        ameta.set_choices(pool)
        for i in range(12):
            w = "w%d" % i
            for mm in (meta, ameta):
                try:
                    got = mh.norm(mm.validate(w if mm is meta else [w]))
                except Exception:
                    got = None
                want = w if mm is meta else [w]
                m.check(
                    got == (want if w in pool else None),
                    "stale-choices",
                    "choices %s, validate(%r) gave %r" % (pool, w, got),
                )
        for i in range(len(pool) + 2):
            try:
                got = mh.norm(meta.validate(i))
            except Exception:
                got = None
            m.check(got == (pool[i] if i < len(pool) else None), "stale-index", "%s %d %r" % (pool, i, got))
        m.count("choice_sets")
    nm = NumberMeta("int32", "n")
    am = NumberArrayMeta("int32", "n")
    for _ in range(6):
        dt = rng.choice(mh.DTYPES)
        nm.set_dtype(dt)
        am.set_dtype(dt)
        v = mh.gen_number(rng, dt)
        d = dict(typeid="malcolm:core/NumberMeta:1.0", dtype=dt)
        m.check(is_member(d, nm.validate(v)) and mh.norm(nm.validate(v)) == mh.norm(v), "dtype-not-followed", "%s %r" % (dt, v))
        d["typeid"] = "malcolm:core/NumberArrayMeta:1.0"
        m.check(is_member(d, am.validate([v])) and mh.norm(am.validate([v])) == [mh.norm(v)], "dtype-not-followed", "%s [%r]" % (dt, v))
        m.distinct("dtype", dt)
    try:
        nm.set_dtype("complex64")
        m.fail("bad-dtype-accepted", "complex64")
    except Exception:
        pass


with Anno("an int"):
    AInt = int
with Anno("a float"):
    AFloat = float
with Anno("a str"):
    AStr = str
with Anno("a bool"):
    ABool = bool
with Anno("a fruit"):
    AFruit = mh.Fruit
with Anno("ints"):
    AInts = Array[int]
with Anno("strs"):
    AStrs = Array[str]
with Anno("the result"):
    AOut = str


class MethodPart(Part):
    calls = None

    def setup(self, registrar):
        super().setup(registrar)
        self.calls = []
        self.model = registrar.add_method_model(self.work)
        self.model2 = registrar.add_method_model(self.arrays)
        self.model3 = registrar.add_method_model(self.lies)

    @add_call_types
    def work(self, i: AInt, s: AStr, f: AFloat = 2.5, b: ABool = True, e: AFruit = mh.Fruit.BANANA) -> AOut:
        self.calls.append(dict(i=i, s=s, f=f, b=b, e=e))
        return "%s" % i

    @add_call_types
    def arrays(self, xs: AInts, names: AStrs = ()) -> AInts:
        self.calls.append(dict(xs=xs, names=names))
        return AInts([int(x) for x in xs])

    @add_call_types
    def lies(self, i: AInt) -> AInts:
        self.calls.append(dict(i=i))
        return self.lie


PARAM = {
    "i": lambda r: r.choice([(5, 5), ("7", 7), (3.0, 3), ("x", None), ([1], None), ({}, None), (True, 1)]),
    "s": lambda r: r.choice([("abc", "abc"), ("", ""), (5, "5"), ("\u2603", "\u2603")]),
    "f": lambda r: r.choice([(1.5, 1.5), (2, 2.0), ("0.25", 0.25), ("x", None), ([1.0, 2.0], None)]),
    "b": lambda r: r.choice([(True, True), (False, False), ("no", False), (1, True), (0, False)]),
    "e": lambda r: r.choice([("apple", "apple"), (1, "banana"), ("pear", None), (mh.Fruit.CHERRY, "cherry"), (7, None)]),
}


def methods(m, rng, idx):
    c = Controller("MRI")
    part = MethodPart("p")
    c.add_part(part)
    p = mh.make_process()
    m.defer(mh.stop_process, p, 1)
    p.add_controller(c)
    mh.yields(3)

    def post(name, params):
        box = []
        req = Post(1, ["MRI", name], params)
        req.set_callback(box.append)
        c.handle_request(req)
        mh.settle(lambda: box, 20)
        m.require(len(box) == 1, "unanswered", name)
        return box[0]

    took_before = mh.norm(part.model.took.to_dict())
    for _ in range(50):
        params, want, ok = {}, dict(f=2.5, b=True, e="banana"), True
        for k in "isfbe":
            if rng.random() < (0.92 if k in "is" else 0.5):
                v, w = PARAM[k](rng)
                params[k] = v
                if w is None:
                    ok = False
                want[k] = w
        if "i" not in params or "s" not in params:
            ok = False
        if rng.random() < 0.1:
            params[rng.choice(["zz", "I", "self", "context"])] = 1
            ok = False
        n = len(part.calls)
        r = post("work", params)
        tag = "work(%r)" % params
        if ok:
            m.check(isinstance(r, Return) and len(part.calls) == n + 1, "good-call-refused", "%s: %r" % (tag, r))
            if len(part.calls) > n:
                got = part.calls[-1]
                m.check(
                    {k: mh.norm(v) for k, v in got.items()} == want,
                    "wrong-arguments",
                    "%s ran with %r, wanted %r" % (tag, got, want),
                )
                els = mh.norm(part.model.meta.takes.to_dict())["elements"]
                for k in params:
                    m.check(is_member(els[k], got[k]), "argument-non-member", "%s: %s=%r" % (tag, k, got[k]))
            took = mh.norm(part.model.took.to_dict())
            m.check(sorted(took["present"]) == sorted(params), "took-present", "%s: %s" % (tag, took["present"]))
            m.check(all(took["value"][k] == want[k] for k in params), "took-value", "%s: %s" % (tag, took["value"]))
            m.check(mh.norm(part.model.returned.to_dict())["value"]["return"] == str(want["i"]), "returned-value", tag)
            took_before = took
            m.count("calls")
        else:
            m.check(isinstance(r, Error), "bad-call-accepted", "%s: %r" % (tag, r))
            m.check(len(part.calls) == n, "bad-call-ran", tag)
            m.check(mh.norm(part.model.took.to_dict()) == took_before, "bad-call-logged", tag)
            m.count("bad_calls")
        m.distinct(sorted(params), ok, sorted((k, type(v).__name__) for k, v in params.items()))
    for _ in range(15):
        xs = rng.choice([[1, 2], [], (3,), 5, ["4"], ["x"], [[1]], None, np.array([1, 2])])
        params = dict(xs=xs)
        n = len(part.calls)
        r = post("arrays", params)
        bad = isinstance(xs, list) and xs in (["x"], [[1]])
        m.check(isinstance(r, Error) == bad, "array-argument", "%r: %r" % (xs, r))
        if not bad and len(part.calls) > n:
            d = dict(typeid="malcolm:core/NumberArrayMeta:1.0", dtype="int64")
            m.check(is_member(d, part.calls[-1]["xs"]), "argument-non-member", "%r" % (part.calls[-1]["xs"],))
    for lie in ("zz", [[1, 2]], Opaque(), ["a"], {"q": 1}):
        part.lie = lie
        r = post("lies", dict(i=1))
        m.check(isinstance(r, Error), "bad-return-accepted", "%r -> %r" % (lie, r))
        m.count("lies")
        d = mh.norm(part.model3.meta.returns.to_dict())["elements"]["return"]
        m.check(
            is_member(d, part.model3.returned.value["return"]),
            "log-non-member",
            "%r logged as %r" % (lie, part.model3.returned.value["return"]),
        )


check = vmon.Check(
    "C04",
    [
        vmon.Scenario("attributes", attributes, quick=800, thorough=4000, timeout=30),
        vmon.Scenario("changing_types", changing_types, quick=150, thorough=400, timeout=30),
        vmon.Scenario("methods", methods, quick=300, thorough=1500, timeout=30),
    ],
    rule="distinct (field type, way of setting, input type, expectation, outcome)",
    required=["accepted", "refused", "setter_calls", "calls", "bad_calls", "lies", "choice_sets"],
    assumptions=["whole numbers outside the range of an integer type are converted as numpy does; only membership is judged for them"],
)
if __name__ == "__main__":
    check.main()
