"""Helpers shared by the harnesses: normalisation, settling, a part with
attributes of every type and value generators."""
import enum
import math

import cothread
import numpy as np
from annotypes import Array, Serializable

from malcolm.core import (
    Alarm,
    AlarmSeverity,
    AlarmStatus,
    Part,
    TimeStamp,
)
from malcolm.core import (
    BooleanArrayMeta,
    BooleanMeta,
    ChoiceArrayMeta,
    ChoiceMeta,
    NumberArrayMeta,
    NumberMeta,
    StringArrayMeta,
    StringMeta,
    TableMeta,
)

INT_RANGE = {
    "int8": (-(2**7), 2**7 - 1),
    "uint8": (0, 2**8 - 1),
    "int16": (-(2**15), 2**15 - 1),
    "uint16": (0, 2**16 - 1),
    "int32": (-(2**31), 2**31 - 1),
    "uint32": (0, 2**32 - 1),
    "int64": (-(2**63), 2**63 - 1),
    "uint64": (0, 2**64 - 1),
}
DTYPES = list(INT_RANGE) + ["float32", "float64"]


def norm(o):
    """Plain Python, comparable with ==, of anything the system serves"""
    if o is None or isinstance(o, (str, bool, int)):
        if isinstance(o, enum.Enum):
            return norm(o.value)
        return o
    if isinstance(o, enum.Enum):
        return norm(o.value)
    if isinstance(o, float):
        o = float(o)
        if math.isnan(o):
            return "<nan>"
        return o
    if isinstance(o, np.bool_):
        return bool(o)
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return norm(float(o))
    if isinstance(o, np.ndarray):
        return [norm(x) for x in o.tolist()]
    if isinstance(o, Array):
        return [norm(x) for x in o.seq]
    if isinstance(o, Serializable):
        return norm(o.to_dict())
    if isinstance(o, dict):
        return {str(k): norm(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, range)):
        return [norm(x) for x in o]
    if isinstance(o, BaseException):
        return "<exc %s>" % o
    if hasattr(o, "to_dict"):
        return norm(o.to_dict())
    return repr(o)


def diff(want, got, path=""):
    if isinstance(want, dict) and isinstance(got, dict):
        out = []
        for k in list(want) + [x for x in got if x not in want]:
            if k not in want:
                out.append("extra %s.%s" % (path, k))
            elif k not in got:
                out.append("missing %s.%s" % (path, k))
            elif want[k] != got[k]:
                out.append(diff(want[k], got[k], path + "." + k))
        return "; ".join(out)[:600]
    return "%s: %r, block has %r" % (path, got, want)


MISSING = object()


def walk(data, path, default=MISSING):
    for p in path:
        if isinstance(data, dict) and p in data:
            data = data[p]
        else:
            return default
    return data


def apply_delta(view, changes):
    """Apply a Delta's changes (already normalised) to a plain view"""
    for change in changes:
        path = change[0]
        if len(change) == 2:
            if not path:
                view = change[1]
            else:
                d = view
                for p in path[:-1]:
                    d = d[p]
                d[path[-1]] = change[1]
        else:
            if not path:
                view = None
            else:
                d = view
                for p in path[:-1]:
                    d = d[p]
                d.pop(path[-1], None)
    return view


def yields(n):
    for _ in range(n):
        cothread.Yield()


def settle(pred=None, steps=400):
    """Let other cothreads run until pred() or for a number of steps"""
    for _ in range(steps):
        if pred is not None and pred():
            return True
        cothread.Yield()
    return pred() if pred is not None else True


def settle_quiet(counter, quiet=15, steps=2000):
    """Run until counter() has not changed for a number of steps"""
    last, n = counter(), 0
    for _ in range(steps):
        cothread.Yield()
        now = counter()
        if now == last:
            n += 1
            if n >= quiet:
                return True
        else:
            last, n = now, 0
    return False


class Fruit(enum.Enum):
    APPLE = "apple"
    BANANA = "banana"
    CHERRY = "cherry"


CHOICES = ["zero", "one", "two", "three"]

STRINGS = [
    "",
    "a",
    "hello world",
    "0",
    "None",
    "caf\u00e9 \u2603 \U0001f600",
    'quo"te\\ back\nnew\ttab',
    "x" * 300,
    "$(macro)",
    "true",
]


def gen_string(rng):
    if rng.random() < 0.4:
        return rng.choice(STRINGS)
    return "".join(
        rng.choice("abcXYZ019 _-.:/\u00e9\u2603") for _ in range(rng.randrange(1, 12))
    )


def gen_int(rng, dtype):
    lo, hi = INT_RANGE[dtype]
    r = rng.random()
    if r < 0.25:
        return rng.choice([lo, hi, 0, 1, hi - 1, lo + 1])
    if r < 0.7:
        return max(lo, min(hi, rng.randrange(-50, 100)))
    return rng.randint(lo, hi)


def gen_float(rng, dtype="float64", finite=False):
    r = rng.random()
    if r < 0.1 and not finite:
        return rng.choice([float("inf"), float("-inf"), float("nan")])
    if r < 0.3:
        v = rng.choice([0.0, -0.0, 1.0, -1.5, 1e-9, 123456.789, 1e20, 0.1])
    else:
        v = rng.uniform(-1000, 1000)
    if dtype == "float32":
        v = float(np.float32(v))
    return v


def gen_number(rng, dtype, finite=False):
    if dtype.startswith("float"):
        return gen_float(rng, dtype, finite)
    return gen_int(rng, dtype)


def make_metas(rng=None):
    """{field name: (meta, generator of valid plain values)}"""
    from collections import OrderedDict

    d = OrderedDict()
    d["aBool"] = (BooleanMeta("bool"), lambda r: r.random() < 0.5)
    d["aString"] = (StringMeta("string"), gen_string)
    d["aChoice"] = (ChoiceMeta("choice", CHOICES), lambda r: r.choice(CHOICES))
    d["anEnum"] = (
        ChoiceMeta("enum", list(Fruit)),
        lambda r: r.choice([f.value for f in Fruit]),
    )
    for dt in DTYPES:
        d["num" + dt.title()] = (
            NumberMeta(dt, "number " + dt),
            lambda r, dt=dt: gen_number(r, dt),
        )
    d["boolArray"] = (
        BooleanArrayMeta("bools"),
        lambda r: [r.random() < 0.5 for _ in range(r.randrange(0, 5))],
    )
    d["stringArray"] = (
        StringArrayMeta("strings"),
        lambda r: [gen_string(r) for _ in range(r.randrange(0, 5))],
    )
    d["choiceArray"] = (
        ChoiceArrayMeta("choices", CHOICES),
        lambda r: [r.choice(CHOICES) for _ in range(r.randrange(0, 5))],
    )
    for dt in ("int8", "uint16", "int32", "int64", "float32", "float64"):
        d["arr" + dt.title()] = (
            NumberArrayMeta(dt, "numbers " + dt),
            lambda r, dt=dt: [gen_number(r, dt) for _ in range(r.randrange(0, 6))],
        )
    d["aTable"] = (make_table_meta(), gen_table)
    return d


def make_table_meta():
    from collections import OrderedDict

    elements = OrderedDict()
    elements["name"] = StringArrayMeta("names")
    elements["on"] = BooleanArrayMeta("ons")
    elements["num"] = NumberArrayMeta("int32", "nums")
    elements["pos"] = NumberArrayMeta("float64", "poss")
    elements["pick"] = ChoiceArrayMeta("picks", CHOICES)
    return TableMeta("table", elements=elements)


def gen_table(r, n=None):
    if n is None:
        n = r.randrange(0, 5)
    return dict(
        name=[gen_string(r) for _ in range(n)],
        on=[r.random() < 0.5 for _ in range(n)],
        num=[gen_int(r, "int32") for _ in range(n)],
        pos=[gen_float(r) for _ in range(n)],
        pick=[r.choice(CHOICES) for _ in range(n)],
    )


def gen_alarm(rng):
    return rng.choice(
        [
            Alarm.ok,
            Alarm(),
            Alarm.major("big %d" % rng.randrange(100)),
            Alarm.invalid("bad %d" % rng.randrange(100)),
            Alarm.disconnected("gone"),
            Alarm(AlarmSeverity.MINOR_ALARM, AlarmStatus.DB_STATUS, "small"),
        ]
    )


def gen_ts(rng):
    return TimeStamp(rng.randrange(0, 2**33), rng.randrange(0, 10**9))


class Inbox:
    """Collects responses, normalised when they arrive"""

    def __init__(self):
        self.all = []

    def __call__(self, response):
        self.all.append(response)


def make_process(name="proc"):
    from malcolm.core import Process

    p = Process(name)
    p.start()
    return p


def stop_process(p, timeout=5):
    try:
        p.stop(timeout=timeout)
    except Exception:
        pass
