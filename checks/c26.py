"""C26: EPICS-backed attributes always show the PV's latest state.

Real blocks of Channel Access parts talk to a simulated PV store. PVs change
value and severity, come and go, and are put to, at random moments; every state
that a subscriber is shown is matched with the history of the PV."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vmon  # noqa

import shutil  # noqa
import tempfile  # noqa

import casim  # noqa
import cothread  # noqa
import mh  # noqa
import numpy as np  # noqa
from malcolm.core import Context, Port, Process, Subscribe  # noqa
from malcolm.modules.builtin.controllers import StatefulController  # noqa
from malcolm.modules.ca import parts as cap  # noqa
from malcolm.modules.pmac import parts as pmacp  # noqa
from malcolm.modules.asyn import parts as asynp  # noqa
from malcolm.modules.system import parts as sysp  # noqa

KINDS = dict(
    double=(cap.CADoublePart, "double", 6),
    long=(cap.CALongPart, "long", 5),
    bool=(cap.CABooleanPart, "long", 5),
    choice=(cap.CAChoicePart, "enum", 3),
    string=(cap.CAStringPart, "string", 0),
    chars=(cap.CACharArrayPart, "chars", 999),
    doubles=(cap.CADoubleArrayPart, "doubles", 6),
    longs=(cap.CALongArrayPart, "longs", 5),
)
THROW = ("double", "long", "bool", "string")  # parts that have a throw argument
DISPLAY = ("double", "doubles")


def gen_value(rng, kind, enums=()):
    if kind == "double":
        return mh.gen_float(rng)
    if kind == "long":
        return mh.gen_int(rng, "int32")
    if kind == "bool":
        return rng.choice([0, 1, 1, 0, 2])
    if kind == "choice":
        return rng.randrange(len(enums))
    if kind == "string":
        return "".join(rng.choice("abc XYZ09_:") for _ in range(rng.randrange(0, 30)))
    if kind == "chars":
        return "".join(rng.choice("abc XYZ09_:") for _ in range(rng.randrange(0, 120)))
    n = rng.choice([0, 1, 2, 5, 40])
    if kind == "doubles":
        return [mh.gen_float(rng) for _ in range(n)]
    return [mh.gen_int(rng, "int32") for _ in range(n)]


def shown(kind, value, enums):
    if kind == "bool":
        return bool(value)
    if kind == "choice":
        return enums[value]
    if kind == "doubles":
        return mh.norm([float(v) for v in value])
    return mh.norm(value)


def boot(m, mri, parts):
    p = Process("proc")
    c = StatefulController(mri)
    for x in parts:
        c.add_part(x)
    p.add_controller(c)
    p.start(timeout=60)
    m.defer(lambda: p.stop(timeout=5))
    return p, c


class Watch:
    """Every state of an attribute that a subscriber is shown"""

    def __init__(self, c, mri, name, cb):
        self.s = Subscribe(id=1, path=[mri, name], delta=False)
        self.cb = cb
        self.s.set_callback(self.got)
        c.handle_request(self.s)

    def got(self, resp):
        if hasattr(resp, "value"):
            v = mh.norm(resp.value)
            ts = v["timeStamp"]
            self.cb(
                v["value"],
                v["alarm"]["severity"],
                (ts["secondsPastEpoch"], ts["nanoseconds"]),
                v["alarm"]["message"],
            )


class Attr:
    """One Channel Access part, with its PVs and what was seen of it"""

    def __init__(self, m, rng, store, i, kind):
        self.m, self.rng, self.store, self.kind = m, rng, store, kind
        self.name = "a%d" % i
        cls, self.pvkind, self.dbr = KINDS[kind]
        self.enums = ["E%d" % j for j in range(rng.randrange(1, 6))]
        if rng.random() < 0.3:
            rng.shuffle(self.enums)
        self.bad = None
        args = dict(name=self.name, description="d")
        self.mode = rng.choice(["ro", "pv", "pair", "suffix"])
        base = "PV:%d" % i
        self.set_pv = None if self.mode == "ro" else base
        rbv = dict(ro=base + ":R", pv=base, pair=base + ":READ", suffix=base + "_RBV")[self.mode]
        if self.mode != "ro":
            args["pv"] = base
        if self.mode in ("ro", "pair"):
            args["rbv"] = rbv
        if self.mode == "suffix":
            args["rbv_suffix"] = "_RBV"
        self.rbv_name = rbv
        args["min_delta"] = rng.choice([0.0, 0.001, 0.004, 0.02])
        self.timeout = rng.choice([None, -1, 3.0, 0.5])
        if self.timeout is not None:
            args["timeout"] = self.timeout
        self.throw = True
        if kind in THROW and rng.random() < 0.3:
            args["throw"] = self.throw = False
        self.display = kind in DISPLAY
        if self.display and rng.random() < 0.3:
            args["display_from_pv"] = self.display = False
        kw = dict(enums=self.enums, severity=rng.choice([0, 0, 1, 2, 3]))
        self.rbv = store.pv(rbv, self.pvkind, self.gen(), **kw)
        self.pv = None
        if self.set_pv:
            self.pv = self.rbv if rbv == base else store.pv(base, self.pvkind, self.gen(), enums=self.enums)
        for p in {self.rbv, self.pv} - {None}:
            p.limits = (rng.uniform(-10, 0), rng.uniform(0, 10))
            p.precision = rng.randrange(0, 9)
            p.units = rng.choice(["mm", "s", "", "counts"])
        if self.pv is not None:
            self.pv.on_put = self.on_put
        self.part = cls(**args)
        self.k = 0  # nothing shown may be older than this entry of the history
        self.last = None
        self.connects = 0
        self.unstamped = 0
        self.frozen = None
        self.seen = []
        self.up = True

    def gen(self):
        return gen_value(self.rng, self.kind, self.enums)

    # the record

    def on_put(self, v):
        rng = self.rng
        if self.pv is self.rbv:
            self.pv.set(v, rng.choice([None, 0, 1]))
            self.put_stamp = self.rbv.stamp
            return
        self.pv.set(v)
        self.store.delay()
        how = rng.random()
        if how < 0.6:
            self.rbv.set(v, rng.choice([None, 0, 2]))
        elif how < 0.8:
            self.rbv.set(self.gen())
        elif how < 0.9:

            def later():
                self.store.delay(20)
                self.rbv.set(v)
                self.store.waiting -= 1

            self.store.waiting += 1
            cothread.Spawn(later, stack_size=0)
        self.put_stamp = self.rbv.stamp
        if rng.random() < 0.1:
            self.rbv.drop() if self.rbv.connected else None

    # the oracle

    def entry_shown(self, j):
        v, sev, ts = self.rbv.history[j]
        if v is None:
            return None
        if self.kind == "choice" and v >= len(self.enums):
            return ("bad", 3, None)
        return (shown(self.kind, v, self.enums), sev, ts)

    def on_update(self, value, sev, ts, message):
        h = self.rbv.history
        old, self.last = self.last, (value, sev, ts, message)
        if old is not None and (old[:3] == self.last[:3]):
            # Something else about it changed
            return
        self.seen.append((value, sev, ts))
        if old is None and not self.up:
            # Not connected yet
            return
        if sev == 4 or (self.kind == "choice" and sev == 3 and message != "PV in alarm state"):
            if sev == 4:
                ok = any(e[0] is None for e in h[self.k:])
                kind = "disconnect"
            else:
                ok = any(self.entry_shown(j) == ("bad", 3, None) for j in range(self.k, len(h)))
                kind = "bad_value"
            self.m.check(ok, "spurious-" + kind, lambda: "%s: %s; since %s" % (self.name, self.last, h[self.k:][-6:]))
            if old is not None:
                self.m.check(old[0] == value, "value-lost", lambda: "%s: %s then %s" % (self.name, old, self.last))
            self.m.count(kind + "_shown")
            return
        for j in range(self.k, len(h)):
            if h[j][2] == ts:
                self.k = j
                want = self.entry_shown(j)
                self.m.check(
                    want == (value, sev, ts), "state",
                    lambda: "%s (%s): shows %s, the PV had %s" % (self.name, self.kind, self.last, want),
                )
                self.m.count("states")
                if sev:
                    self.m.count("alarm_states")
                return
        # From the connection, which has no time
        self.unstamped += 1
        self.m.count("unstamped")
        self.m.check(
            any((self.entry_shown(j) or ())[:2] == (value, sev) for j in range(self.k, len(h))),
            "old-state",
            lambda: "%s (%s): shows %s, the PV had since %s" % (self.name, self.kind, self.last, h[self.k:][-6:]),
        )
        self.m.check(
            self.unstamped <= self.connects, "time", lambda: "%s: shows %s, the PV had since %s" % (self.name, self.last, h[self.k:][-6:])
        )

    def judge(self, attr, where):
        """When every update has been delivered"""
        value, sev = mh.norm(attr.value), mh.norm(attr.alarm.severity)
        ts = (int(attr.timeStamp.secondsPastEpoch), int(attr.timeStamp.nanoseconds))
        want = self.entry_shown(-1)
        text = lambda: "%s %s (%s, %s): shows %s %s %s, PV has %s; broken %s" % (
            where, self.name, self.kind, self.mode, value, sev, ts, self.rbv.history[-4:], self.store.broken,
        )
        if want is None:
            self.m.check(sev == 4, "not-disconnected", text)
            self.m.count("final_disconnected")
        elif want[0] == "bad" and want[2] is None:
            self.m.check(sev == 3, "bad-value", text)
            self.m.count("final_bad")
        else:
            self.m.check((value, sev, ts) == want, "stale", text)
            if not sev:
                self.m.check(attr.alarm.message == "", "message", text)
            self.m.count("final")
        m_ = self.m
        m_.distinct(self.kind, self.mode, where, want is None, sev, len(self.seen) > 3)


def scalars(m, rng, idx):
    store = casim.install(m, rng)
    kinds = list(KINDS)
    attrs = []
    for i in range(rng.randrange(1, 4)):
        attrs.append(Attr(m, rng, store, i, kinds[(idx + i) % len(kinds)] if i == 0 else rng.choice(kinds)))
    missing = None
    if rng.random() < 0.3:
        missing = rng.choice(attrs)
        pv = rng.choice([x for x in (missing.rbv, missing.pv) if x is not None])
        pv.drop()
        if missing.throw or pv is missing.rbv:
            missing.gone = pv
        else:
            pv.restore()
            missing = None
    for a in attrs:
        a.connects += 1
    mri = "B"
    p, c = boot(m, mri, [a.part for a in attrs])
    ctx = Context(p)
    view = ctx.block_view(mri)
    for a in attrs:
        a.up = view.state.value == "Ready"
        a.watch = Watch(c, mri, a.name, a.on_update)
    store.quiet()

    def reset():
        for a in attrs:
            a.connects += 1
        try:
            view.reset()
        except Exception as e:
            return e
        return None

    def must_connect(where):
        for a in attrs:
            gone = [x for x in (a.rbv, a.pv) if x is not None and not x.connected]
            if gone and a.throw:
                return False
            h = a.rbv.history[-1]
            if a.kind == "choice" and h[0] is not None and h[0] >= len(a.enums):
                return False
        return True

    def check_connected(where, err=None):
        state = view.state.value
        if must_connect(where):
            m.check(state == "Ready", "not-connected", lambda: "%s: %s %s %s" % (where, state, view.health.value, err))
            m.count("connected")
            for a in attrs:
                at = view[a.name]
                if not a.rbv.connected:
                    continue
                if a.display:
                    d = at.meta.display
                    m.check(
                        (d.limitLow, d.limitHigh, d.precision, d.units)
                        == (a.rbv.limits[0], a.rbv.limits[1], a.rbv.precision, a.rbv.units),
                        "display", lambda: "%s: %s" % (where, d.to_dict()),
                    )
                    m.count("displays")
                if a.kind == "choice":
                    m.check(list(at.meta.choices) == a.enums, "choices", lambda: "%s: %s %s" % (where, list(at.meta.choices), a.enums))
            return True
        m.check(state == "Fault", "connected-without-pv", lambda: "%s: %s" % (where, state))
        m.count("refused")
        return False

    up = check_connected("start")
    if not up:
        for a in attrs:
            for x in (a.rbv, a.pv):
                if x is not None:
                    x.restore()
        store.quiet()
        up = check_connected("reset", reset())
        m.count("recovered")
    elif missing is not None:
        m.count("not_there_at_start")

    def judge(where):
        store.quiet()
        for a in attrs:
            a.judge(view[a.name], where)

    if up:
        judge("start")
    for step in range(rng.randrange(4, 16)):
        a = rng.choice(attrs)
        op = rng.random()
        if op < 0.35:
            for _ in range(rng.choice([1, 1, 2, 6])):
                x = rng.choice(attrs) if rng.random() < 0.3 else a
                if not x.rbv.connected:
                    continue
                v = x.gen() if rng.random() < 0.8 else None
                if x.kind == "choice" and rng.random() < 0.07:
                    v = len(x.enums)
                x.rbv.set(v, rng.choice([None, 0, 0, 1, 2, 3]))
                if rng.random() < 0.5:
                    mh.yields(rng.randrange(0, 6))
                m.count("pv_updates")
        elif op < 0.45:
            a.rbv.drop()
            m.count("drops")
            if rng.random() < 0.4:
                mh.yields(rng.randrange(0, 5))
                a.rbv.restore()
        elif op < 0.55:
            for x in (a.rbv, a.pv):
                if x is not None:
                    x.restore()
        elif op < 0.82:
            if a.pv is None:
                continue
            raw = a.gen()
            value = shown(a.kind, raw, a.enums)
            if a.kind == "double" and rng.random() < 0.2:
                value = raw = 3
            if a.kind in ("doubles", "longs"):
                value = rng.choice([list, np.array])(np.array(raw, dtype="f8" if a.kind == "doubles" else "i4"))
            if a.kind == "double":
                value = raw
            if a.kind == "bool":
                raw = int(bool(raw))
            drop = rng.random() < 0.1
            if drop:
                a.pv.drop()
            was_up, rbv_up = a.pv.connected, a.rbv.connected
            n0 = len(store.puts)
            err = None
            try:
                view[a.name].put_value(value)
            except Exception as e:
                err = e
            mine = store.puts[n0:]
            m.count("puts")
            ok = (
                len(mine) == 1
                and mine[0]["pv"] == a.set_pv
                and mine[0]["wait"] is True
                and mine[0]["timeout"] == (10.0 if a.timeout is None else None if a.timeout < 0 else a.timeout)
            )
            m.check(ok, "caput", lambda: "%s (%s, timeout %s): %s" % (a.name, a.kind, a.timeout, mine))
            try:
                got = store.convert(a.pv, mine[0]["value"], mine[0]["datatype"])
            except Exception as e:
                got = e
            m.check(
                mh.norm(got) == mh.norm(raw), "caput-value",
                lambda: "%s (%s): asked for %r, wrote %r" % (a.name, a.kind, raw, mine[0]["value"]),
            )
            if not was_up:
                m.check(err is not None, "put-lost", lambda: "%s: no error though PV is not there" % a.name)
                m.count("put_refused")
            elif a.rbv.connected and rbv_up:
                bad = a.kind == "choice" and any(e[0] is not None and e[0] >= len(a.enums) for e in a.rbv.history[-3:])
                m.check(
                    err is None or not a.rbv.connected or bad or not all(e[0] is not None for e in a.rbv.history[-3:]), "put-failed",
                    lambda: "%s (%s): %r" % (a.name, a.kind, err),
                )
                if err is None:
                    # Shows what was read back, or something newer
                    m.count("readback")
                    at = view[a.name]
                    ts = (int(at.timeStamp.secondsPastEpoch), int(at.timeStamp.nanoseconds))
                    m.check(
                        ts >= a.put_stamp, "readback",
                        lambda: "%s (%s): shows %s, PV has %s" % (a.name, a.kind, ts, a.rbv.history[-3:]),
                    )
        elif op < 0.92:
            view.disable()
            store.quiet()
            n = [len(x.seen) for x in attrs]
            before = [mh.norm(view[x.name].to_dict()) for x in attrs]
            for x in attrs:
                if rng.random() < 0.8:
                    x.rbv.set(x.gen(), rng.choice([0, 1, 2]))
                if rng.random() < 0.2:
                    x.rbv.drop()
                if x.kind == "choice" and rng.random() < 0.5 and x.enums:
                    # An IOC that restarts with other choices
                    x.enums = ["N%d" % j for j in range(len(x.enums) + rng.randrange(0, 3))]
                    x.rbv.enums = x.enums
                    if x.pv is not None:
                        x.pv.enums = x.enums
                    x.rbv.set(x.gen())
                if x.display:
                    x.rbv.limits = (rng.uniform(-10, 0), rng.uniform(0, 10))
            store.quiet()
            m.check(
                [mh.norm(view[x.name].to_dict()) for x in attrs] == before and n == [len(x.seen) for x in attrs],
                "updated-while-disabled", lambda: "%s" % before,
            )
            m.check(all(not x.rbv.subs for x in attrs), "still-subscribed", lambda: "%s" % [len(x.rbv.subs) for x in attrs])
            m.count("disables")
            for x in attrs:
                x.k = len(x.rbv.history) - 1
            err = reset()
            if not check_connected("reset", err):
                for x in attrs:
                    for y in (x.rbv, x.pv):
                        if y is not None:
                            y.restore()
                    if x.kind == "choice" and x.rbv.value >= len(x.enums):
                        x.rbv.set(0)
                store.quiet()
                for x in attrs:
                    x.k = len(x.rbv.history) - 1
                if not check_connected("second reset", reset()):
                    return
            store.quiet()
            m.check(all(len(x.rbv.subs) == 1 for x in attrs), "subscriptions", lambda: "%s %s" % ([len(x.rbv.subs) for x in attrs], store.broken))
        else:
            pass
        if rng.random() < 0.4:
            judge("mid")
        else:
            mh.yields(rng.randrange(0, 10))
    judge("end")
    m.count("merged", store.merged)


def tables(m, rng, idx):
    store = casim.install(m, rng)
    n = rng.randrange(1, 5)
    length = [rng.choice([0, 1, 3, 10])]
    pvs = []

    def gen():
        return [mh.gen_float(rng) for _ in range(length[0])]

    for i in range(n):
        pv = store.pv("T:%d" % i, "doubles", gen(), severity=rng.choice([0, 0, 1, 2, 3]))
        pv.limits = (rng.uniform(-10, 0), rng.uniform(0, 10))
        pv.units = rng.choice(["mm", "s", ""])
        pvs.append(pv)
    names = ["col%d" % i for i in range(n)]
    order = list(range(n))
    display = rng.random() < 0.7
    part = cap.CAWaveformTablePart(
        name="table", description="d", pv_list=[x.name for x in pvs], name_list=names,
        min_delta=rng.choice([0.0, 0.001, 0.01]), display_from_pv=display,
    )
    if rng.random() < 0.2:
        rng.choice(pvs).drop()
    p, c = boot(m, "B", [part])
    ctx = Context(p)
    view = ctx.block_view("B")
    store.quiet()
    if any(not x.connected for x in pvs):
        m.check(view.state.value == "Fault", "connected-without-pv", lambda: view.state.value)
        m.count("refused")
        for x in pvs:
            x.restore()
        view.reset()
        store.quiet()
    m.check(view.state.value == "Ready", "not-connected", lambda: "%s %s" % (view.state.value, view.health.value))
    if display:
        for i in order:
            d = view.table.meta.elements[names[i]].display
            m.check(
                (d.limitLow, d.limitHigh, d.units) == (pvs[i].limits[0], pvs[i].limits[1], pvs[i].units),
                "display", lambda: "column %d: %s" % (i, d.to_dict()),
            )
    shown_states = []

    def on_update(value, sev, ts, message):
        shown_states.append((sev, message))
        if sev == 4:
            m.count("disconnect_shown")
            return
        cols = [value[k] for k in names]
        m.check(len({len(x) for x in cols}) == 1, "ragged", lambda: "%s" % [len(x) for x in cols])
        for i, col in enumerate(cols):
            m.check(
                any(e[0] is not None and mh.norm([float(v) for v in e[0]]) == col for e in pvs[i].history),
                "column", lambda: "column %d shows %s, never in PV %s" % (i, col, pvs[i].history[-4:]),
            )
        m.count("states")

    watch = Watch(c, "B", "table", on_update)  # noqa

    def judge(where):
        store.quiet()
        at = view.table
        sev = mh.norm(at.alarm.severity)
        text = lambda: "%s: shows %s severity %s; PVs %s; broken %s" % (
            where, mh.norm(at.value), sev, [x.history[-3:] for x in pvs], store.broken,
        )
        if any(not x.connected for x in pvs):
            m.check(sev == 4, "not-disconnected", text)
            m.count("final_disconnected")
            return
        if len({len(x.value) for x in pvs}) > 1:
            m.count("ragged_pvs")
            return
        v = mh.norm(at.value)
        want = [mh.norm([float(y) for y in x.value]) for x in pvs]
        m.check([v[k] for k in names] == want, "stale", text)
        m.check(sev == max(x.severity for x in pvs), "severity", text)
        ts = (int(at.timeStamp.secondsPastEpoch), int(at.timeStamp.nanoseconds))
        m.check(ts in [x.stamp for x in pvs], "time", text)
        m.count("final")
        m.distinct(n, length[0], sev, where)

    judge("start")
    for step in range(rng.randrange(4, 14)):
        op = rng.random()
        x = rng.choice(pvs)
        if op < 0.45:
            if x.connected:
                x.set(gen() if rng.random() < 0.7 and len(x.value) == length[0] else None, rng.choice([None, 0, 0, 1, 2, 3]))
                m.count("pv_updates")
        elif op < 0.6:
            # The number of points changes, one PV at a time
            length[0] = rng.choice([0, 1, 2, 5])
            todo = list(pvs)
            rng.shuffle(todo)
            for y in todo:
                if y.connected:
                    y.set(gen())
                if rng.random() < 0.5:
                    mh.yields(rng.randrange(1, 20))
            for y in todo:
                y.value = y.value if len(y.value) == length[0] else gen()
            m.count("lengths")
        elif op < 0.72:
            x.drop()
            m.count("drops")
        elif op < 0.85:
            for y in pvs:
                y.restore()
        elif op < 0.93:
            for y in pvs:
                y.restore()
            view.disable()
            store.quiet()
            k = len(shown_states)
            x.set(gen())
            store.quiet()
            m.check(len(shown_states) == k and all(not y.subs for y in pvs), "updated-while-disabled", lambda: "%s" % shown_states)
            m.count("disables")
            view.reset()
            m.check(view.state.value == "Ready", "not-connected", lambda: "%s" % view.health.value)
        if rng.random() < 0.5:
            judge("mid")
    for y in pvs:
        y.restore()
    judge("end")


def actions(m, rng, idx):
    store = casim.install(m, rng)
    pv = store.pv("A:GO", "long", 0)
    kw = dict(name="go", description="d", pv="A:GO", value=rng.choice([1, 0, 7]))
    value = kw["value"]
    if rng.random() < 0.3:
        kw["wait"] = False
    with_status = rng.random() < 0.75
    good = "Good"
    status = message = None
    if with_status:
        if rng.random() < 0.5:
            status = store.pv("A:STAT", "string", "Idle")
        else:
            status = store.pv("A:STAT", "enum", 0, enums=["Idle", "Busy", "Good", "Bad"])
        kw.update(status_pv="A:STAT", good_status=good, status_timeout=1)
        if rng.random() < 0.6:
            message = store.pv("A:MSG", "chars", "nothing yet")
            kw["message_pv"] = "A:MSG"
    throw = rng.random() < 0.6
    kw["throw"] = throw
    missing = None
    if rng.random() < 0.3:
        missing = rng.choice([x for x in (pv, status, message) if x is not None])
        missing.drop()
    plan = []

    def st(text):
        status.set(status.enums.index(text) if status.kind == "enum" else text)

    def on_put(v):
        pv.set(v)
        for when, what, msg in plan:
            if when == "before":
                store.delay()
                if message is not None:
                    message.set(msg)
                st(what)

        def later():
            for when, what, msg in plan:
                if when == "after":
                    store.delay(30)
                    if message is not None:
                        message.set(msg)
                    st(what)
            store.waiting -= 1

        if any(w == "after" for w, _, _ in plan):
            store.waiting += 1
            cothread.Spawn(later, stack_size=0)

    pv.on_put = on_put
    p, c = boot(m, "B", [cap.CAActionPart(**kw)])
    ctx = Context(p)
    view = ctx.block_view("B")
    hidden = lambda: "method:hidden" in [str(t) for t in view.go.meta.tags]
    if missing is not None:
        if throw:
            m.check(view.state.value == "Fault", "connected-without-pv", lambda: view.state.value)
            m.count("refused")
        else:
            m.check(view.state.value == "Ready" and hidden(), "not-hidden", lambda: "%s %s" % (view.state.value, view.health.value))
            m.count("hidden")
        missing.restore()
        try:
            if not throw:
                view.disable()
            view.reset()
        except Exception as e:
            m.check(False, "not-connected", "%r" % e)
    m.check(view.state.value == "Ready", "not-connected", lambda: "%s" % view.health.value)
    m.check(not hidden(), "hidden", "the method is hidden though the PVs are there")
    for k in range(rng.randrange(1, 5)):
        del plan[:]
        ok = True
        msg = "text %d" % k
        if with_status:
            ok = rng.random() < 0.75
            for _ in range(rng.randrange(0, 3)):
                plan.append((rng.choice(["before", "after"]), rng.choice(["Busy", "Idle"]), "going"))
            plan.sort(key=lambda t: t[0] == "after")
            when = "after" if plan and plan[-1][0] == "after" else rng.choice(["before", "after"])
            plan.append((when, good if ok else rng.choice(["Bad", "Idle"]), msg))
            st("Idle")
        n0 = len(store.puts)
        err = None
        try:
            r = view.go()
        except Exception as e:
            err = e
        mine = store.puts[n0:]
        m.count("calls")
        m.check(
            len(mine) == 1 and mine[0]["pv"] == "A:GO" and mine[0]["value"] == value
            and mine[0]["wait"] == kw.get("wait", True) and mine[0]["timeout"] is None,
            "caput", lambda: "%s" % mine,
        )
        if ok:
            m.check(err is None, "action-failed", lambda: "%r; plan %s" % (err, plan))
            m.count("action_ok")
        else:
            m.check(
                err is not None and plan[-1][1] in str(err) and (message is None or msg in str(err)),
                "action-not-failed", lambda: "%r; plan %s" % (err, plan),
            )
            m.count("action_bad")
        if status is not None:
            m.check(not status.subs, "subscription-left", "after %d calls" % (k + 1))
        m.distinct(with_status, message is not None, ok, [x[:2] for x in plan], kw.get("wait", True))
        store.quiet()


AXES = list("ABCUVWXYZ")


def motors(m, rng, idx):
    store = casim.install(m, rng)
    zero = rng.choice(["", "None", "ANYTHING"])
    ports = [zero] + ["CS%d" % i for i in range(1, rng.randrange(2, 5))]
    kw = dict(enums=ports)
    port = store.pv("M:CsPort", "enum", 0, **kw)
    axis = store.pv("M:CsAxis", "string", "")
    rport = store.pv("M:CsPort_RBV", "enum", rng.randrange(len(ports)), **kw)
    raxis = store.pv("M:CsAxis_RBV", "string", rng.choice(AXES + ["I", ""]))
    out = store.pv("M.OUT", "string", "@asyn(BRICK,%d)" % rng.randrange(1, 17))
    cout = store.pv("N.OUT", "string", "@asyn(CSP, %d)" % rng.randrange(1, 10))
    csp = store.pv("CS:Port", "string", "CS1")
    asyn = store.pv("ASYN:Port", "string", "DET.PORT")
    pvs = [rport, raxis, out, cout, csp, asyn]
    accept = [True]

    def put_port(v):
        port.set(v)
        store.delay()
        rport.set(v) if accept[0] else None

    def put_axis(v):
        axis.set(v)
        store.delay()
        raxis.set(v) if accept[0] else None

    port.on_put, axis.on_put = put_port, put_axis
    p = Process("proc")
    parts = [
        [pmacp.RawMotorSinkPortsPart("M")],
        [pmacp.CompoundMotorSinkPortsPart("cs", "N.OUT")],
        [pmacp.CSSourcePortsPart("port", "CS:Port")],
        [asynp.AsynSourcePortPart("port", "d", "ASYN:Port", Port.NDARRAY)],
    ]
    for name, ps in zip(["RAW", "COMP", "CS", "ASYN"], parts):
        c = StatefulController(name)
        for x in ps:
            c.add_part(x)
        p.add_controller(c)
    p.start(timeout=60)
    m.defer(lambda: p.stop(timeout=5))
    ctx = Context(p)
    raw, comp, cs, det = [ctx.block_view(n) for n in ("RAW", "COMP", "CS", "ASYN")]

    def alarm(a):
        return mh.norm(a.alarm.severity)

    def tags_ok(where):
        # As of when they connected
        for k in AXES + ["I"]:
            t = [x for x in cs[k.lower()].meta.tags if x.startswith("sourcePort:")]
            m.check(t == ["sourcePort:motor:%s,%s" % (csp.value, k)], "cs-tags", lambda: "%s: %s" % (where, t))
        t = [x for x in det.port.meta.tags if x.startswith("sourcePort:")]
        m.check(t == ["sourcePort:NDArray:%s" % asyn.value], "asyn-tags", lambda: "%s: %s" % (where, t))
        m.count("tags")

    def judge(where):
        store.quiet()
        text = lambda: "%s: port %s axis %s of %s shows %r severity %s; broken %s" % (
            where, rport.history[-1], raxis.history[-1], ports, raw.cs.value, alarm(raw.cs), store.broken,
        )
        bad = not rport.connected or not raxis.connected or raxis.value not in AXES + ["I", ""]
        if bad:
            m.check(raw.cs.value == "" and alarm(raw.cs) == 3, "raw-bad", text)
            m.count("bad")
        elif rport.value and raxis.value:
            m.check(raw.cs.value == "%s,%s" % (ports[rport.value], raxis.value) and alarm(raw.cs) == 0, "raw", text)
            m.count("assigned")
        else:
            m.check(raw.cs.value == "", "raw-none", text)
            if not rport.value:
                m.check(alarm(raw.cs) == 0, "raw-none-alarm", text)
            m.count("unassigned")
        if out.connected:
            want = out.value[6:-1].split(",")
            m.check(
                raw.pmac.value == want[0] and raw.axisNumber.value == int(want[1])
                and alarm(raw.pmac) == alarm(raw.axisNumber) == 0,
                "raw-out", lambda: "%s: %s shows %s %s" % (where, out.value, raw.pmac.value, raw.axisNumber.value),
            )
        else:
            m.check(alarm(raw.pmac) == 3 and alarm(raw.axisNumber) == 3, "raw-out-alarm", lambda: "%s" % where)
        if cout.connected:
            a, b = cout.value[6:-1].split(",")
            m.check(
                comp.cs.value == "%s,%s" % (a.strip(), AXES[int(b) - 1]) and alarm(comp.cs) == 0,
                "compound", lambda: "%s: %s shows %s" % (where, cout.value, comp.cs.value),
            )
        else:
            m.check(alarm(comp.cs) == 4 and comp.cs.value == "", "compound-gone", lambda: where)
        for v, x in ((cs.port, csp), (det.port, asyn)):
            if x.connected:
                m.check(v.value == x.value and alarm(v) == x.severity, "port", lambda: "%s %s %s" % (where, v.value, x.value))
            else:
                m.check(alarm(v) == 4, "port-gone", lambda: where)
        m.distinct(where, bad, bool(rport.value), raxis.value in AXES, out.connected, cout.connected)

    store.quiet()
    for b in (raw, comp, cs, det):
        m.check(
            b.state.value == "Ready", "not-connected",
            lambda: "%s %s: port %s axis %s of %s" % (b.mri, b.health.value, rport.value, raxis.value, ports),
        )
    judge("start")
    tags_ok("start")
    for step in range(rng.randrange(4, 14)):
        op = rng.random()
        if op < 0.4:
            x = rng.choice(pvs)
            if x.connected:
                if x is rport:
                    x.set(rng.randrange(len(ports)))
                elif x is raxis:
                    x.set(rng.choice(AXES + ["I", "", "Q"]))
                elif x is out:
                    x.set("@asyn(%s,%d)" % (rng.choice(["BRICK", "B2 "]).strip(), rng.randrange(1, 33)))
                elif x is cout:
                    x.set("@asyn(%s, %d)" % (rng.choice(["CSP", "CS2"]), rng.randrange(1, 10)))
                else:
                    x.set(rng.choice(["CS1", "P2", "P.3"]), rng.choice([0, 0, 1, 2]))
        elif op < 0.5:
            rng.choice(pvs).drop()
            m.count("drops")
        elif op < 0.6:
            for x in pvs:
                x.restore()
        elif op < 0.85:
            want = rng.choice([""] + ["%s,%s" % (q, a) for q in ports[1:] for a in AXES + ["I"]])
            if not (rport.connected and raxis.connected and out.connected):
                continue
            store.quiet()
            accept[0] = rng.random() < 0.8
            n0 = len(store.puts)
            raw.cs.put_value(want)
            got = {x["pv"]: x["value"] for x in store.puts[n0:]}
            q, a = want.split(",") if want else (zero, "")
            m.check(
                got == {"M:CsPort": ports.index(q) if want else 0, "M:CsAxis": a} and all(x["wait"] for x in store.puts[n0:]),
                "raw-caput", lambda: "%r: %s" % (want, got),
            )
            m.count("puts")
            judge("put")
        else:
            for x in pvs:
                x.restore()
            for b in (raw, comp, cs, det):
                b.disable()
            store.quiet()
            m.check(all(not x.subs for x in pvs), "still-subscribed", "")
            before = [mh.norm(b.to_dict()) for b in (raw, comp, cs, det)]
            rport.set(rng.randrange(len(ports)))
            csp.set(rng.choice(["CS1", "P2", "P3"]))
            asyn.set(rng.choice(["CS1", "P2", "P3"]))
            store.quiet()
            m.check([mh.norm(b.to_dict()) for b in (raw, comp, cs, det)] == before, "updated-while-disabled", "")
            for b in (raw, comp, cs, det):
                try:
                    b.reset()
                except Exception as e:
                    m.check(False, "not-connected", "%s %r: port %s axis %s of %s" % (b.mri, e, rport.value, raxis.value, ports))
            tags_ok("reset")
            m.count("resets")
        if rng.random() < 0.5:
            judge("mid")
    judge("end")


def iocs(m, rng, idx):
    store = casim.install(m, rng)
    root = tempfile.mkdtemp(prefix="vmon-ioc-")
    m.defer(lambda: shutil.rmtree(root, ignore_errors=True))
    dirs = {}

    def make(name):
        os.makedirs(os.path.join(root, name, "configure"))
        deps, n = [], rng.randrange(1, 6)
        order = list(range(n))
        rng.shuffle(order)
        vals = {}
        for i in range(n):
            # Only refers to those before it in the shuffled order
            v = rng.choice(["/prod/%d", "/dls_sw/work/%d"]) % i
            earlier = order[: order.index(i)]
            if earlier and rng.random() < 0.6:
                v = "$(M%d)/x%d" % (rng.choice(earlier), i)
            vals[i] = v
        lines = []
        for i in range(n):
            if rng.random() < 0.3:
                lines.append("# comment M9=1")
            lines.append("M%d%s%s" % (i, rng.choice(["=", " = ", "= "]), vals[i]))
        if rng.random() < 0.3:
            lines.append("-include something")

        def expand(v):
            for _ in range(20):
                for i in range(n):
                    v = v.replace("$(M%d)" % i, vals[i])
            return v

        with open(os.path.join(root, name, "configure", "RELEASE"), "w") as f:
            f.write("\n".join(lines) + "\n")
        dirs[name] = (["M%d" % i for i in range(n)], [expand(vals[i]) for i in range(n)])

    make("ioc1")
    make("ioc2")
    cut = len(root) - 3
    ver = store.pv("I:DLSVER", "string", rng.choice(["4-5", "work", "Other"]))
    d1 = store.pv("I:APP_DIR1", "string", "a")
    d2 = store.pv("I:APP_DIR2", "string", "b")
    stat = store.pv("I:STATUS", "string", "Running")
    arch = store.pv("I:KERNEL_VERS", "string", "Linux 3.10")
    pvs = [ver, d1, d2, stat, arch]

    def set_dir(name):
        full = os.path.join(root, name)
        d1.set(full[:cut])
        if rng.random() < 0.5:
            mh.yields(rng.randrange(0, 9))
        d2.set(full[cut:])

    set_dir(rng.choice(["ioc1", "ioc2", "nowhere"]))
    for x in pvs:
        if rng.random() < 0.2:
            x.drop()
    import malcolm.modules.system.parts.iociconpart as mod

    icons = os.path.join(os.path.dirname(mod.__file__), "..", "icons")
    svg = lambda n: open(os.path.join(icons, n)).read()
    initial = os.path.join(root, "initial.svg")
    with open(initial, "w") as f:
        f.write("<svg>initial</svg>")
    p, c = boot(m, "B", [sysp.DirParsePart("dir", "I"), sysp.IocIconPart("I", initial)])
    ctx = Context(p)
    view = ctx.block_view("B")
    last = [None]

    def judge(where):
        store.quiet()
        m.check(view.state.value == "Ready", "not-ready", lambda: "%s %s" % (where, view.health.value))
        h, sev = view.health.value, mh.norm(view.health.alarm.severity)
        text = lambda: "%s: version %s, status %s: health %r %s; broken %s" % (
            where, ver.history[-3:], stat.history[-3:], h, sev, store.broken,
        )
        if ver.connected:
            if ver.value.lower() in ("work", "other"):
                m.check((h, sev) == ("IOC running from non-prod area", 1), "health", text)
                m.count("work")
            else:
                m.check((h, sev) == ("OK", 0), "health", text)
                m.count("prod")
        elif stat.connected:
            m.check((h, sev) == ("IOC not running (procServ enabled)", 4), "health-ioc-down", text)
            m.count("ioc_down")
        else:
            m.check((h, sev) == ("neither IOC nor procServ are running", 3), "health-all-down", text)
            m.count("all_down")
        for name, x in (("dlsVersion", ver), ("dir1", d1), ("dir2", d2), ("autosaveStatus", stat), ("hostOs", arch)):
            a = view[name]
            s = mh.norm(a.alarm.severity)
            m.check(
                (a.value == x.value and s == x.severity) if x.connected else s == 4, "stale",
                lambda: "%s %s: %r %s, PV %s" % (where, name, a.value, s, x.history[-3:]),
            )
        if d1.connected and d2.connected:
            name = os.path.relpath(d1.value + d2.value, root)
            dep = view.dependencies
            if name in dirs:
                last[0] = dirs[name]
                m.check(mh.norm(dep.alarm.severity) == 0, "dir-alarm", lambda: "%s %s" % (where, dep.alarm.to_dict()))
                m.count("dirs_found")
            else:
                m.check(mh.norm(dep.alarm.severity) == 1, "dir-no-alarm", lambda: "%s %s" % (where, dep.alarm.to_dict()))
                m.count("dirs_lost")
            if name in dirs:
                v = mh.norm(dep.value)
                m.check(
                    (v["module"], v["path"]) == last[0], "dependencies", lambda: "%s: %s, not %s" % (where, v, last[0])
                )
        want = svg_initial = "<svg>initial</svg>"
        if arch.connected:
            a = arch.value.upper()
            want = svg(
                "win_epics.svg" if a.startswith("WINDOWS") else "linux_epics.svg" if a.startswith("LINUX")
                else "vx_epics.svg" if a.startswith("WIND") else "epics-logo.svg"
            )
        m.check(view.icon.value == want, "icon", lambda: "%s: %s shows %s" % (where, arch.history[-2:], view.icon.value[:60]))
        m.distinct(where, ver.connected, stat.connected, arch.connected, sev)

    judge("start")
    for step in range(rng.randrange(3, 12)):
        op = rng.random()
        if op < 0.5:
            x = rng.choice(pvs)
            if not x.connected:
                continue
            if x is ver:
                x.set(rng.choice(["4-5", "work", "WORK", "other", "6-1", ""]))
            elif x is stat:
                x.set(rng.choice(["Running", "Shutdown"]))
            elif x is arch:
                x.set(rng.choice(["Linux", "windows 7", "WIND version", "Solaris", ""]))
            else:
                d1.restore(), d2.restore()
                set_dir(rng.choice(["ioc1", "ioc2", "nowhere"]))
        elif op < 0.72:
            for x in pvs if rng.random() < 0.3 else [rng.choice(pvs)]:
                x.drop()
            m.count("drops")
        elif op < 0.88:
            for x in pvs if rng.random() < 0.5 else [rng.choice(pvs)]:
                x.restore()
        else:
            view.disable()
            store.quiet()
            m.check(all(not x.subs for x in pvs), "still-subscribed", "")
            view.reset()
            m.count("resets")
        if rng.random() < 0.6:
            judge("mid")
    judge("end")


check = vmon.Check(
    "C26",
    [
        vmon.Scenario("scalars", scalars, quick=960, thorough=6000, timeout=60),
        vmon.Scenario("tables", tables, quick=320, thorough=3000, timeout=60),
        vmon.Scenario("actions", actions, quick=112, thorough=1000, timeout=60),
        vmon.Scenario("motors", motors, quick=240, thorough=2000, timeout=60),
        vmon.Scenario("iocs", iocs, quick=240, thorough=2000, timeout=60),
    ],
    rule="Distinct (kind, way the PVs are given, moment, connected, severity), (columns, length, severity), (statuses), (assignments)",
    required=[
        "states", "alarm_states", "disconnect_shown", "final", "final_disconnected", "displays",
        "connected", "refused", "recovered", "not_there_at_start", "pv_updates", "drops", "puts",
        "put_refused", "readback", "disables", "merged", "lengths", "action_ok", "action_bad",
        "hidden", "assigned", "unassigned", "bad", "tags", "ioc_down", "all_down", "dirs_found",
    ],
    level="exploration",
    assumptions=[
        "Channel Access is simulated: the time order of gets and updates of a PV is kept",
        "Strings put to string PVs have at most 39 characters",
    ],
)
if __name__ == "__main__":
    check.main()
