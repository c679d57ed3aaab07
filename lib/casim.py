"""A simulated Channel Access: takes the place of cothread.catools.

PVs live in a store. caget, caput and camonitor behave as cothread's do:
values are augmented scalars, strings and arrays; camonitor callbacks of all
subscriptions run one after the other in one cothread, updates that arrive
while one is waiting are merged, closed subscriptions get nothing more, and a
subscription whose callback raises is closed."""
import sys
import types

import cothread
import numpy as np

DBR = dict(
    DBR_STRING=0,
    DBR_SHORT=1,
    DBR_FLOAT=2,
    DBR_ENUM=3,
    DBR_CHAR=4,
    DBR_LONG=5,
    DBR_DOUBLE=6,
    DBR_CHAR_STR=999,
    DBR_ENUM_STR=996,
)
FORMAT_RAW, FORMAT_TIME, FORMAT_CTRL = range(3)
NATIVE = dict(double=6, long=5, enum=3, string=0, chars=999, doubles=6, longs=5)


class ca_nothing(Exception):
    def __init__(self, name, errorcode=1):
        self.ok = errorcode == 1
        self.name = name
        self.errorcode = errorcode

    def __repr__(self):
        return "ca_nothing(%r, %d)" % (self.name, self.errorcode)

    def __str__(self):
        return "%s: Virtual circuit disconnect" % self.name

    def __bool__(self):
        return self.ok

    def __iter__(self):
        raise TypeError("iteration over non-sequence")


class ca_str(str):
    pass


class ca_int(int):
    pass


class ca_float(float):
    pass


class ca_array(np.ndarray):
    pass


class PV:
    """kind: one of NATIVE. history has one (value, severity, stamp) for each
    update, the value None while disconnected"""

    def __init__(self, store, name, kind, value, enums=(), connected=True, severity=0):
        self.store, self.name, self.kind = store, name, kind
        self.value, self.severity = value, severity
        self.enums = list(enums)
        self.connected = connected
        self.limits = (0.0, 0.0)
        self.precision = 3
        self.units = ""
        self.subs = []
        self.on_put = None  # called with the value: what putting does
        self.stamp = store.next_stamp()
        self.history = [self.entry()]

    def entry(self):
        if not self.connected:
            return (None, None, None)
        v = self.value
        if isinstance(v, (list, np.ndarray)):
            v = list(v)
        return (v, self.severity, self.stamp)

    def set(self, value=None, severity=None):
        if value is not None:
            self.value = value
        if severity is not None:
            self.severity = severity
        self.stamp = self.store.next_stamp()
        self.connected = True
        self.history.append(self.entry())
        self.post()

    def drop(self):
        if self.connected:
            self.connected = False
            self.history.append(self.entry())
            self.post()

    def restore(self):
        if not self.connected:
            self.set()

    def post(self):
        for s in list(self.subs):
            s.post(self)


class Sub:
    def __init__(self, store, pv, callback, datatype, fmt, notify):
        self.store, self.pv, self.callback = store, pv, callback
        self.datatype, self.fmt, self.notify = datatype, fmt, notify
        self.closed = False
        self.pending = None
        self.count = 0
        pv.subs.append(self)
        if pv.connected:
            self.post(pv)

    def post(self, pv):
        if self.closed:
            return
        if pv.connected:
            value = self.store.read(pv, self.datatype, self.fmt)
        elif self.notify:
            value = ca_nothing(pv.name, 192)
        else:
            return
        self.pending = value
        if self.count == 0:
            self.store.queue.Signal(self)
            self.store.waiting += 1
        self.count += 1

    def deliver(self):
        if self.closed:
            return
        value, n = self.pending, self.count
        self.pending, self.count = None, 0
        if n > 1:
            self.store.merged += 1
        self.store.delivered += 1
        value.update_count = n
        try:
            self.callback(value)
        except BaseException as e:
            self.store.broken.append((self.pv.name, repr(e)))
            self.close()

    def close(self):
        if not self.closed:
            self.closed = True
            if self in self.pv.subs:
                self.pv.subs.remove(self)


class Store:
    def __init__(self, m, rng):
        self.m, self.rng = m, rng
        self.pvs = {}
        self.queue = cothread.EventQueue()
        self.waiting = 0
        self.merged = 0
        self.delivered = 0
        self.broken = []
        self.puts = []
        self.gets = 0
        self._t = 1000
        self.stopped = False
        cothread.Spawn(self._dispatch, stack_size=0)
        m.defer(self.stop)

    def stop(self):
        self.stopped = True
        self.queue.Signal(None)

    def next_stamp(self):
        self._t += self.rng.randrange(0, 3)
        n = self.rng.randrange(0, 400000000)
        last = getattr(self, "_last", (0, 0))
        if (self._t, n) <= last:
            n = last[1] + 1
        self._last = (self._t, n)
        return self._last

    def pv(self, name, kind, value, **kw):
        self.pvs[name] = PV(self, name, kind, value, **kw)
        return self.pvs[name]

    def delay(self, most=4):
        for _ in range(self.rng.randrange(0, most)):
            cothread.Yield()

    def _dispatch(self):
        while not self.stopped:
            sub = self.queue.Wait()
            if sub is None:
                return
            self.delay()
            sub.deliver()
            self.waiting -= 1

    def quiet(self):
        """Wait until every update has been delivered"""
        for i in range(200000):
            if not self.waiting:
                break
            cothread.Yield() if i < 200 else cothread.Sleep(0.002)
        for _ in range(6):
            cothread.Yield()

    # the catools interface

    def read(self, pv, datatype, fmt):
        if datatype is None:
            datatype = NATIVE[pv.kind]
        v = pv.value
        if datatype == DBR["DBR_STRING"]:
            if pv.kind == "enum":
                v = pv.enums[v] if v < len(pv.enums) else str(v)
            v = ca_str(str(v)[:39])
        elif datatype == DBR["DBR_CHAR_STR"]:
            v = ca_str(v)
        elif pv.kind in ("doubles", "longs"):
            a = np.array(v, dtype="f8" if datatype == DBR["DBR_DOUBLE"] else "i4")
            v = a.view(ca_array)
        elif datatype == DBR["DBR_DOUBLE"]:
            v = ca_float(v)
        elif datatype in (DBR["DBR_LONG"], DBR["DBR_ENUM"], DBR["DBR_SHORT"]):
            v = ca_int(v)
        else:
            raise RuntimeError("harness: read %s as %s" % (pv.kind, datatype))
        v.ok = True
        v.name = pv.name
        v.datatype = datatype
        v.element_count = len(v) if isinstance(v, np.ndarray) else 1
        if fmt in (FORMAT_TIME, FORMAT_CTRL):
            v.severity = pv.severity
            v.status = 1 if pv.severity else 0
        if fmt == FORMAT_TIME:
            v.raw_stamp = pv.stamp
            v.timestamp = pv.stamp[0] + pv.stamp[1] * 1e-9
        if fmt == FORMAT_CTRL:
            if datatype == DBR["DBR_ENUM"]:
                v.enums = list(pv.enums)
            elif datatype in (DBR["DBR_DOUBLE"], DBR["DBR_LONG"], DBR["DBR_SHORT"]):
                v.lower_disp_limit, v.upper_disp_limit = pv.limits
                v.units = pv.units
                if datatype == DBR["DBR_DOUBLE"]:
                    v.precision = pv.precision
        return v

    def _get1(self, name, datatype, fmt, throw):
        self.delay()
        pv = self.pvs.get(name)
        if pv is None or not pv.connected:
            e = ca_nothing(name, 192)
            if throw:
                raise e
            return e
        return self.read(pv, datatype, fmt)

    def caget(self, pvs, timeout=5, datatype=None, format=FORMAT_RAW, count=0, throw=True):
        self.gets += 1
        if isinstance(pvs, str):
            return self._get1(pvs, datatype, format, throw)
        return [self._get1(p, datatype, format, throw) for p in pvs]

    def _put1(self, name, value, datatype, wait, timeout, throw):
        self.puts.append(dict(pv=name, value=value, datatype=datatype, wait=wait, timeout=timeout))
        self.delay()
        pv = self.pvs.get(name)
        if pv is None or not pv.connected:
            e = ca_nothing(name, 192)
            if throw:
                raise e
            return e
        v = self.convert(pv, value, datatype)

        def work():
            if pv.on_put is not None:
                pv.on_put(v)
            else:
                pv.set(v)

        if wait:
            work()
            self.delay()
        else:
            cothread.Spawn(work, stack_size=0)
        return ca_nothing(name)

    def convert(self, pv, value, datatype):
        """What arrives in the record, as catools would convert it"""
        if datatype is None:
            datatype = NATIVE[pv.kind]
        if datatype == DBR["DBR_CHAR_STR"]:
            if not isinstance(value, (str, bytes)):
                raise ValueError("char_str needs a string, got %r" % (value,))
            return str(value)
        if datatype == DBR["DBR_STRING"]:
            if pv.kind == "enum":
                return pv.enums.index(str(value))
            if not isinstance(value, str):
                raise ValueError("string needed, got %r" % (value,))
            return str(value)[:39]
        if isinstance(value, str):
            raise ValueError("number needed, got %r" % (value,))
        a = np.require(value, dtype="f8" if datatype == DBR["DBR_DOUBLE"] else "i4")
        if a.dtype == object:
            raise ValueError("bad value %r" % (value,))
        if pv.kind in ("doubles", "longs"):
            return [x.item() for x in np.atleast_1d(a)]
        if a.ndim and len(a) != 1:
            raise ValueError("scalar needed")
        return a.reshape(-1)[0].item()

    def caput(self, pvs, values, repeat_value=False, datatype=None, wait=False,
              callback=None, timeout=5, throw=True):
        if isinstance(pvs, str):
            return self._put1(pvs, values, datatype, wait, timeout, throw)
        values = list(values)
        assert len(values) == len(pvs), "PV and value lists must match in length"
        return [self._put1(p, v, datatype, wait, timeout, throw) for p, v in zip(pvs, values)]

    def camonitor(self, pvs, callback, events=None, datatype=None, format=FORMAT_RAW,
                  count=0, all_updates=False, notify_disconnect=False, connect_timeout=None):
        def one(name, cb):
            pv = self.pvs.get(name)
            if pv is None:
                pv = self.pv(name, "string", "", connected=False)
            return Sub(self, pv, cb, datatype, format, notify_disconnect)

        if isinstance(pvs, str):
            return one(pvs, callback)
        return [
            one(n, (lambda v, i=i: callback(v, i))) for i, n in enumerate(pvs)
        ]


def install(m, rng):
    """Make a new store what catools talks to, for this unit"""
    store = Store(m, rng)
    mod = types.ModuleType("cothread.catools")
    for k, v in DBR.items():
        setattr(mod, k, v)
    mod.FORMAT_RAW, mod.FORMAT_TIME, mod.FORMAT_CTRL = FORMAT_RAW, FORMAT_TIME, FORMAT_CTRL
    mod.ca_nothing = ca_nothing
    mod.ca_str, mod.ca_int, mod.ca_float, mod.ca_array = ca_str, ca_int, ca_float, ca_array
    mod.caget, mod.caput, mod.camonitor = store.caget, store.caput, store.camonitor
    old = sys.modules.get("cothread.catools"), getattr(cothread, "catools", None)
    sys.modules["cothread.catools"] = mod
    cothread.catools = mod

    def restore():
        for f in (lambda: sys.modules.pop("cothread.catools", None),):
            f()
        if old[0] is not None:
            sys.modules["cothread.catools"] = old[0]
        if old[1] is not None:
            cothread.catools = old[1]
        else:
            try:
                del cothread.catools
            except AttributeError:
                pass

    m.defer(restore)
    return store
