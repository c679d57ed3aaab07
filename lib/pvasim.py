"""A stand-in for the pvAccess network under malcolm.modules.pva.

The real p4p Type and Value are used for everything that is sent; only the
transport (Server, SharedPV, client Context) is replaced by a network inside
the process. As in p4p, only the fields marked as changed travel, handler calls
get their own cothread, and close() disconnects the clients, who come back.
"""
import cothread
from p4p import Value
from p4p.client.raw import Disconnected, RemoteError


def copy_marked(dst, src):
    """Copy the marked leaves of src, return their names"""
    names = sorted(src.changedSet(parents=False, expand=True))
    for n in names:
        v = src[n]
        if isinstance(v, Value):
            continue
        dst[n] = v
    return names


def fresh(src):
    v = Value(src.type())
    copy_marked(v, src)
    return v


class Net:
    """What is on the network"""

    def __init__(self):
        self.server = None  # the object that was given to DynamicProvider
        self.down = False

    def find(self, name):
        if self.server is None or self.down or not self.server.testChannel(name):
            return None
        return self.server.makeChannel(name, "127.0.0.1")


class FakeProvider:
    def __init__(self, name, handler):
        self.name, self.handler = name, handler


def make_server_class(net):
    class FakeServer:
        def __init__(self, providers=(), **kw):
            net.server = providers[0].handler

        def stop(self):
            net.server = None

    return FakeServer


class FakePV:
    def __init__(self, handler=None, options=None, **kw):
        self.handler = handler
        self.current = None
        self.clients = []
        self.log = []

    def _call(self, fn, *args):
        cothread.Spawn(self._safe, fn, args)

    def _safe(self, fn, args):
        try:
            fn(*args)
        except Exception as e:
            self.log.append(("handler-error", str(e)))

    # -- what the server side uses
    def isOpen(self):
        return self.current is not None

    def open(self, value, **kw):
        if self.current is not None:
            raise ValueError("Already open")
        self.current = fresh(value)
        self.log.append(("open",))
        for c in list(self.clients):
            c.update(self.current, None)

    def post(self, value):
        if self.current is None:
            raise ValueError("Not open")
        if value.type().aspy() != self.current.type().aspy():
            raise ValueError("Type does not match")
        names = copy_marked(self.current, value)
        self.log.append(("post", names))
        for c in list(self.clients):
            c.update(self.current, names)

    def close(self, destroy=False, sync=False, timeout=None):
        self.log.append(("close", destroy))
        self.current = None
        gone, self.clients = self.clients, []
        for c in gone:
            c.lost()
        if gone:
            self._call(self.handler.onLastDisconnect, self)
        if sync:
            for _ in range(20):
                cothread.Yield()

    # -- what the clients use
    def connect(self, client):
        first = not self.clients
        self.clients.append(client)
        if first:
            self._call(self.handler.onFirstConnect, self)
        if self.current is not None:
            client.update(self.current, None)

    def disconnect(self, client):
        if client in self.clients:
            self.clients.remove(client)
            if not self.clients:
                self._call(self.handler.onLastDisconnect, self)

    def operate(self, kind, op):
        def run():
            try:
                getattr(self.handler, kind)(self, op)
            except Exception as e:
                op.done(error=str(e) or type(e).__name__)

        cothread.Spawn(run)


class Op:
    """A put or rpc in progress"""

    def __init__(self, value, request=None):
        self._value, self._request = value, request
        self.answers = []
        self.event = cothread.Event(auto_reset=False)

    def value(self):
        return self._value

    def pvRequest(self):
        return self._request if self._request is not None else {}

    def done(self, value=None, error=None):
        self.answers.append((value, error))
        self.event.Signal()


class Monitor:
    """A client that keeps what it has been sent and reconnects when it is
    disconnected"""

    def __init__(self, net, name, callback=None, on_lost=None, delay=30, reconnect=True):
        self.net, self.name, self.delay = net, name, delay
        self.callback, self.on_lost, self.reconnect = callback, on_lost, reconnect
        self.view = None  # Value
        self.pv = None
        self.n, self.opens, self.losses = 0, 0, 0
        self.closed = False
        self.last = None

    def start(self):
        cothread.Spawn(self._connect)
        return self

    def _connect(self):
        while not self.closed:
            pv = self.net.find(self.name)
            if pv is not None:
                self.pv = pv
                pv.connect(self)
                return
            cothread.Yield()

    def update(self, current, names):
        self.n += 1
        if names is None or self.view is None:
            self.opens += 1
            self.view = fresh(current)
            self.last = None
        else:
            self.view.unmark()
            for n in names:
                self.view[n] = current[n]
            self.last = names
        if self.callback:
            self.callback(self.view)

    def lost(self):
        self.losses += 1
        self.view, self.pv = None, None
        if self.on_lost:
            self.on_lost()
        if self.reconnect and not self.closed:

            def later():
                for _ in range(self.delay):
                    cothread.Yield()
                self._connect()

            cothread.Spawn(later)

    def close(self):
        self.closed = True
        pv, self.pv = self.pv, None
        if pv is not None:
            pv.disconnect(self)


def make_context_class(net, delay=30):
    class FakeContext:
        """p4p.client.cothread.Context"""

        def __init__(self, *args, **kw):
            self.monitors = []
            self.ops = 0

        def monitor(self, name, cb, notify_disconnect=False, **kw):
            # Callbacks come from a queue of the subscription's own
            queue = cothread.EventQueue()

            def worker():
                while True:
                    v = queue.Wait()
                    if v is None:
                        return
                    try:
                        cb(v)
                    except Exception:
                        mon.errors += 1

            def on_value(view):
                # Complete value, changed fields marked
                v = Value(view.type())
                for n in full_names(view):
                    v[n] = view[n]
                if mon.last is not None:
                    v.unmark()
                    for n in mon.last:
                        v[n] = view[n]
                queue.Signal(v)

            def on_lost():
                if notify_disconnect:
                    queue.Signal(Disconnected())

            mon = Monitor(net, name, on_value, on_lost, delay=delay)
            mon.errors = 0
            cothread.Spawn(worker)
            self.monitors.append(mon)
            return mon.start()

        def _channel(self, name, steps=2000):
            class Temp(Monitor):
                pass

            t = Temp(net, name, delay=delay).start()
            for _ in range(steps):
                if t.view is not None:
                    return t
                cothread.Yield()
            raise TimeoutError("no channel " + name)

        def put(self, name, values, request=None, **kw):
            t = self._channel(name)
            try:
                v = Value(t.view.type())
                for k, x in values.items():
                    v[k] = x
                op = Op(v)
                pv = t.pv
                t.on_lost = lambda: op.done(error="disconnected")
                pv.operate("put", op)
                op.event.Wait(20)
                if op.answers[0][1] is not None:
                    raise RemoteError(op.answers[0][1])
            finally:
                t.close()

        def rpc(self, name, value, request=None, timeout=None, **kw):
            pv = net.find(name)
            assert pv, "no channel " + name
            op = Op(value, request)
            pv.operate("rpc", op)
            op.event.Wait(20)
            if op.answers[0][1] is not None:
                raise RemoteError(op.answers[0][1])
            return op.answers[0][0]

        def close(self):
            for mon in self.monitors:
                mon.close()

    return FakeContext


def full_names(view, prefix=""):
    out = []
    for name, spec in view.type().items():
        v = view[name]
        if isinstance(v, Value) and not isinstance(spec, str):
            out += [name + "." + x for x in full_names(v)]
        else:
            out.append(name)
    return out


def install(net, server_module, client_module=None, delay=30):
    """Replace the transport of the given malcolm modules, return an undo"""
    old = {}

    def put(mod, name, new):
        old[(mod, name)] = getattr(mod, name)
        setattr(mod, name, new)

    put(server_module, "Server", make_server_class(net))
    put(server_module, "DynamicProvider", FakeProvider)
    put(server_module, "SharedPV", FakePV)
    if client_module is not None:
        put(client_module, "Context", make_context_class(net, delay))

    def undo():
        for (mod, name), v in old.items():
            setattr(mod, name, v)

    return undo
