"""A stand-in for tornado's event loop and sockets under malcolm.modules.web,
so that websocket handlers run on the cothread schedule of the harness."""
import json
import os

import cothread
from tornado.websocket import WebSocketClosedError

from malcolm.modules.web import util as webutil
from malcolm.modules.web.controllers import httpservercomms
from malcolm.modules.web.parts import websocketserverpart


class Loop:
    """tornado's loop: calls what it is given in order"""

    def __init__(self, rng=None):
        self.queue = cothread.EventQueue()
        self.rng = rng
        self.ran = 0
        self.errors = []
        cothread.Spawn(self.run)

    def call(self, func, *args, **kwargs):
        self.queue.Signal((func, args, kwargs))

    def run(self):
        while True:
            func, args, kwargs = self.queue.Wait()
            try:
                func(*args, **kwargs)
            except Exception as e:
                self.errors.append(e)
            self.ran += 1
            if self.rng is not None and self.rng.random() < 0.2:
                cothread.Yield()


class FakeHTTPServer:
    def __init__(self, app, *args, **kw):
        self.app, self.listening = app, False

    def listen(self, port, *args):
        self.listening = True

    def stop(self):
        self.listening = False


class FakeApplication:
    def __init__(self, handlers, *args, **kw):
        self.handlers = list(handlers)


def install(m, rng, interfaces=None):
    """interfaces: {name: (addr, mask, state)} or {name: (None, None, state)}
    for one that can't be asked"""
    loop = Loop(rng)
    old = []

    def put(ob, name, new):
        old.append((ob, name, ob.__dict__[name]))
        setattr(ob, name, new)

    put(webutil.IOLoopHelper, "call", staticmethod(loop.call))
    put(httpservercomms, "HTTPServer", FakeHTTPServer)
    put(httpservercomms, "Application", FakeApplication)
    if interfaces is not None:
        d = m.tmpdir()
        for name, (addr, mask, state) in interfaces.items():
            os.makedirs(os.path.join(d, name))
            with open(os.path.join(d, name, "operstate"), "w") as f:
                f.write(state + "\n")
        put(websocketserverpart, "SYSNET", d)

        def get_if_info(s, sig, ifname):
            addr, mask, _ = interfaces[ifname]
            if addr is None:
                raise OSError("no address")
            return mask if sig == websocketserverpart.SIOCGIFNETMASK else addr

        put(websocketserverpart, "get_if_info", get_if_info)

    def undo():
        for ob, name, v in old:
            setattr(ob, name, v)

    m.defer(undo)
    return loop


class FakeRequest:
    def __init__(self, ip):
        self.remote_ip = ip


class Connection:
    """A websocket client of a server block, and the server's handler for it"""

    def __init__(self, loop, server, name, ip="127.0.0.1", regexp="/ws"):
        self.loop, self.name = loop, name
        self.inbox = []  # decoded messages in order of arrival
        self.texts = []
        self.closed = False
        self.attempts = 0  # of writing after the connection was closed
        self.raised = []
        self.on_text = None
        for h in server._application.handlers:
            if h[0] == regexp:
                cls, kwargs = h[1], h[2]
                break
        else:
            raise ValueError("no handler")
        conn = self

        class Handler(cls):
            def __init__(self):
                self.request = FakeRequest(ip)

            def write_message(self, message, binary=False):
                if isinstance(message, dict):
                    message = json.dumps(message)
                if conn.closed:
                    conn.attempts += 1
                    raise WebSocketClosedError()
                assert isinstance(message, str), message
                conn.texts.append(message)
                conn.inbox.append(json.loads(message))
                if conn.on_text:
                    conn.on_text(message)

            def close(self, *args, **kw):
                conn.close()

        self.handler = Handler()
        self.handler.initialize(**kwargs)

    def send(self, message):
        text = message if isinstance(message, str) else json.dumps(message)
        self.loop.call(self._receive, text)

    def _receive(self, text):
        if self.closed:
            return
        try:
            self.handler.on_message(text)
        except Exception as e:
            # tornado logs it and aborts the connection
            self.raised.append(e)
            self.close()

    def close(self):
        if not self.closed:
            self.closed = True
            if self.on_text:
                self.on_text(None)
            try:
                self.handler.on_close()
            except Exception:
                pass


class AioLoop:
    """A real asyncio/tornado loop turned by a cothread, for the client"""

    def __init__(self):
        import asyncio
        from tornado.ioloop import IOLoop

        self.aio = asyncio.new_event_loop()
        asyncio.set_event_loop(self.aio)
        self.loop = IOLoop.current()
        self.errors = []
        self.aio.set_exception_handler(lambda loop, ctx: self.errors.append(ctx))
        self.stopped = False
        self.ran = 0
        cothread.Spawn(self.run)

    def call(self, func, *args, **kwargs):
        self.ran += 1
        self.loop.add_callback(func, *args, **kwargs)

    def run(self):
        while not self.stopped:
            self.aio.call_soon(self.aio.stop)
            self.aio.run_forever()
            cothread.Yield()

    def stop(self):
        self.stopped = True


class ClientConn:
    """What websocket_connect gives, joined to a Connection of the server"""

    def __init__(self, link, conn):
        from collections import deque

        self.link, self.conn = link, conn
        self.texts, self.waiting, self.over = deque(), None, False
        self.sent = []
        conn.on_text = self.on_text

    def on_text(self, text):
        self.link.client.call(self.deliver, text)

    def deliver(self, text):
        if self.over:
            return
        if text is None:
            self.over = True
        self.texts.append(text)
        self.kick()

    def kick(self):
        if self.waiting is not None and self.texts:
            f, self.waiting = self.waiting, None
            if not f.done():
                f.set_result(self.texts.popleft())

    def read_message(self, callback=None):
        from asyncio import Future

        f = Future()
        if self.texts:
            f.set_result(self.texts.popleft())
        elif self.over:
            f.set_result(None)
        else:
            self.waiting = f
        return f

    def write_message(self, message, binary=False):
        if self.over or self.conn.closed:
            raise WebSocketClosedError()
        self.sent.append(message)
        self.conn.send(message)

    def close(self, code=None, reason=None):
        self.link.server_loop.call(self.conn.close)

    def lose(self):
        """The network goes: nothing in flight arrives"""
        self.conn.on_text = None
        self.conn.close()
        self.link.client.call(self.deliver, None)


class Link:
    """Joins WebsocketClientComms to a server block in this process"""

    def __init__(self, m, server_loop, server):
        from malcolm.modules.web.controllers import websocketclientcomms as wcc

        self.server_loop, self.server = server_loop, server
        self.client = AioLoop()
        self.conns = []
        self.down = False
        link = self
        old = (wcc.websocket_connect, wcc.IOLoopHelper)

        def connect(url, *args, **kwargs):
            from asyncio import Future

            f = Future()

            def later():
                if link.down:
                    f.set_exception(ConnectionRefusedError("refused"))
                else:
                    c = ClientConn(link, Connection(server_loop, server, "client"))
                    link.conns.append(c)
                    f.set_result(c)

            link.client.aio.call_soon(link.client.aio.call_soon, later)
            return f

        class Helper:
            @staticmethod
            def call(func, *args, **kwargs):
                link.client.call(func, *args, **kwargs)

        wcc.websocket_connect, wcc.IOLoopHelper = connect, Helper

        def undo():
            wcc.websocket_connect, wcc.IOLoopHelper = old
            link.client.stop()

        m.defer(undo)

    def lose(self):
        for c in self.conns:
            if not c.over:
                c.lose()
