#!/opt/venv/bin/python
"""C15: the web server routes every message correctly and only lets local
clients write."""
import json
import os
import socket
import struct
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vmon
import mh
import manrig
import websim
from manrig import BC, Client, FieldPart, ok

import cothread
from annotypes import json_encode
from malcolm.core import Process
from malcolm.modules.web.controllers import HTTPServerComms
from malcolm.modules.web.parts import RestfulServerPart, WebsocketServerPart

T = "malcolm:core/%s:1.0"


def ip_int(ip):
    return struct.unpack("!I", socket.inet_aton(ip))[0]


def js(o):
    """What something served looks like to a client (NaN compares equal)"""
    return nan(json.loads(json_encode(o)))


def nan(o):
    if isinstance(o, float) and o != o:
        return "<nan>"
    if isinstance(o, dict):
        return {k: nan(v) for k, v in o.items()}
    if isinstance(o, list):
        return [nan(v) for v in o]
    return o


class SlowPart(FieldPart):
    def setup(self, registrar):
        super().setup(registrar)
        registrar.add_method_model(self.odd)

    def odd(self):
        """Gives something that has no JSON"""
        self.calls.append(("odd", {}))
        return object()


def make_www(m, rng):
    """A folder to serve, {path: content} in it, and a secret beside it"""
    top = m.tmpdir()
    www = os.path.join(top, "www")
    files = {"index.html": "<html>%d</html>" % rng.randrange(10 ** 6)}
    for i in range(rng.randrange(2, 6)):
        d = rng.choice(["", "static/", "static/js/", "rest-of/", "a b/"])
        files[d + rng.choice(["x%d.js", "y%d.css", "restful%d.txt", "ws%d", "z %d.map"]) % i] = "%s %d" % (
            mh.gen_string(rng).encode("ascii", "ignore").decode(), rng.randrange(10 ** 6)
        )
    for name, text in files.items():
        os.makedirs(os.path.dirname(os.path.join(www, name)), exist_ok=True)
        with open(os.path.join(www, name), "w", newline="") as f:
            f.write(text)
    for name in ("secret", "www2"):
        with open(os.path.join(top, name), "w") as f:
            f.write("SECRET")
    return www, files


class World:
    def __init__(self, m, rng, comms=None, interfaces=None, validate=False):
        self.m, self.rng = m, rng
        self.process = Process("proc")
        self.fields, self.ctrl = {}, {}
        for i in range(rng.randrange(1, 3)):
            metas = mh.make_metas(rng)
            keep = rng.sample(list(metas), rng.randrange(3, len(metas)))
            mri = rng.choice(["BLOCK:%d", "B%d", "some block %d", "b/%d"]) % i if comms is None else "B%d" % i
            c = rng.choice([BC.StatefulController, BC.BasicController])(mri)
            f = SlowPart("fields").prepare(rng, {k: metas[k] for k in keep}, readonly=0.15)
            c.add_part(f)
            self.fields[mri], self.ctrl[mri] = f, c
            self.process.add_controller(c)
            f.on_put = lambda *a: mh.yields(rng.choice([0, 0, 3, 10]))
        self.server = comms or HTTPServerComms("SERVER")
        self.server.add_part(WebsocketServerPart("ws", subnet_validation=validate))
        if comms is not None:
            self.server.add_part(RestfulServerPart("rest"))
            self.www = make_www(m, rng)
            from malcolm.modules.web.parts import GuiServerPart

            self.server.add_part(GuiServerPart("gui", self.www[0]))
        self.process.add_controller(self.server)
        m.defer(mh.stop_process, self.process)
        manrig.start(self.process)
        mh.yields(5)
        self.cl = Client(self.process)

    def get(self, path):
        """(True, value) or (False, None), asked from the block directly"""
        from malcolm.core import Get, Return

        path = list(path)
        if path and path[0] == ".":
            path[0] = "SERVER"
        try:
            r = self.cl.ask(Get(self.cl.id(), path))
        except Exception:
            return False, None
        return (True, js(r.value)) if isinstance(r, Return) else (False, None)


class Peer:
    """A client of the server and what it should be told"""

    def __init__(self, w, name, conn, writeable=True):
        self.w, self.name, self.conn, self.writeable = w, name, conn, writeable
        self.expect = []  # (id, kind, judge)
        self.subs = {}  # id -> dict(path, delta, view, n)
        self.ended = set()
        self.seen = 0

    def send(self, msg):
        self.conn.send(msg)

    def ask(self, msg, judge):
        self.expect.append((msg.get("id", -1), judge, msg))
        self.send(msg)

    def judge(self, changed, what):
        """Look at everything that arrived since last time"""
        m = self.w.m
        new = self.conn.inbox[self.seen :]
        self.seen = len(self.conn.inbox)
        todo = list(self.expect)
        del self.expect[:]
        for msg in new:
            m.count("messages")
            kind = msg["typeid"].split("/")[1].split(":")[0]
            if kind in ("Update", "Delta"):
                s = self.subs.get(msg["id"])
                if not m.check(
                    s is not None and not s["ended"],
                    "stray",
                    lambda: "%s was sent %s for id %s it has no subscription for" % (self.name, kind, msg["id"]),
                ):
                    continue
                if kind == "Delta":
                    s["view"] = mh.apply_delta(s["view"], nan(msg["changes"]))
                else:
                    s["view"] = nan(msg["value"])
                s["n"] += 1
                m.check(s["delta"] == (kind == "Delta"), "sub-kind", lambda: "%s" % msg)
                continue
            # A final response
            for i, (id_, judge, sent) in enumerate(todo):
                if id_ == msg["id"] and judge(kind, msg):
                    todo.pop(i)
                    break
            else:
                m.check(
                    False,
                    "unexpected",
                    lambda: "after %s: %s got %s, waiting for %s" % (what, self.name, str(msg)[:300], [t[2] for t in todo]),
                )
        m.check(
            not todo,
            "unanswered",
            lambda: "after %s: %s got no (or a wrong) answer to %s" % (what, self.name, [t[2] for t in todo]),
        )
        for id_, s in list(self.subs.items()):
            if s["ended"]:
                continue
            there, want = self.w.get(s["path"])
            if not there:
                continue
            m.count("views")
            m.check(
                s["n"] > 0 and s["view"] == want,
                "view",
                lambda: "after %s: %s id %s %s: %s updates, %s"
                % (what, self.name, id_, s["path"], s["n"], mh.diff(want, s["view"])),
            )


def plan(w, peer, rng, before, used, busy):
    """Send one message, and note what the answer should be"""
    m = w.m
    kind = rng.choice(
        ["Get", "Get", "Put", "Put", "Post", "Subscribe", "Subscribe", "Unsubscribe", "bad", "bad", "odd"]
    )
    free = [i for i in range(12) if i not in busy]
    if not free:
        return
    id_ = rng.choice(free)
    busy.add(id_)
    mri = rng.choice(list(w.fields))
    f = w.fields[mri]
    name = rng.choice(list(f.models))
    m.count("sent_" + kind)
    if kind == "Get":
        path = rng.choice(
            [
                [mri], [mri, name], [mri, name, "value"], [mri, name, "meta", "description"], [".", "blocks"],
                ["."], [mri, "nothere"], ["NOPE"], [mri, name, "value", "x", "y"],
            ]
        )
        there, want = w.get(path)

        def judge(k, msg):
            if not there:
                return k == "Error" and isinstance(msg["message"], str)
            if k != "Return":
                return False
            if mri in used:
                return True
            return nan(msg["value"]) == want

        peer.ask(dict(typeid=T % "Get", id=id_, path=path), judge)
        m.distinct("get", len(path), there)
    elif kind == "Put":
        if (mri, name) in used or name in f.readonly:
            good = False
            plain = f.gens[name](rng)
            if (mri, name) in used:
                return
        else:
            good = peer.writeable
            plain = f.gens[name](rng)
        used.add((mri, name))
        used.add(mri)
        want = js(f.models[name].meta.validate(plain))
        old = w.get([mri, name, "value"])[1]

        def judge(k, msg):
            now = w.get([mri, name, "value"])[1]
            if good:
                return k == "Return" and now == want
            if k != "Error" or now != old:
                return False
            return peer.writeable or "forbidden" in msg["message"]

        peer.ask(dict(typeid=T % "Put", id=id_, path=[mri, name, "value"], value=plain), judge)
        m.distinct("put", name, good)
        if not peer.writeable:
            m.count("forbidden")
    elif kind in ("Post", "odd"):
        method = rng.choice(["add", "nothing", "fail"])
        if kind == "odd":
            method = "odd"
        params = {"add": dict(num=rng.randrange(100), name=mh.gen_string(rng))}.get(method, {})
        used.add(mri)
        n = len(f.calls)

        def judge(k, msg):
            if not peer.writeable:
                return k == "Error" and "forbidden" in msg["message"]
            if method == "fail":
                return k == "Error" and "failed with x" in msg["message"]
            if method == "odd":
                return k == "Error"
            if k != "Return":
                return False
            return (
                msg["value"] == "%s+%d" % (params["name"], params["num"]) if method == "add" else not msg["value"]
            )

        if not peer.writeable:
            w.nocalls.append((f, (method, params)))
            m.count("forbidden")
        peer.ask(dict(typeid=T % "Post", id=id_, path=[mri, method], parameters=params), judge)
        m.distinct("post", method, peer.writeable)
    elif kind == "Subscribe":
        path = rng.choice(
            [[mri], [mri, name], [mri, name, "value"], [".", "blocks", "value"], ["NOPE"], [mri, "nothere"]]
        )
        # A field that is not there yet can be subscribed to
        there = path != ["NOPE"]
        delta = rng.random() < 0.5
        msg = dict(typeid=T % "Subscribe", id=id_, path=path, delta=delta)
        if rng.random() < 0.2:
            del msg["delta"]
            delta = False
        old = peer.subs.get(id_)
        if old is not None and not old["ended"]:
            # In use
            def judge(k, msg):
                return k == "Error"

            peer.ask(msg, judge)
            m.count("duplicate_ids")
        elif there:
            if old is not None:
                m.count("ids_reused")
            peer.subs[id_] = dict(path=path, delta=delta, view=None, n=0, ended=False)
            peer.send(msg)
        else:
            # Leaves the id free
            def judge(k, msg):
                return k == "Error"

            peer.subs[id_] = dict(path=path, delta=delta, view=None, n=0, ended=True)
            peer.ask(msg, judge)
        m.distinct("subscribe", len(path), delta, there)
    elif kind == "Unsubscribe":
        live = [i for i, s in peer.subs.items() if not s["ended"] and i not in busy and s["n"]]
        if live and rng.random() < 0.8:
            id_ = rng.choice(live)
            busy.add(id_)

            def judge(k, msg):
                peer.subs[id_]["ended"] = True
                return k == "Return"

        else:
            if id_ in peer.subs and not peer.subs[id_]["ended"]:
                return

            def judge(k, msg):
                return k == "Error"

        peer.ask(dict(typeid=T % "Unsubscribe", id=id_), judge)
    else:
        bad = rng.choice(
            [
                "", "{", "nonsense", "[]", "5", "null", '"text"', "[1, 2]", "{}", '{"id": %d}' % id_,
                dict(typeid=T % "Get", path=[mri]),
                dict(typeid="malcolm:core/Nope:1.0", id=id_, path=[mri]),
                dict(typeid=T % "Get", id=id_),
                dict(typeid=T % "Get", id=id_, path=[]),
                dict(typeid=T % "Get", id=id_, path=[mri], extra=1),
                dict(typeid=T % "Get", id=id_, path=5),
                dict(typeid=T % "Get", id=id_, path=None),
                dict(typeid=T % "Subscribe", id=id_, path=[]),
                dict(typeid=T % "Put", id=id_, path=[mri]),
                dict(typeid=T % "Post", id=id_, path=[mri], parameters=7),
                dict(typeid=T % "Return", id=id_, value=3),
                dict(typeid="malcolm:core/StringMeta:1.0", id=id_, description="x"),
            ]
        )
        want = -1
        if isinstance(bad, dict) and "id" in bad:
            want = id_
        elif bad == '{"id": %d}' % id_:
            want = id_
        if want == id_ and isinstance(bad, dict) and bad["typeid"] == T % "Subscribe":
            old = peer.subs.get(id_)
            if old is None or old["ended"]:
                peer.subs[id_] = dict(path=[], delta=False, view=None, n=0, ended=True)

        def judge(k, msg):
            return k == "Error" and isinstance(msg["message"], str)

        peer.expect.append((want, judge, bad))
        peer.send(bad)
        m.count("bad_messages")
        m.distinct("bad", str(bad)[:40].replace(str(id_), "#"))


def settle(w, loop):
    def state():
        return loop.ran, sum(len(f.puts) + len(f.calls) for f in w.fields.values())

    for _ in range(200):
        before = state()
        mh.settle_quiet(state, quiet=40, steps=6000)
        # Callbacks from other threads are only looked at when idle
        cothread.Sleep(0.002)
        mh.yields(20)
        if state() == before:
            return


def change(w, rng):
    mri = rng.choice(list(w.fields))
    f = w.fields[mri]
    name = rng.choice(list(f.models))
    f.models[name].set_value(f.gens[name](rng))
    if rng.random() < 0.3:
        with w.ctrl[mri].changes_squashed:
            for n in rng.sample(list(f.models), min(3, len(f.models))):
                f.models[n].set_value(f.gens[n](rng))


def websockets(m, rng, idx):
    interfaces, validate = None, False
    ips = ["127.0.0.1"] * 4
    if idx % 2:
        validate = True
        interfaces = {}
        for i in range(rng.randrange(1, 4)):
            bits = rng.choice([8, 16, 23, 24, 30, 32])
            addr = "%d.%d.%d.%d" % (rng.choice([10, 172, 192]), rng.randrange(3), rng.randrange(3), rng.randrange(1, 8))
            mask = (0xFFFFFFFF << (32 - bits)) & 0xFFFFFFFF
            interfaces["eth%d" % i] = (ip_int(addr), mask, rng.choice(["up", "up", "down", "unknown"]))
        interfaces["lo"] = (ip_int("127.0.0.1"), 0xFF000000, rng.choice(["unknown", "unknown", "down"]))
        if rng.random() < 0.5:
            interfaces["bad"] = (None, None, "up")
        if not any(a is not None and s != "down" for a, _, s in interfaces.values()):
            interfaces["eth0"] = interfaces["eth0"][:2] + ("up",)
        pool = ["127.0.0.1", "::1", "8.8.8.8", "127.1.2.3", "fe80::1234"]
        for a, mask, _ in interfaces.values():
            if a is not None:
                for x in (a ^ 1, a ^ (1 << rng.randrange(32)), (a & mask) | 1, a ^ (~mask & 0xFFFFFFFF)):
                    pool.append(socket.inet_ntoa(struct.pack("!I", x & 0xFFFFFFFF)))
        ips = [rng.choice(pool) for _ in range(4)]
    loop = websim.install(m, rng, interfaces)
    w = World(m, rng, interfaces=interfaces, validate=validate)
    w.nocalls = []

    def may_write(ip):
        if not validate:
            return True
        if ip == "::1":
            ip = "127.0.0.1"
        if ":" in ip:
            return False
        return any(
            s != "down" and a is not None and (ip_int(ip) & mask) == (a & mask) for a, mask, s in interfaces.values()
        )

    peers, gone = [], []
    k = [0]

    def connect():
        ip = ips[k[0] % 4]
        p = Peer(w, "client%d(%s)" % (k[0], ip), websim.Connection(loop, w.server, "c", ip), may_write(ip))
        k[0] += 1
        peers.append(p)
        m.count("may_write" if p.writeable else "may_not_write")

    for _ in range(rng.randrange(1, 4)):
        connect()
    for rnd in range(rng.randrange(6, 14)):
        used = set()
        what = "round %d" % rnd
        del w.nocalls[:]
        before = {mri: w.get([mri])[1] for mri in w.fields}
        ncalls = {mri: len(f.calls) for mri, f in w.fields.items()}
        for p in peers:
            busy = set()
            for _ in range(rng.randrange(0, 4)):
                plan(w, p, rng, before, used, busy)
            if rng.random() < 0.3:
                mh.yields(rng.randrange(4))
        settle(w, loop)
        for p in peers:
            m.check(
                not p.conn.raised and not p.conn.closed,
                "broken",
                lambda: "%s was cut off: %r" % (p.name, p.conn.raised),
            )
            p.judge(used, what)
        # Blocks change by themselves
        for _ in range(rng.choice([0, 1, 3, 15])):
            change(w, rng)
        settle(w, loop)
        for p in peers:
            p.judge((), what + " changes")
        if rng.random() < 0.25 and len(peers) > 1:
            p = peers.pop(rng.randrange(len(peers)))
            p.conn.close()
            nsubs = sum(1 for s in p.subs.values() if not s["ended"])
            # At the latest when there is something to be told
            for f in w.fields.values():
                for n in f.models:
                    f.models[n].set_value(f.gens[n](rng))
            settle(w, loop)
            n = p.conn.attempts
            for f in w.fields.values():
                for name in f.models:
                    f.models[name].set_value(f.gens[name](rng))
            settle(w, loop)
            m.check(
                p.conn.attempts == n,
                "leak",
                lambda: "%d more messages for a closed connection that had %d subscriptions" % (p.conn.attempts - n, nsubs),
            )
            for q in peers:
                q.judge((), what + " close")
            m.count("closes")
            if nsubs:
                m.count("closes_with_subscriptions")
        if rng.random() < 0.2:
            connect()
    m.check(not loop.errors, "loop", lambda: "%r" % loop.errors[:3])
    m.sample(dict(clients=[p.name for p in peers], messages=[str(x)[:100] for p in peers for x in p.conn.inbox[:3]]))


def bursts(m, rng, idx):
    """A lot at once: nothing is lost and nothing overtakes"""
    loop = websim.install(m, rng, None)
    w = World(m, rng)
    p = Peer(w, "client", websim.Connection(loop, w.server, "c", "127.0.0.1"))
    mri = rng.choice(list(w.fields))
    f = w.fields[mri]
    name = rng.choice(list(f.models))
    delta = rng.random() < 0.5
    sub = dict(path=[mri, name], delta=delta, view=None, n=0, ended=False)
    p.subs[1] = sub
    p.send(dict(typeid="malcolm:core/Subscribe:1.0", id=1, path=[mri, name], delta=delta))
    settle(w, loop)
    p.judge((), "subscribe")
    n = rng.choice([30, 200, 400, 600])
    answers = []
    for i in range(n):
        ident = 10 + i
        r = rng.random()

        def judge(kind, msg, ident=ident):
            answers.append(ident)
            return kind in ("Return", "Error")

        if r < 0.4:
            msg = dict(typeid="malcolm:core/Get:1.0", id=ident, path=[mri, name])
        elif r < 0.6:
            msg = dict(typeid="malcolm:core/Get:1.0", id=ident, path=[mri, "nope"])
        elif r < 0.8:
            msg = dict(typeid="malcolm:core/Post:1.0", id=ident, path=[mri, "nothing"], parameters={})
        else:
            f.models[name].set_value(f.gens[name](rng))
            continue
        p.ask(msg, judge)
        if rng.random() < 0.01:
            mh.yields(rng.randrange(6))
    sent = [e[0] for e in p.expect]
    for _ in range(rng.choice([0, 40, 200])):
        f.models[name].set_value(f.gens[name](rng))
    settle(w, loop)
    p.judge((), "burst of %d" % n)
    m.count("burst_messages", len(p.conn.inbox))
    m.check(sorted(answers) == sent, "burst-answers", lambda: "%d sent, %d answers" % (len(sent), len(answers)))
    m.check(not loop.errors, "loop", lambda: "%r" % loop.errors[:3])
    m.distinct("burst", n, delta)


# -------------------------------------------------------------------- loopback
class Loopback:
    """A real server on a port of the loopback interface"""

    def __init__(self, m, rng):
        import random
        from malcolm.modules.web.util import IOLoopHelper
        from tornado import gen
        from tornado.httpclient import AsyncHTTPClient, HTTPRequest
        from tornado.websocket import websocket_connect

        self.m = m
        self.IOLoopHelper = IOLoopHelper
        self.AsyncHTTPClient, self.HTTPRequest = AsyncHTTPClient, HTTPRequest
        self.websocket_connect, self.gen = websocket_connect, gen
        for _ in range(20):
            s = socket.socket()
            s.bind(("127.0.0.1", 0))
            self.port = s.getsockname()[1]
            s.close()
            self.w = World(m, rng, comms=HTTPServerComms("SERVER", self.port))
            # Is it us who is listening there?
            r = self.fetch("GET", "/rest/SERVER/blocks/timeStamp")
            if r is not None and nan(json.loads(r[1] or "null")) == self.w.get(["SERVER", "blocks", "timeStamp"])[1]:
                return
        raise RuntimeError("no port")

    def run(self, coro, *args):
        """Run a tornado coroutine, give its result"""
        box = []

        @self.gen.coroutine
        def go():
            try:
                r = yield coro(*args)
                box.append((True, r))
            except Exception as e:
                box.append((False, e))

        self.IOLoopHelper.call(go)
        for _ in range(4000):
            if box:
                return box[0]
            cothread.Sleep(0.005)
        return None

    def fetch(self, method, path, body=None):
        @self.gen.coroutine
        def go():
            client = self.AsyncHTTPClient()
            req = self.HTTPRequest(
                "http://127.0.0.1:%d%s" % (self.port, path), method=method, body=body, request_timeout=15
            )
            r = yield client.fetch(req, raise_error=False)
            return r.code, r.body.decode(), r.reason

        r = self.run(go)
        if r is None or not r[0]:
            return None
        return r[1]


def loopback(m, rng, idx):
    from urllib.parse import quote

    lb = Loopback(m, rng)
    w = lb.w
    for _ in range(12):
        mri = rng.choice(list(w.fields))
        f = w.fields[mri]
        name = rng.choice(list(f.models))
        path = rng.choice([[mri], [mri, name], [mri, name, "value"], [mri, "nope"], ["NOPE"], [mri, name, "meta"]])
        there, want = w.get(path)
        r = lb.fetch("GET", "/rest/" + "/".join(quote(p) for p in path))
        m.count("rest_gets")
        if there:
            m.check(
                r is not None and r[0] == 200 and nan(json.loads(r[1])) == want,
                "rest-get",
                lambda: "%s gave %s" % (path, str(r)[:300]),
            )
        else:
            m.check(r is not None and r[0] >= 400, "rest-missing", lambda: "%s gave %s" % (path, r))
        m.distinct("rest", len(path), there)
        method = rng.choice(["add", "nothing", "fail", "nope"])
        params = {"add": dict(num=rng.randrange(50), name=mh.gen_string(rng))}.get(method, {})
        n = len(f.calls)
        r = lb.fetch("POST", "/rest/%s/%s" % (quote(mri), method), json.dumps(params))
        m.count("rest_posts")
        if method in ("add", "nothing"):
            want = "%s+%d" % (params["name"], params["num"]) if method == "add" else None
            m.check(
                r is not None and r[0] == 200 and json.loads(r[1]) == want and f.calls[n:] == [(method, params)],
                "rest-post",
                lambda: "%s gave %s" % (method, r),
            )
        else:
            m.check(r is not None and r[0] >= 400, "rest-error", lambda: "%s gave %s" % (method, r))
            if method == "fail":
                m.check(
                    r is not None and "failed with x" in (r[1] + r[2]), "rest-message", lambda: "%s" % (r,)
                )
        m.distinct("rest-post", method)
        if rng.random() < 0.3:
            r = lb.fetch("POST", "/rest/%s/add" % quote(mri), "{not json")
            m.check(r is not None and r[0] >= 400, "rest-bad", lambda: "%s" % (r,))
    pages(lb, m, rng)
    # The same things through a websocket
    ok_, conn = lb.run(lambda: lb.websocket_connect("ws://127.0.0.1:%d/ws" % lb.port))
    m.require(ok_, "connect", lambda: "%r" % conn)
    for i in range(10):
        mri = rng.choice(list(w.fields))
        f = w.fields[mri]
        name = rng.choice(list(f.models))
        there, want = w.get([mri, name])
        msg = json.dumps(dict(typeid=T % "Get", id=i, path=[mri, name]))
        lb.IOLoopHelper.call(conn.write_message, msg)
        good, text = lb.run(conn.read_message)
        m.count("ws_gets")
        m.check(
            good and nan(json.loads(text)) == dict(typeid=T % "Return", id=i, value=want),
            "ws-get",
            lambda: "%s" % str(text)[:300],
        )
    lb.IOLoopHelper.call(conn.close)
    m.distinct("loopback", lb.port % 2)
    # Only an enabled server serves
    from malcolm.core import Post, Return

    for _ in range(rng.randrange(1, 3)):
        r = w.cl.ask(Post(w.cl.id(), ["SERVER", "disable"], {}))
        m.check(isinstance(r, Return), "server-disable", lambda: "%s" % r)
        for _ in range(100):
            # The thread that serves gets round to it
            cothread.Sleep(0.05)
            r = lb.fetch("GET", "/rest/%s" % quote(mri))
            if r is None or r[0] == 599:
                break
        m.check(r is None or r[0] == 599, "server-disabled", lambda: "a disabled server gave %s" % str(r)[:200])
        r = w.cl.ask(Post(w.cl.id(), ["SERVER", "reset"], {}))
        m.check(isinstance(r, Return), "server-reset", lambda: "%s" % r)
        there, want = w.get([mri, "meta"])
        for _ in range(100):
            cothread.Sleep(0.05)
            r = lb.fetch("GET", "/rest/%s/meta" % quote(mri))
            if r is not None and r[0] == 200:
                break
        m.check(r is not None and r[0] == 200 and nan(json.loads(r[1])) == want, "server-enabled", lambda: "%s" % str(r)[:200])
        m.count("server_resets")


def pages(lb, m, rng):
    """The GUI is served for what nobody else serves"""
    from urllib.parse import quote

    files = lb.w.www[1]
    for _ in range(10):
        k = rng.choice(["/", "gui", "gui", "details", "file", "file", "missing", "outside"])
        want = None
        if k == "/":
            path, want = "/", files["index.html"]
        elif k in ("gui", "details"):
            path = "/%s%s" % (k, rng.choice(["", "/", "/B0", "/B0/.info/B1", "/B0/x.js", "/rest/B0", "/a%20b"]))
            want = files["index.html"]
        elif k == "file":
            name = rng.choice(list(files))
            path, want = "/" + quote(name), files[name]
        elif k == "missing":
            path = "/" + rng.choice(["nope.js", "static/nope", "indexx.html", "static"])
        else:
            path = "/" + rng.choice(["../secret", "%2e%2e/secret", "static/../../secret", "..%2fsecret", "../www2", "//etc/hostname", "%2Fetc%2Fhostname"])
        r = lb.fetch("GET", path)
        if want is not None:
            m.check(r is not None and r[0] == 200 and r[1] == want, "page", lambda: "%s gave %s not %r" % (path, str(r)[:200], want))
        else:
            m.check(r is not None and r[0] in (403, 404), "page-missing", lambda: "%s gave %s" % (path, str(r)[:200]))
        m.count("pages")
        m.distinct("page", k)




check = vmon.Check(
    "C15",
    [
        vmon.Scenario("websockets", websockets, quick=240, thorough=5000, timeout=90),
        vmon.Scenario("bursts", bursts, quick=28, thorough=400, timeout=90),
        vmon.Scenario("loopback", loopback, quick=16, thorough=80, timeout=90),
    ],
    rule="Distinct (kind of message, path length, exists, allowed), malformed messages, REST outcomes",
    required=[
        "messages", "views", "sent_Get", "sent_Put", "sent_Post", "sent_Subscribe", "sent_Unsubscribe", "bad_messages",
        "forbidden", "may_write", "may_not_write", "duplicate_ids", "ids_reused", "closes_with_subscriptions",
        "rest_gets", "rest_posts", "ws_gets", "pages", "server_resets",
    ],
    level="exploration",
    assumptions=[
        "In the websockets scenario tornado's loop is a queue and its sockets are replaced; loopback uses the real ones",
        "A client does not use an id for two requests in progress, except to subscribe twice",
    ],
)
if __name__ == "__main__":
    check.main()
