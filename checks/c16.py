#!/opt/venv/bin/python
"""C16: a websocket proxy converges to the remote block and acts on it.

The real WebsocketClientComms and ProxyController talk to the real server
handlers over a connection inside the process (lib/websim.py)."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vmon
import mh
import blockworld
import manrig
import websim
from manrig import BC, Client, ok

import cothread
from annotypes import Anno, add_call_types
from malcolm.core import Error, Part, Post, Process, Put, Return
from malcolm.modules.web.controllers import HTTPServerComms, WebsocketClientComms
from malcolm.modules.web.parts import WebsocketServerPart


class GatePart(Part):
    """A method and an attribute that finish when they are told to"""

    def prepare(self):
        self.open, self.inside = True, 0
        return self

    def setup(self, registrar):
        super().setup(registrar)
        registrar.add_method_model(self.gate)

    @add_call_types
    def gate(self) -> None:
        self.inside += 1
        while not self.open:
            cothread.Yield()
        self.inside -= 1


class World(blockworld.Blocks):
    def __init__(self, m, rng):
        self.m, self.rng = m, rng
        self.server_loop = websim.install(m, rng)
        self.process = Process("server")
        self.build()
        self.gate = GatePart("gate").prepare()
        g = BC.BasicController("GATE")
        g.add_part(self.gate)
        self.process.add_controller(g)
        self.server = HTTPServerComms("SERVER")
        self.server.add_part(WebsocketServerPart("ws"))
        self.process.add_controller(self.server)
        m.defer(mh.stop_process, self.process)
        manrig.start(self.process)
        mh.yields(5)
        self.cl = Client(self.process)
        self.link = websim.Link(m, self.server_loop, self.server)
        self.remote = Process("client")
        self.comms = WebsocketClientComms("COMMS", connect_timeout=0.8)
        self.remote.add_controller(self.comms)
        self.mris = list(self.ctrl) + ["GATE"]
        for mri in self.mris:
            self.remote.add_controller(BC.ProxyController(mri, "COMMS"))

        def end():
            self.gate.open = True
            mh.stop_process(self.remote)

        m.defer(end)
        manrig.start(self.remote)
        self.rcl = Client(self.remote)

    def state(self):
        return (
            self.server_loop.ran,
            self.link.client.ran,
            sum(len(f.puts) + len(f.calls) for f in self.fields.values()),
        )

    def settle(self):
        for _ in range(200):
            before = self.state()
            mh.settle_quiet(self.state, quiet=40, steps=6000)
            # Callbacks from other threads are only looked at when idle
            cothread.Sleep(0.002)
            mh.yields(20)
            if self.state() == before:
                return

    def ask(self, request):
        """Answer of the proxy"""
        box = self.rcl.send(request)
        for _ in range(100):
            self.settle()
            if box:
                return box[0]
        return None

    def judge(self, what):
        m = self.m
        for mri in self.mris:
            want, got = self.cl.get(mri), self.rcl.get(mri)
            m.count("proxies_compared")
            m.check(got == want, "proxy", lambda: "after %s: %s: %s" % (what, mri, mh.diff(want, got)))
        want = self.cl.get("SERVER", "blocks", "value")
        got = self.rcl.get("COMMS", "remoteBlocks", "value")
        m.check(got == want, "remote-blocks", lambda: "after %s: %s" % (what, mh.diff(want, got)))
        m.distinct("proxy", what)


def act(w, m, rng):
    mri = rng.choice(list(w.fields))
    f = w.fields[mri]
    if rng.random() < 0.5:
        name = rng.choice(list(f.models))
        plain = f.gens[name](rng)
        bad = rng.random() < 0.1 and "num" in name
        if bad:
            plain = object()
        before = w.cl.get(mri, name, "value")
        n = len(f.puts)
        resp = w.ask(Put(w.rcl.id(), [mri, name, "value"], plain))
        after = w.cl.get(mri, name, "value")
        if bad or name in f.readonly:
            m.check(
                isinstance(resp, Error) and after == before and f.puts[n:] == [],
                "put-refused",
                lambda: "%s.%s put %r: %s" % (mri, name, plain, resp),
            )
        else:
            want = mh.norm(f.models[name].meta.validate(plain))
            m.check(
                ok(resp) and after == want and f.puts[n:] == [(name, want)],
                "put",
                lambda: "%s.%s put %s: %s, now %s, setter %s" % (mri, name, want, resp, after, f.puts[n:]),
            )
        m.count("puts")
        return "put " + name
    method = rng.choice(["add", "add", "nothing", "fail", "odd", "nope"])
    params, call = {}, method
    if method == "add":
        params = dict(num=rng.randrange(100))
        if rng.random() < 0.5:
            params["name"] = mh.gen_string(rng)
    if method == "odd":
        call, params = "add", rng.choice([{}, dict(num="x"), dict(num=1, other=2), dict(num=object())])
    n = len(f.calls)
    resp = w.ask(Post(w.rcl.id(), [mri, call], params))
    m.count("calls")
    m.distinct("call", method)
    if method in ("odd", "nope"):
        m.check(
            isinstance(resp, Error) and f.calls[n:] == [], "call-refused", lambda: "%s(%s): %s" % (call, params, resp)
        )
        return "call " + method
    full = dict(params)
    if method != "nothing":
        full.setdefault("name", {"add": "dflt", "fail": "x"}[method])
    m.check(f.calls[n:] == [(method, full)], "call", lambda: "%s(%s): %s, %s" % (method, params, resp, f.calls[n:]))
    if method == "fail":
        m.check(
            isinstance(resp, Error) and "failed with " + full["name"] in str(resp.message),
            "error",
            lambda: "%s" % resp,
        )
    else:
        want = None if method == "nothing" else "%s+%d" % (full["name"], full["num"])
        m.check(
            ok(resp) and (mh.norm(resp.value) == want or (not want and not resp.value)),
            "result",
            lambda: "%s(%s) gave %s, wanted %s" % (method, params, resp, want),
        )
    return "call " + method


def follow(m, rng, idx):
    """No losses: the proxy follows, in the same order and the same groups"""
    w = World(m, rng)
    w.settle()
    w.judge("start")
    logs = []
    for mri in list(w.fields):
        there, here = [], []
        w.cl.subscribe([mri], there.append, delta=True)
        w.settle()
        w.rcl.subscribe([mri], here.append, delta=True)
        w.settle()
        logs.append((mri, there, here))
    for _ in range(rng.randrange(10, 30)):
        k = rng.randrange(3)
        for mri, there, here in logs:
            del there[:], here[:]
        what = []
        if k == 0:
            what.append(act(w, m, rng))
        else:
            for _ in range(rng.choice([1, 1, 2, 5])):
                what.append(w.change())
        w.settle()
        what = " ".join(what)
        w.judge(what if len(what) < 20 else "several")
        for mri, there, here in logs:
            # The proxy's subscribers see the remote's groups in order (one
            # without any change to the proxy is not told)
            a = [grouped(r) for r in there]
            b = [grouped(r) for r in here]
            m.count("groups", len(a))
            if any(len(x) > 1 for x in a):
                m.count("groups_of_several")
            m.check(
                a == b,
                "groups",
                lambda: "after %s: %s told its subscribers %s, the proxy %s" % (what, mri, str(a)[:500], str(b)[:500]),
            )
    m.check(not w.link.client.errors, "loop", lambda: "%s" % w.link.client.errors[:2])
    m.sample(dict(mris=w.mris, sent=[str(x)[:120] for x in w.link.conns[0].sent[:5]]))


def grouped(r):
    """{path: value} of the changes in a delta (later ones win)"""
    out = {}
    for change in mh.norm(r.changes):
        path = ".".join(change[0])
        if path == "meta.fields":
            # Told at different points of adding and removing a field
            continue
        out[path] = change[1] if len(change) > 1 else "<gone>"
    return out


def losses(m, rng, idx):
    w = World(m, rng)
    w.settle()
    w.judge("start")
    link = w.link
    for rnd in range(rng.randrange(2, 5)):
        for _ in range(rng.randrange(0, 4)):
            act(w, m, rng) if rng.random() < 0.4 else w.change()
            if rng.random() < 0.5:
                w.settle()
        # Some requests that won't be answered
        w.gate.open = False
        pending = [w.rcl.send(Post(w.rcl.id(), ["GATE", "gate"], {})) for _ in range(rng.randrange(0, 3))]
        r = rng.random()
        if r < 0.7:
            mh.yields(rng.randrange(0, 60))
            if rng.random() < 0.5:
                w.settle()
            if rng.random() < 0.4:
                # In flight
                for _ in range(rng.randrange(1, 4)):
                    w.change()
                mh.yields(rng.randrange(0, 10))
            link.lose()
            how = "loss"
        elif r < 0.85:
            # The server closes it
            w.settle()
            for c in link.conns:
                if not c.over:
                    w.server_loop.call(c.conn.close)
            how = "server close"
        else:
            w.settle()
            box = w.rcl.send(Post(w.rcl.id(), ["COMMS", "disable"], {}))
            for _ in range(20):
                w.settle()
            m.check(box and ok(box[0]), "disable", lambda: "disable of comms: %s" % box)
            how = "disable"
        for _ in range(3):
            w.settle()
        m.count("losses")
        state = w.rcl.get("COMMS", "state", "value")
        m.check(
            state == ("Disabled" if how == "disable" else "Fault"), "state", lambda: "comms are %s after %s" % (state, how)
        )
        for mri in w.mris:
            h = w.rcl.get(mri, "health")
            m.check(
                h["alarm"]["severity"] >= 3, "not-reported", lambda: "after %s health of %s is %s" % (how, mri, h)
            )
        for box in pending:
            m.count("pending")
            m.check(
                len(box) == 1 and isinstance(box[0], Error), "pending", lambda: "after %s request pending: %s" % (how, box)
            )
        w.gate.open = True
        for _ in range(rng.randrange(0, 3)):
            mri = rng.choice(list(w.fields))
            f = w.fields[mri]
            name = rng.choice(list(f.models))
            n = len(f.puts)
            resp = w.ask(Put(w.rcl.id(), [mri, name, "value"], f.gens[name](rng)))
            m.count("puts_while_lost")
            m.check(
                isinstance(resp, Error) and len(f.puts) == n, "lost-put", lambda: "put with no connection: %s" % resp
            )
        for _ in range(rng.randrange(0, 4)):
            w.change()
        if rng.random() < 0.5:
            w.reorder()
        if rng.random() < 0.15:
            link.down = True
            box = w.rcl.send(Post(w.rcl.id(), ["COMMS", "reset"], {}))
            for _ in range(300):
                w.settle()
                if box:
                    break
                cothread.Sleep(0.01)
            m.count("failed_resets")
            m.check(
                box and isinstance(box[0], Error) and w.rcl.get("COMMS", "state", "value") == "Fault",
                "reset-down",
                lambda: "reset while the server is down: %s %s" % (box, w.rcl.get("COMMS", "state", "value")),
            )
            link.down = False
        resp = w.ask(Post(w.rcl.id(), ["COMMS", "reset"], {}))
        m.require(ok(resp), "reset", lambda: "reset after %s: %s" % (how, resp))
        # As soon as it has been reset
        mh.settle(None, 5)
        w.settle()
        w.judge(how)
        for _ in range(rng.randrange(1, 4)):
            act(w, m, rng) if rng.random() < 0.4 else w.change()
        w.settle()
        w.judge("after " + how)


check = vmon.Check(
    "C16",
    [
        vmon.Scenario("follow", follow, quick=60, thorough=2500, timeout=90),
        vmon.Scenario("losses", losses, quick=40, thorough=1500, timeout=90),
    ],
    rule="Distinct (kind of change, put or call made before the proxies were compared)",
    required=[
        "proxies_compared", "puts", "calls", "groups", "groups_of_several", "losses", "pending", "puts_while_lost",
    ],
    level="exploration",
    assumptions=[
        "The websocket and its event loops are replaced by in-process ones that keep the order of messages and lose those in flight when cut",
    ],
)
if __name__ == "__main__":
    check.main()
