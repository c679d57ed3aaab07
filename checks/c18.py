#!/opt/venv/bin/python
"""C18: PandA client requests always get their own answers.

The real PandABlocksClient talks to a scripted PandA (lib/pandasim.py) whose
replies arrive in pieces of any size, or to one behind a real TCP socket."""
import collections
import os
import socket
import sys
import threading
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vmon
import mh
import pandasim

import cothread
from malcolm.core import Queue, Process
from malcolm.modules.pandablocks.pandablocksclient import PandABlocksClient

TEXTS = ["", "1", "=", "OK", "ERR", "a b  c", ".", "!", "!x", "x.", "<", "µm", "\u65e5\u672c", "\U0001f600", "a=b=c", "é" * 40, "x" * 5000]


def text(rng):
    return "".join(rng.choice(TEXTS[:-1] if rng.random() < 0.95 else TEXTS) for _ in range(rng.randrange(0, 4))).strip()


class Echo:
    """Replies that tell which command they are for"""

    def __init__(self, rng):
        self.rng, self.seen, self.want = rng, [], {}

    def make(self, n):
        """Decide the reply to command number n"""
        rng = self.rng
        r = rng.random()
        tag = "%d:%s" % (n, text(rng))
        if r < 0.35:
            self.want[n] = ("OK =" + tag + "\n", "OK =" + tag)
        elif r < 0.45:
            self.want[n] = ("OK\n", "OK")
        elif r < 0.6:
            self.want[n] = ("ERR " + tag + "\n", ValueError("ERR " + tag))
        elif r < 0.66:
            self.want[n] = (".\n", [])
        else:
            lines = [tag] + [text(rng) for _ in range(rng.choice([0, 1, 2, 3, 10, 60]))]
            rng.shuffle(lines)
            self.want[n] = ("".join("!%s\n" % x for x in lines) + ".\n", lines)
        return self.want[n][1]

    def answer(self, client, cmd, words=None):
        n = int(cmd.rstrip("?<").split(" ")[1])
        self.seen.append((n, cmd, words))
        return self.want[n][0]


def same(got, want):
    if isinstance(want, Exception):
        return type(got) is type(want) and str(got) == str(want)
    return type(got) is type(want) and got == want


def make(m, rng, answer, connect=None):
    net = pandasim.Net(rng, answer, connect)
    p = Process("panda")
    p.start()
    m.defer(mh.stop_process, p)
    c = PandABlocksClient("h", 1, Queue)
    c.start(p.spawn, net.socket)

    def end():
        net.paused = False
        for s in net.socks:
            s.cut()
        if c.started:
            c.stop()

    m.defer(end)
    return net, p, c


def attempt(fn, *args):
    try:
        return fn(*args)
    except Exception as e:
        return e


def message(rng, n):
    """A command: one line or a table"""
    if rng.random() < 0.2:
        words = [str(rng.randrange(1 << 32)) for _ in range(rng.choice([0, 1, 3, 50]))]
        return "T %d<\n" % n + "".join(w + "\n" for w in words) + "\n", ("T %d<" % n, words)
    t = rng.choice(["Q %d", "Q %d ?", "Q %d µm"]) % n
    return t + "?\n", (t + "?", None)


def requests(m, rng, idx):
    """Many senders, each sending several commands ahead"""
    echo = Echo(rng)
    net, p, c = make(m, rng, echo.answer)
    net.maxdelay = rng.choice([1, 3, 8])
    ids = iter(range(1, 100000))
    sent = collections.OrderedDict()  # number -> (sender, command)
    results = {}
    bad = []

    def sender(k):
        for _ in range(rng.randrange(1, 7)):
            pend = []
            for _ in range(rng.choice([1, 1, 1, 2, 5, 15])):
                if rng.random() < 0.05:
                    # Can't be encoded, so can't be sent
                    q = c.send("Q \udc80?\n")
                    bad.append(attempt(c.recv, q, 5.0) if rng.random() < 0.5 else q)
                    continue
                n = next(ids)
                want = echo.make(n)
                msg, cmd = message(rng, n)
                sent[n] = (k, cmd)
                m.distinct(cmd[1] is not None, type(want).__name__, len(want) if isinstance(want, list) else 0)
                if rng.random() < 0.3:
                    results[n] = attempt(c.send_recv, msg, 20.0)
                else:
                    pend.append((n, c.send(msg)))
            if rng.random() < 0.5:
                rng.shuffle(pend)
            for n, q in pend:
                results[n] = attempt(c.recv, q, 20.0)
            mh.yields(rng.randrange(0, 6))
        return True

    jobs = [cothread.Spawn(sender, k) for k in range(rng.choice([1, 2, 3, 6]))]
    for j in jobs:
        m.require(j.Wait(60), "sender", "a sender did not finish")
    m.count("requests", len(sent))
    m.count("pieces", net.pieces)
    m.count("unencodable", len(bad))
    m.check(
        sorted(x[0] for x in echo.seen) == sorted(sent),
        "received",
        lambda: "server received %r, sent %r" % ([x[0] for x in echo.seen], list(sent)),
    )
    for n, cmd, words in echo.seen:
        m.check((cmd, words) == sent[n][1], "command", lambda: "sent %r, received %r" % (sent[n][1], (cmd, words)))
    # Each sender's commands are in order
    per = collections.defaultdict(list)
    for n, _, _ in echo.seen:
        per[sent[n][0]].append(n)
    for k, v in per.items():
        m.check(v == sorted(v), "order", lambda: "commands of sender %s arrived as %s" % (k, v))
    for n in sent:
        want = echo.want[n][1]
        m.check(same(results.get(n), want), "reply", lambda: "command %d got %r, its reply is %r" % (n, results.get(n), want))
    for b in bad:
        b = b if isinstance(b, Exception) else attempt(c.recv, b, 5.0)
        m.check(isinstance(b, Exception), "unencodable", lambda: "a message that can't be sent got %r" % (b,))
    return net, p, c


# -- a whole box
WORDS = ["alpha", "beta", "The gamma, in µm", "", "x = y", "delta (error)", "a<b", "OK =", "é\u65e5"]
KINDS = [
    ("bit_out", ""), ("bit_mux", ""), ("pos_mux", ""), ("pos_out", ""), ("time", ""), ("param", "uint"), ("param", "enum"),
    ("read", "int"), ("read", "enum"), ("write", "action"), ("write", "enum"), ("ext_out", "timestamp"), ("ext_out", "bits"),
    ("table", ""), ("param", "scalar"), ("param", "lut"), ("param", "bit"),
]


def random_panda(rng):
    p = pandasim.Panda()
    names = ["TTLIN", "SEQ", "PULSE", "LUT", "COUNTER", "ADDER", "FMC_IN"]
    rng.shuffle(names)
    order = names[: rng.randrange(1, 6)] + ["PCAP"]
    rng.shuffle(order)
    for b in order:
        n = 1 if b == "PCAP" else rng.choice([1, 1, 2, 4, 12])
        fields = collections.OrderedDict()
        fnames = ["A", "B", "VAL", "OUT", "INP", "ENABLE", "TABLE", "STEP_RAW", "X1", "Y_2"]
        rng.shuffle(fnames)
        fnames = fnames[: rng.randrange(0, 9)]
        if rng.random() < 0.3:
            fnames += ["F%d" % j for j in range(rng.randrange(3, 9))]
        idx = list(range(len(fnames)))
        rng.shuffle(idx)
        for f, i in zip(fnames, idx):
            typ, sub = rng.choice(KINDS)
            labels = []
            if typ in ("bit_mux", "pos_mux") or sub == "enum" or typ == "ext_out":
                labels = [rng.choice(WORDS) + str(j) for j in range(rng.choice([0, 1, 3, 40]))]
            fields[f] = pandasim.Field(typ, sub, rng.choice(WORDS), labels)
            p.order[b, f] = i
            if typ == "ext_out" and sub == "bits" and b == "PCAP":
                p.bits[f] = [rng.choice(WORDS) + str(j) for j in range(rng.choice([0, 32]))]
            if typ == "table":
                cols, bit = [], 0
                for j in range(rng.randrange(0, 6)):
                    w = rng.choice([1, 3, 8, 16, 32])
                    kind = rng.choice(["", "int", "uint", "enum"])
                    labels = [rng.choice(WORDS) + str(k) for k in range(3)] if kind == "enum" else []
                    cols.append(pandasim.Column(bit + w - 1, bit, "C%d" % j, rng.choice(WORDS), labels, kind))
                    bit += w
                rng.shuffle(cols)
                p.tables[b, f] = cols
        p.blocks[b] = (n, rng.choice(WORDS), fields)
    for b in order:
        for inst in p.instances(b):
            for f, d in p.blocks[b][2].items():
                p.values["%s.%s" % (inst, f)] = value(rng, d.typ)
    return p


def value(rng, typ):
    if typ == "table":
        return [str(rng.randrange(1 << 32)) for _ in range(rng.choice([0, 1, 4, 100]))]
    return rng.choice(["0", "1", "-3.5", "a", "a=b", "<", "x<", "", "5 (error)", "µ", "TTLIN1.VAL", "ZERO", "(error)"])


def parse_changes(reply, include):
    out = []
    for line in reply[:-2].split("\n"):
        if line:
            line = line[1:]
            if "=" in line:
                out.append(tuple(line.split("=", 1)))
            elif line.endswith("<"):
                out.append((line[:-1], None))
            elif include:
                out.append((line.split(" ")[0], Exception))
    return out


def box(m, rng, idx):
    """What the client reports is what the box has"""
    panda = random_panda(rng)
    changes = []

    def answer(client, cmd, words=None):
        r = panda.answer(client, cmd, words)
        if cmd == "*CHANGES?":
            changes.append(r)
        return r

    net, p, c = make(m, rng, answer, panda.connect)
    running = [True]

    def noise():
        while running[0]:
            f = rng.choice(list(panda.values))
            got = attempt(c.get_field, *f.split("."))
            v = panda.values[f]
            if not isinstance(v, list) and f not in touched:
                m.check(got == v, "noise", lambda: "%s is %r, got %r" % (f, v, got))
            m.count("noise")
            mh.yields(rng.randrange(1, 20))
        return True

    touched = set()
    job = cothread.Spawn(noise) if rng.random() < 0.6 and panda.values else None
    # The layout
    got = c.get_blocks_data()
    m.check(list(got) == sorted(panda.blocks), "blocks", lambda: "%s != %s" % (list(got), sorted(panda.blocks)))
    for b, (n, desc, fields) in panda.blocks.items():
        g = got.get(b)
        m.require(g is not None, "blocks", "no block " + b)
        m.check((g.number, g.description) == (n, desc), "block", lambda: "%s: %r" % (b, g))
        names = sorted(fields, key=lambda f: panda.order[b, f])
        m.check(list(g.fields) == names, "fields", lambda: "%s: %s != %s" % (b, list(g.fields), names))
        for f, d in fields.items():
            m.count("fields")
            m.distinct("field", d.typ, d.sub, len(d.labels))
            have = g.fields.get(f)
            m.check(have is not None and tuple(have) == tuple(d), "field", lambda: "%s.%s: %r != %r" % (b, f, have, d))
    for (b, f), cols in panda.tables.items():
        got = attempt(c.get_table_fields, b, f)
        m.count("tables")
        want = [
            (x.name, (x.hi, x.lo, x.desc, x.labels if x.kind == "enum" else None, x.kind == "int")) for x in cols
        ]
        m.check(
            not isinstance(got, Exception) and [(k, tuple(v)) for k, v in got.items()] == want,
            "table-fields",
            lambda: "%s.%s: %r != %r" % (b, f, got, want),
        )
    got = c.get_pcap_bits_fields()
    want = [("PCAP.%s.CAPTURE" % k, panda.bits[k]) for k in sorted(panda.bits)]
    m.check(list(got.items()) == want, "bits", lambda: "%s != %s" % (got, want))
    # Values
    mirror = {}
    for _ in range(rng.randrange(2, 12)):
        r = rng.random()
        if not panda.values:
            break
        f = rng.choice(list(panda.values))
        b, n = f.split(".")
        v = panda.values[f]
        touched.add(f)
        if r < 0.35:
            include = rng.random() < 0.6
            k = len(changes)
            it = iter(c.get_changes(include))
            got = []
            while True:
                if rng.random() < 0.1:
                    f2 = rng.choice(list(panda.values))
                    if not isinstance(panda.values[f2], list):
                        touched.add(f2)
                        panda.poke(f2, value(rng, ""))
                x = next(it, None)
                if x is None:
                    break
                got.append(x)
            m.check(len(changes) == k + 1, "changes", lambda: "asked for changes %d times" % (len(changes) - k))
            want = parse_changes(changes[-1], include)
            want += [(a, panda.values[a]) for a, x in want if x is None]
            m.check(got == want, "changes", lambda: "%r != %r" % (got, want))
            m.count("changes", len(got))
            for a, x in got:
                mirror[a] = x
        elif r < 0.5:
            panda.poke(f, value(rng, "table" if isinstance(v, list) else ""))
            if rng.random() < 0.3:
                panda.errors ^= {f}
        elif isinstance(v, list) and r < 0.85:
            words = [rng.randrange(1 << 32) for _ in range(rng.choice([0, 1, 10, 200]))]
            res = attempt(c.set_table, b, n, words)
            m.count("table_writes")
            m.check(res is None and panda.values[f] == [str(x) for x in words], "set-table", lambda: "%r: %r" % (res, panda.values[f]))
        else:
            # Set one or several
            fs = [x for x in panda.values if not isinstance(panda.values[x], list)]
            rng.shuffle(fs)
            if fs and rng.random() < 0.3:
                # The same field of several blocks
                fs = [x for x in fs if x.split(".")[1] == fs[0].split(".")[1]]
            fs = fs[: rng.choice([1, 1, 2, 5])]
            for x in fs:
                touched.add(x)
            refused = [x for x in fs if rng.random() < 0.15]
            panda.refuse = {x: "%s no" % x for x in refused}
            vals = collections.OrderedDict((x, value(rng, "")) for x in fs)
            if rng.random() < 0.4:
                # The same for all of them
                v = value(rng, "")
                vals = collections.OrderedDict((x, v) for x in fs)
            before = dict(panda.values)
            if len(fs) == 1:
                res = attempt(c.set_field, *fs[0].split("."), vals[fs[0]])
            else:
                res = attempt(c.set_fields, vals)
            m.count("sets", len(fs))
            if refused:
                m.count("refused")
                m.check(
                    isinstance(res, ValueError) and str(res).endswith("ERR %s no" % [x for x in fs if x in refused][0]),
                    "refused",
                    lambda: "%r for %s" % (res, refused),
                )
            else:
                m.check(res is None, "set", lambda: "%r setting %r" % (res, vals))
            for x in fs:
                want = before[x] if x in refused else vals[x]
                m.check(panda.values[x] == want, "set", lambda: "%s is %r, not %r" % (x, panda.values[x], want))
            panda.refuse = {}
            if fs:
                got = attempt(c.get_field, *fs[0].split("."))
                m.check(got == panda.values[fs[0]], "get", lambda: "%r != %r" % (got, panda.values[fs[0]]))
    got = attempt(c.get_field, "NO", "THING")
    m.check(isinstance(got, ValueError), "get-error", lambda: "no such field: %r" % (got,))
    running[0] = False
    if job is not None:
        m.require(job.Wait(30), "noise", "a sender did not finish")
    for _ in range(2):
        for a, x in c.get_changes(True):
            mirror[a] = x
    want = {k: v for k, v in panda.values.items() if k not in panda.errors}
    bad = [k for k in want if mirror.get(k) != want[k]]
    m.check(not bad, "mirror", lambda: "changes gave %r, the box has %r" % ({k: mirror.get(k) for k in bad}, {k: want[k] for k in bad}))


def losses(m, rng, idx):
    """The connection goes away while requests are waiting"""
    echo = Echo(rng)

    def answer(client, cmd, words=None):
        r = echo.answer(client, cmd, words)
        return None if net.mute else r

    net, p, c = make(m, rng, answer)
    ids = iter(range(1, 100000))
    for _ in range(rng.randrange(1, 4)):
        net.mute = False
        jobs, lost = [], []
        for _ in range(rng.randrange(0, 5)):
            n = next(ids)
            want = echo.make(n)
            got = attempt(c.send_recv, message(rng, n)[0], 20.0)
            m.check(same(got, want), "before", lambda: "command %d got %r, its reply is %r" % (n, got, want))
        how = rng.choice(["cut", "cut", "partial", "stop", "write"])
        net.mute = how == "stop" or rng.random() < 0.4
        net.paused = not net.mute and rng.random() < 0.5
        asked = []
        for _ in range(rng.randrange(1, 8)):
            n = next(ids)
            want = echo.make(n)
            msg = message(rng, n)[0]
            if rng.random() < 0.5:
                asked.append((n, cothread.Spawn(attempt, c.send_recv, msg, 30.0)))
            else:
                asked.append((n, c.send(msg)))
        mh.yields(rng.randrange(0, 30))
        sock = net.socks[-1]
        if how == "stop":
            # Let them all be sent, so that they are really outstanding
            mh.yields(40)
            c.stop()
        elif how == "partial":
            sock.rx += rng.choice([b"!half\n", b"OK =a", b"\xc3", b"!a\n!b\xe6\x97", b"!"]) if net.mute else b""
            sock.event.Signal()
            mh.yields(rng.randrange(0, 4))
            sock.cut()
        elif how == "write":
            # Known from writing first
            sock.closed = True
        else:
            sock.cut()
        for _ in range(rng.randrange(0, 3) if how != "stop" else 0):
            n = next(ids)
            echo.make(n)
            msg = message(rng, n)[0]
            asked.append((n, cothread.Spawn(attempt, c.send_recv, msg, 30.0)))
        if how == "write":
            n = next(ids)
            echo.make(n)
            asked.append((n, c.send(message(rng, n)[0])))
            mh.yields(20)
            sock.event.Signal()
        m.count("losses")
        m.distinct("lost", how, net.mute, net.paused, len(asked))
        start = time.time()
        failed = 0
        for n, x in asked:
            want = echo.want[n][1]
            if isinstance(x, Queue):
                got = attempt(c.recv, x, 3.0)
            else:
                try:
                    got = x.Wait(3.0)
                except cothread.Timedout:
                    got = "nothing"
            # Either it was answered in time, or it fails now
            good = same(got, want)
            lostit = isinstance(got, Exception) and not isinstance(got, (ValueError, TimeoutError))
            if lostit and "imed" in type(got).__name__:
                lostit = False
            m.check(
                good or lostit,
                "outstanding",
                lambda: "after %s, command %d got %r (%s)" % (how, n, got, type(got)),
            )
            failed += lostit
        m.count("failed", failed)
        m.check(time.time() - start < 2.5, "outstanding", lambda: "requests waited %.1f s after %s" % (time.time() - start, how))
        net.mute = net.paused = False
        if how != "stop":
            if rng.random() < 0.6:
                n = next(ids)
                echo.make(n)
                got = attempt(c.send_recv, message(rng, n)[0], 3.0)
                m.check(
                    isinstance(got, Exception) and "imed" not in type(got).__name__ and "mpty" not in type(got).__name__,
                    "later",
                    lambda: "a request after %s got %r" % (how, got),
                )
            c.stop()
        if rng.random() < 0.3:
            net.down = True
            e = attempt(c.start, p.spawn, net.socket)
            m.check(isinstance(e, ConnectionError), "refused", lambda: "start() without a server: %r" % (e,))
            net.down = False
        c.start(p.spawn, net.socket)
        m.count("restarts")
    for _ in range(3):
        n = next(ids)
        want = echo.make(n)
        got = attempt(c.send_recv, message(rng, n)[0], 20.0)
        m.check(same(got, want), "after", lambda: "command %d got %r, its reply is %r" % (n, got, want))


def threads(m, rng, idx):
    """Real threads and a real socket"""
    echo = Echo(rng)
    lock = threading.Lock()
    srv = socket.socket()
    srv.bind(("127.0.0.1", 0))
    srv.listen(1)
    port = srv.getsockname()[1]
    conns = []
    mute = [False]
    seeds = [rng.randrange(1 << 30) for _ in range(2)]

    def serve():
        import random

        r = random.Random(seeds[0])
        while True:
            try:
                conn, _ = srv.accept()
            except OSError:
                return
            conns.append(conn)
            out = []
            parser = pandasim.Parser(lambda cmd, words: out.append(echo.answer(None, cmd, words)))
            try:
                while True:
                    data = conn.recv(r.choice([10, 4096]))
                    if not data:
                        break
                    parser.feed(data)
                    if mute[0]:
                        continue
                    data, out[:] = "".join(out).encode("utf-8"), []
                    while data:
                        k = r.choice([1, 3, 50, 5000])
                        conn.sendall(data[:k])
                        data = data[k:]
                        if r.random() < 0.1:
                            time.sleep(0.0003)
            except OSError:
                pass

    st = threading.Thread(target=serve, daemon=True)
    st.start()

    def shut():
        srv.close()
        for x in conns:
            x.close()

    m.defer(shut)
    c = PandABlocksClient("127.0.0.1", port)
    c.start()
    ids = iter(range(1, 100000))
    results, sent = {}, []

    def sender(seed):
        import random

        r = random.Random(seed)
        for _ in range(12):
            pend = []
            for _ in range(r.choice([1, 3, 8])):
                with lock:
                    n = next(ids)
                    echo.make(n)
                    msg = message(rng, n)[0]
                    sent.append(n)
                pend.append((n, c.send(msg)))
            for n, q in pend:
                results[n] = attempt(c.recv, q, 20.0)

    ts = [threading.Thread(target=sender, args=(rng.randrange(1 << 30),), daemon=True) for _ in range(4)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(60)
        m.require(not t.is_alive(), "sender", "a sender did not finish")
    for n in sent:
        want = echo.want[n][1]
        m.check(same(results.get(n), want), "reply", lambda: "command %d got %r, its reply is %r" % (n, results.get(n), want))
    m.count("thread_requests", len(sent))
    mute[0] = True
    asked = []
    for _ in range(rng.randrange(1, 6)):
        n = next(ids)
        echo.make(n)
        asked.append(c.send(message(rng, n)[0]))
    time.sleep(rng.choice([0, 0.01]))
    if rng.random() < 0.5:
        for x in conns:
            try:
                x.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass
            x.close()
        stopped = False
    else:
        c.stop()
        stopped = True
    start = time.time()
    for q in asked:
        got = attempt(c.recv, q, 8.0)
        m.check(isinstance(got, OSError), "outstanding", lambda: "an outstanding request got %r" % (got,))
        m.count("thread_failed")
    m.check(time.time() - start < 6, "outstanding", "outstanding requests waited")
    if not stopped:
        c.stop()


check = vmon.Check(
    "C18",
    [
        vmon.Scenario("requests", requests, quick=360, thorough=5000, timeout=90),
        vmon.Scenario("box", box, quick=360, thorough=5000, timeout=90),
        vmon.Scenario("losses", losses, quick=360, thorough=5000, timeout=90),
        vmon.Scenario("threads", threads, quick=36, thorough=300, timeout=90),
    ],
    rule="Distinct (kind of command, kind and length of reply), (kind of field, number of labels) and (kind of loss, requests waiting)",
    required=[
        "requests", "pieces", "unencodable", "noise", "fields", "tables", "changes", "table_writes", "sets", "refused",
        "losses", "failed", "restarts", "thread_requests", "thread_failed",
    ],
    level="exploration",
    assumptions=[
        "The server answers each command once, in the order it received them, with well formed replies",
        "Requests made while the client is stopped are not claimed",
    ],
)
if __name__ == "__main__":
    check.main()
