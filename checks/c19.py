#!/opt/venv/bin/python
"""C19: PandA tables, fields and buses reach the hardware and come back unchanged.

The real PandAManagerController, its child blocks and its client against a
simulated PandA (lib/pandasim.py) whose memory is the reference."""
import collections
import json
import math
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vmon
import mh
import manrig
import pandasim
from manrig import Client, ok

import cothread
from malcolm.core import Error, Post, Process, Put
from malcolm.modules.builtin.util import LayoutTable
from malcolm.modules.pandablocks.controllers import pandamanagercontroller as pmc
from malcolm.modules.ADPandABlocks.parts.pandadatasetbussespart import PandADatasetBussesPart

EDGES = ["rising", "falling", "either"]
GROUPS = 4


def camel(name):
    parts = name.replace(".", "_").lower().split("_")
    return parts[0] + "".join(x.title() for x in parts[1:])


def poll_queue(rng):
    """The poll loop waits for its next turn, or to be told to stop, with this:
    have it wait for some turns of the scheduler so that schedules repeat"""
    from malcolm.core import Queue, TimeoutError

    class PollQueue(Queue):
        def get(self, timeout=None):
            if timeout is not None:
                for _ in range(rng.choice([1, 4, 15, 40])):
                    try:
                        return Queue.get(self, timeout=0)
                    except TimeoutError:
                        cothread.Yield()
                raise TimeoutError("timed out")
            return Queue.get(self)

    return PollQueue


class DatasetController(pmc.PandAManagerController):
    """With the tables that say what to call what is captured"""

    def _make_busses(self):
        return PandADatasetBussesPart("busses", self._client)


class Rig:
    def __init__(self, m, rng, down=False):
        self.m, self.rng = m, rng
        self.panda = pandasim.Panda()
        self.kinds = collections.OrderedDict()  # full field -> (kind, labels)
        self.writeonly = {}  # full field -> (kind, labels)
        self.actions = []
        self.busy = set()  # fields being put to
        self.make()
        self.net = pandasim.Net(rng, self.panda.answer, self.panda.connect)
        self.net.maxdelay = rng.choice([1, 2, 4])
        old = pmc.socket
        pmc.socket = self.net.socket

        def restore():
            pmc.socket = old

        m.defer(restore)
        self.net.down = down
        self.process = Process("panda")
        self.named = {}  # (table, name) -> what we called it
        self.ctrl = rng.choice([pmc.PandAManagerController, DatasetController])(
            mri="P", config_dir=m.tmpdir(), poll_period=rng.choice([0.0005, 0.002, 0.004])
        )
        self.process.add_controller(self.ctrl)
        oldq = pmc.Queue
        pmc.Queue = poll_queue(rng)

        def end():
            self.net.paused = False
            mh.stop_process(self.process)
            pmc.Queue = oldq
            for s in self.net.socks:
                s.cut()

        m.defer(end)
        manrig.start(self.process)
        self.cl = Client(self.process)

    # -- the box
    def make(self):
        rng, p = self.rng, self.panda
        names = ["TTLIN", "TTLOUT", "SEQ", "PULSE", "LUT", "COUNTER", "SRGATE", "FMC_IN", "POSENC"]
        rng.shuffle(names)
        self.bit_names, self.pos_names = [], []
        plan = []
        for b in names[: rng.randrange(2, 6)] + ["PCAP"]:
            n = 1 if b == "PCAP" else rng.choice([1, 1, 2, 3])
            fields = collections.OrderedDict()
            pool = ["VAL", "OUT", "A", "INP", "ENABLE", "TRIG", "STEP_SIZE", "X1", "WIDTH", "TABLE", "POSN", "Y"]
            rng.shuffle(pool)
            for f in pool[: rng.randrange(0, 7)]:
                fields[f] = self.make_field(b, f)
            if b == "LUT":
                fields["FUNC"] = pandasim.Field("param", "lut", "func", [])
                if rng.random() < 0.6:
                    fields["TYPEA"] = pandasim.Field("param", "enum", "type", ["level"] + EDGES)
            if b == "SRGATE":
                fields["SET_EDGE"] = pandasim.Field("param", "enum", "set", EDGES)
                fields["RST_EDGE"] = pandasim.Field("param", "enum", "reset", EDGES)
            if b == "PULSE" and rng.random() < 0.6:
                fields["TRIG_EDGE"] = pandasim.Field("param", "enum", "edge", EDGES)
            if rng.random() < 0.3:
                fields["HEALTH"] = pandasim.Field("read", "enum", "health", ["OK", "Bad", "Very bad"])
            if b == "PCAP":
                for i in range(GROUPS):
                    fields["BITS%d" % i] = pandasim.Field("ext_out", "bits", "bits", ["No", "Value"])
            p.blocks[b] = (n, rng.choice(["Some block", "µ block", ""]), fields)
            for i, f in enumerate(fields):
                p.order[b, f] = i
            for inst in p.instances(b):
                for f, d in fields.items():
                    if d.typ == "bit_out":
                        self.bit_names.append("%s.%s" % (inst, f))
                    elif d.typ == "pos_out":
                        self.pos_names.append("%s.%s" % (inst, f))
        # Muxes can be given anything
        for b, (n, desc, fields) in p.blocks.items():
            for f, d in list(fields.items()):
                if d.typ == "bit_mux":
                    fields[f] = d._replace(labels=["ZERO", "ONE"] + self.bit_names)
                elif d.typ == "pos_mux":
                    fields[f] = d._replace(labels=["ZERO"] + self.pos_names)
        grouped = [x for x in self.bit_names if rng.random() < 0.9]
        for i in range(GROUPS):
            mine = grouped[i::GROUPS]
            p.bits["BITS%d" % i] = mine + [""] * (32 - len(mine))
        self.grouped = grouped
        for b in p.blocks:
            for inst in p.instances(b):
                for f, d in p.blocks[b][2].items():
                    self.add_values(b, inst, f, d)
        if rng.random() < 0.7:
            for b in p.blocks:
                if b == "LUT" or rng.random() < 0.5:
                    for i in range(p.blocks[b][0]):
                        self.kinds["*METADATA.LABEL_%s%d" % (b, i + 1)] = ("label", [])
        for f, (kind, labels) in self.kinds.items():
            p.values[f] = self.text(kind, labels)
        for f in list(p.values):
            if f.endswith(".FUNC"):
                p.raw[f + ".RAW"] = "0x%08X" % rng.choice([0, 0xFFFF0000, 0xFF000000, 0x12345678, 0x33333333])
        p.values["*METADATA.LAYOUT"] = []

    def make_field(self, b, f):
        rng = self.rng
        typ, sub = rng.choice(
            [
                ("bit_out", ""), ("bit_out", ""), ("bit_mux", ""), ("pos_mux", ""), ("pos_out", ""), ("pos_out", ""), ("time", ""),
                ("param", "time"), ("read", "time"), ("param", "uint"), ("param", ""), ("param", "int"), ("param", "pos"),
                ("param", "scalar"), ("param", "bit"), ("param", "enum"), ("param", "lut"), ("read", "uint"), ("read", "int"),
                ("read", "bit"), ("read", "enum"), ("read", "scalar"), ("write", "action"), ("write", "uint"), ("write", "enum"),
                ("write", "bit"), ("ext_out", "timestamp"), ("table", ""), ("table", ""), ("table", ""),
            ]
        )
        labels = []
        if sub == "enum":
            labels = ["a", "b b", "µ", "0", "No"][: rng.randrange(1, 6)]
        elif typ == "ext_out":
            labels = ["No", "Value"]
        if typ == "table":
            self.panda.tables[b, f] = self.make_columns()
        return pandasim.Field(typ, sub, "The " + f, labels)

    def make_columns(self):
        """Columns that never cross a word"""
        rng = self.rng
        cols = []
        if rng.random() < 0.1:
            return cols
        words = rng.choice([1, 1, 2, 4, 5])
        for w in range(words):
            lo = rng.choice([0, 0, 0, 3])
            while lo < 32 and rng.random() < 0.93:
                width = min(rng.choice([1, 1, 2, 4, 6, 7, 8, 9, 12, 15, 16, 16, 17, 31, 32]), 32 - lo)
                kind = rng.choice(["", "int", "uint", "enum"])
                labels = []
                if kind == "enum":
                    labels = ["Immediate", "BITA=0", "x > y", "µ"][: min(4, 2**width)]
                cols.append(
                    pandasim.Column(w * 32 + lo + width - 1, w * 32 + lo, "C%d_%s" % (len(cols), rng.choice("ABC")), "col", labels, kind)
                )
                lo += width + rng.choice([0, 0, 0, 1, 5])
        rng.shuffle(cols)
        return cols

    def add_values(self, b, inst, f, d):
        k = "%s.%s" % (inst, f)
        p = self.panda
        if f == "HEALTH":
            self.kinds[k] = ("health", d.labels)
            p.readonly.add(k)
        elif d.typ == "time" or d.sub == "time":
            self.kinds[k] = ("time", [])
            self.kinds[k + ".UNITS"] = ("enum", pandasim.TIME_UNITS)

            def rescale(v, k=k):
                # The time stays the same, so its number changes
                self.panda.poke(k, repr(float(self.panda.values[k]) * 2))

            if self.rng.random() < 0.7:
                p.after[k + ".UNITS"] = rescale
        elif d.typ == "write" and d.sub == "action":
            self.actions.append(k)
            p.values[k] = ""
            p.writeonly.add(k)
            p.coerce[k] = None
        elif d.typ == "write":
            self.writeonly[k] = (d.sub, d.labels)
            p.values[k] = ""
            p.writeonly.add(k)
        elif d.typ in ("param", "read"):
            self.kinds[k] = (d.sub or "uint", d.labels)
        elif d.typ == "bit_out":
            self.kinds[k] = ("bit", [])
        elif d.typ == "pos_out":
            self.kinds[k] = ("pos", [])
            self.kinds[k + ".CAPTURE"] = ("bus", pandasim.CAPTURE)
            self.kinds[k + ".UNITS"] = ("bus", ["mm", "", "deg", "µm"])
            self.kinds[k + ".SCALE"] = ("busfloat", [])
            self.kinds[k + ".OFFSET"] = ("busfloat", [])
        elif d.typ == "ext_out":
            self.kinds[k + ".CAPTURE"] = ("bus" if d.sub == "bits" else "enum", d.labels)
        elif d.typ in ("bit_mux", "pos_mux"):
            self.kinds[k] = ("enum", d.labels)
            if d.typ == "bit_mux":
                self.kinds[k + ".DELAY"] = ("uint8", [])
        elif d.typ == "table":
            self.kinds[k] = ("table", p.tables[b, f])
        if d.typ in ("read", "bit_out", "pos_out"):
            p.readonly.add(k)

    def text(self, kind, labels):
        """A text that the hardware may have"""
        rng = self.rng
        v = self.value(kind, labels)
        if kind == "table":
            return [str(x) for x in encode(labels, v)]
        if kind == "bit":
            return str(int(v))
        return str(v)

    def value(self, kind, labels):
        rng = self.rng
        if kind in ("uint", "uint8"):
            return rng.choice([0, 1, 5, rng.randrange(256), 255] + ([] if kind == "uint8" else [2**31, 2**32 - 1]))
        if kind in ("int", "pos"):
            return rng.choice([0, 1, -1, 2**31 - 1, -(2**31), rng.randrange(-1000, 1000)])
        if kind in ("scalar", "time", "busfloat"):
            return rng.choice([0.0, 1.0, 0.1, -2.5, 1e-7, 1.23456789012345e12, rng.random()])
        if kind == "bit":
            return rng.random() < 0.5
        if kind in ("enum", "health", "bus"):
            return rng.choice(labels)
        if kind == "lut":
            return rng.choice(["A&B", "", "0xFF", "A=>B", "~C"])
        if kind == "label":
            return rng.choice(["", "My label", "é", "a=b"])
        assert kind == "table", kind
        n = rng.choice([0, 1, 2, 3, 17])
        if not labels:
            return {"value": [self.value("int", []) for _ in range(n)]}
        out = collections.OrderedDict()
        for c in labels:
            w = c.hi - c.lo + 1
            col = []
            for _ in range(n):
                if c.labels:
                    col.append(rng.choice(c.labels))
                elif w == 1:
                    col.append(rng.random() < 0.5)
                elif c.kind == "int":
                    col.append(rng.choice([0, -1, -(2 ** (w - 1)), 2 ** (w - 1) - 1, rng.randrange(-(2 ** (w - 1)), 2 ** (w - 1))]))
                else:
                    col.append(rng.choice([0, 1, 2**w - 1, 2 ** (w - 1), rng.randrange(2**w)]))
            out[camel(c.name)] = col
        return out

    # -- waiting
    def settle(self, polls=5):
        """Until everything has been polled"""
        for _ in range(3):
            log = len(self.panda.log)
            want = self.panda.asked + polls
            for i in range(20000):
                if self.panda.asked >= want:
                    break
                mh.yields(8)
                if i > 2000:
                    cothread.Sleep(0.0005)
                if self.cl.get("P", "state", "value") == "Fault":
                    return
            mh.yields(10)
            if len(self.panda.log) == log:
                return

    def wait(self, box, n=4000):
        for i in range(n):
            if box:
                return box[0]
            mh.yields(10)
            if i > 1000:
                cothread.Sleep(0.0003)
        return None

    def ask(self, request):
        return self.wait(self.cl.send(request))

    # -- judging
    def where(self, f):
        """(mri, attribute) that shows a field"""
        if f.startswith("*METADATA.LABEL_"):
            b = f[len("*METADATA.LABEL_") :]
            if b not in [i for r in self.panda.blocks for i in self.panda.instances(r)]:
                b = b[:-1]
            return "P:" + b, "label"
        b, n = f.split(".", 1)
        return "P:" + b, "health" if n == "HEALTH" else camel(n)

    def expect(self, f):
        kind, labels = self.kinds[f]
        t = self.panda.values[f]
        if kind == "table":
            return decode(labels, t)
        if kind in ("uint", "int", "pos", "uint8"):
            return int(t)
        if kind in ("scalar", "time", "busfloat"):
            return float(t)
        if kind == "bit":
            return t == "1"
        if kind == "label" and not t:
            mri = self.where(f)[0]
            inst = mri[2:]
            root = self.panda.root(inst)
            return self.panda.blocks[root][1] + (" " + inst[len(root) :] if inst != root else "")
        return t

    def judge(self, what):
        m, p = self.m, self.panda
        state = self.cl.get("P", "state", "value")
        m.require(state == "Ready", "state", lambda: "state %r after %s: %r" % (state, what, self.cl.get("P", "health", "value")))
        blocks = {}
        for b in p.blocks:
            for inst in p.instances(b):
                blocks["P:" + inst] = self.cl.get("P:" + inst)
                m.require(blocks["P:" + inst] is not None, "block", lambda: "no block for " + inst)
        for f, (kind, labels) in self.kinds.items():
            if kind in ("bus", "busfloat"):
                continue
            mri, attr = self.where(f)
            a = blocks[mri].get(attr)
            m.require(a is not None, "attribute", lambda: "no attribute for " + f)
            want, got = self.expect(f), a["value"]
            m.count("fields_compared")
            if kind == "table":
                got = {k: v for k, v in got.items() if k != "typeid"}
                m.check(got == dict(want), "table", lambda: "after %s %s: %s" % (what, f, mh.diff(dict(want), got)))
                m.distinct("table", tuple(sorted((c.hi - c.lo + 1, c.lo % 32, c.kind) for c in labels))[:3])
            else:
                same = got == want and isinstance(got, bool) == isinstance(want, bool)
                m.check(same, "field", lambda: "after %s %s is %r, hardware has %r" % (what, f, got, p.values[f]))
            if kind == "health":
                sev = a["alarm"]["severity"]
                m.check((sev == 0) == (want == "OK"), "health", lambda: "%s %r has severity %r" % (f, want, sev))
            d = p.blocks[p.root(mri[2:])][2].get(f.split(".")[1]) if not f.startswith("*") else None
            if d is not None and d.typ in ("bit_mux", "pos_mux") and f.count(".") == 1:
                links = [t for t in a["meta"]["tags"] if t.startswith("linkedvalue:")]
                want = []
                if "." in p.values[f]:
                    mri2, attr2 = self.where(p.values[f])
                    want = ["linkedvalue:%s:%s" % (attr2, mri2)] if attr2 in blocks[mri2] else None
                m.check(links == want, "link", lambda: "%s is %r, linked to %r" % (f, p.values[f], links))
        # The layout
        t = self.cl.get("P", "layout", "value")
        got = {n: dict(x=x, y=y) for n, x, y, vis in zip(t["name"], t["x"], t["y"], t["visible"]) if vis}
        words = p.values["*METADATA.LAYOUT"]
        want = json.loads("".join(words)) if words else {}
        if words:
            self.layout_lost = False
        # A PandA that keeps no layout doesn't undo a put that it never got
        m.check(got == want or self.layout_lost, "layout", lambda: "after %s: layout is %r, hardware has %r" % (what, got, want))
        # The buses
        bits = self.cl.get("P", "bits", "value")
        want = []
        for g, names in p.bits.items():
            for n in names:
                if n:
                    want.append((n, p.values[n] == "1", p.values["PCAP.%s.CAPTURE" % g] != "No"))
        got = list(zip(bits["name"], bits["value"], bits["capture"]))
        m.count("bits_compared", len(want))
        m.check(got == want, "bits", lambda: "after %s: %s" % (what, [x for x in zip(got, want) if x[0] != x[1]][:3]))
        self.judge_names("bits", bits, what)
        pos = self.cl.get("P", "positions", "value")
        self.judge_names("positions", pos, what)
        rows = list(zip(pos["name"], pos["value"], pos["units"], pos["scale"], pos["offset"], pos["capture"]))
        m.check(sorted(pos["name"]) == sorted(self.pos_names), "positions", lambda: "%s != %s" % (pos["name"], self.pos_names))
        m.count("positions_compared", len(rows))
        for n, value, units, scale, offset, capture in rows:
            v = p.values
            ws, wo = float(v[n + ".SCALE"]), float(v[n + ".OFFSET"])
            m.check(
                (units, scale, offset, capture) == (v[n + ".UNITS"], ws, wo, v[n + ".CAPTURE"]),
                "positions",
                lambda: "after %s: %s is %r, hardware has %r"
                % (what, n, (units, scale, offset, capture), [v[n + x] for x in (".UNITS", ".SCALE", ".OFFSET", ".CAPTURE")]),
            )
            w = int(v[n]) * ws + wo
            m.check(
                math.isclose(value, w, rel_tol=1e-12, abs_tol=1e-300),
                "position-value",
                lambda: "after %s: %s is %r, hardware has %s * %s + %s" % (what, n, value, v[n], ws, wo),
            )

    # -- doing things
    def poke(self):
        """Something changes on the hardware"""
        rng, p = self.rng, self.panda
        for _ in range(rng.choice([1, 1, 2, 5])):
            f = rng.choice(list(self.kinds))
            p.poke(f, self.text(*self.kinds[f]))
            if f.endswith(".FUNC"):
                p.raw[f + ".RAW"] = "0x%08X" % rng.choice([0, 0xFFFF0000, 0xFF000000, 0x12345678])
            self.m.distinct("poke", self.kinds[f][0])
        self.m.count("pokes")
        if rng.random() < 0.15:
            self.poke_layout()

    def layout(self):
        rng = self.rng
        names = [i for b in self.panda.blocks for i in self.panda.instances(b)]
        return {n: dict(x=rng.choice([0.0, 10.5, -3.0]), y=rng.choice([0.0, 1.0])) for n in names if rng.random() < 0.5}

    def poke_layout(self):
        """Someone else changes the layout"""
        text = json.dumps(self.layout())
        k = self.rng.randrange(1, len(text) + 1)
        self.panda.poke("*METADATA.LAYOUT", [x for x in (text[:k], text[k:]) if x])
        self.m.count("layout_pokes")

    layout_lost = False

    def put_layout(self, quiet):
        lay = self.layout()
        names = [i for b in self.panda.blocks for i in self.panda.instances(b)]
        self.rng.shuffle(names)
        if self.rng.random() < 0.3:
            names = names[: self.rng.randrange(1, len(names) + 1)]
        old = json.loads("".join(self.panda.values["*METADATA.LAYOUT"]) or "{}")
        t = dict(
            name=names, mri=["P:" + n for n in names], x=[lay.get(n, dict(x=5.0))["x"] for n in names],
            y=[lay.get(n, dict(y=5.0))["y"] for n in names], visible=[n in lay for n in names],
        )
        want = {k: v for k, v in old.items() if k not in names}
        want.update({k: v for k, v in lay.items() if k in names})

        def judge(resp):
            self.m.count("layout_puts")
            self.m.check(ok(resp), "layout-put", lambda: "%s" % resp)
            got = json.loads("".join(self.panda.values["*METADATA.LAYOUT"]) or "{}")
            if quiet:
                self.m.check(got == want, "layout-put", lambda: "put %s, hardware has %s" % (want, got))

        return Put(self.cl.id(), ["P", "layout", "value"], t), judge

    def fuzz_bits(self):
        for f in self.bit_names:
            if self.rng.random() < 0.4:
                self.panda.poke(f, self.rng.choice("01"))
        self.m.count("bit_storms")

    def writeable(self):
        return [
            f for f, (kind, _) in list(self.kinds.items()) + list(self.writeonly.items())
            if f not in self.panda.readonly and kind not in ("bus", "busfloat", "health")
        ]

    def put(self, quiet):
        """Returns (request, judge of its response)"""
        rng, p, m = self.rng, self.panda, self.m
        fs = self.writeable()
        if not fs:
            return None
        tables = [f for f in fs if (self.kinds.get(f) or self.writeonly.get(f))[0] == "table"]
        f = rng.choice(tables if tables and rng.random() < 0.3 else fs)
        kind, labels = self.kinds.get(f) or self.writeonly[f]
        v = self.value(kind, labels)
        mri, attr = self.where(f)
        send = dict(v) if kind == "table" else v
        how = rng.random()
        if f in self.busy:
            # Another put to this is on its way
            if f in p.refuse or f in p.coerce:
                return None
            how = 1
        self.busy.add(f)
        coerced = False
        if how < 0.12:
            p.refuse[f] = "Not today"
        elif kind in ("uint", "int", "scalar", "time", "enum", "lut") and how < 0.3:
            other = self.text(kind, labels)
            p.coerce[f] = lambda text: other
            coerced = True
        n = len(p.log)
        m.count("puts")
        m.distinct("put", kind, f in p.refuse, coerced)

        def judge(resp):
            mine = [x for k, x in p.log[n:] if k == f]
            if f in p.refuse:
                m.count("refused")
                m.check(isinstance(resp, Error), "refused", lambda: "%s refused by the hardware: %s" % (f, resp))
            else:
                m.check(ok(resp), "put", lambda: "put %r to %s: %s" % (v, f, resp))
                m.check(len(mine) == 1 or not quiet, "sent", lambda: "put %r to %s sent %r" % (v, f, mine))
                if mine and quiet:
                    got = decode(labels, mine[0]) if kind == "table" else parse(kind, mine[0])
                    want = dict(v) if kind == "table" else v
                    m.check(got == want, "sent", lambda: "put %r to %s sent %r" % (v, f, mine[0]))
            if quiet:
                self.calm()

        return Put(self.cl.id(), [mri, attr, "value"], send), judge

    def calm(self):
        """Nothing is being put to"""
        self.panda.refuse.clear()
        for f in [f for f, x in self.panda.coerce.items() if x is not None]:
            self.panda.coerce.pop(f)
        self.busy.clear()

    def act(self, quiet):
        if not self.actions:
            return None
        f = self.rng.choice(self.actions + ["*PCAP.ARM", "*PCAP.DISARM"])
        if f.startswith("*"):
            mri, attr = "P:PCAP", f[6:].lower()
        else:
            mri, attr = self.where(f)
        n = len(self.panda.log)

        def judge(resp):
            self.m.count("actions")
            self.m.check(ok(resp), "action", lambda: "%s: %s" % (f, resp))
            mine = [x for k, x in self.panda.log[n:] if k == f]
            self.m.check(mine == [""] or not quiet, "action", lambda: "%s sent %r" % (f, mine))

        return Post(self.cl.id(), [mri, attr], {}), judge

    def edit_positions(self, quiet):
        rng, p, m = self.rng, self.panda, self.m
        t = self.cl.get("P", "positions", "value")
        if not t["name"]:
            return None
        t = {k: list(v) for k, v in t.items() if k != "typeid"}
        want = {}
        for _ in range(rng.choice([1, 1, 2, 6])):
            i = rng.randrange(len(t["name"]))
            for c in rng.sample(["units", "scale", "offset", "capture"], rng.randrange(1, 5)):
                f = "%s.%s" % (t["name"][i], c.upper())
                v = self.value(*self.kinds[f])
                t[c][i] = v
                want[f] = str(v) if c in ("units", "capture") else float(v)
        if rng.random() < 0.3:
            # Only those rows
            keep = sorted({t["name"].index(f.rsplit(".", 1)[0]) for f in want})
            t = {k: [v[i] for i in keep] for k, v in t.items()}
            m.count("subset_tables")
        if rng.random() < 0.3:
            t["name"][len(t["name"]):] = ["OTHER.OUT"]
            for c, v in (("value", 0.0), ("units", "x"), ("scale", 3.0), ("offset", 0.5), ("capture", "Mean")):
                t[c].append(v)
            m.count("unknown_rows")
        rename = self.rename("positions", t)
        before = {f: self.expect(f) for f in self.kinds}

        def judge(resp):
            m.count("position_edits")
            if ok(resp):
                self.named.update(rename)
            m.check(ok(resp), "positions-put", lambda: "put %s: %s" % (want, resp))
            if quiet and ok(resp):
                for f in self.kinds:
                    w = want.get(f, before[f])
                    m.check(self.expect(f) == w, "positions-put", lambda: "put %s: %s is %r, not %r" % (want, f, p.values[f], w))

        return Put(self.cl.id(), ["P", "positions", "value"], t), judge

    def rename(self, table, t):
        """Change what the rows are to be called when captured"""
        out = {}
        if "datasetName" in t:
            t["datasetName"] += ["other"] * (len(t["name"]) - len(t["datasetName"]))
            t["datasetType"] += ["monitor"] * (len(t["name"]) - len(t["datasetType"]))
            for i, n in enumerate(t["name"]):
                if self.rng.random() < 0.3:
                    t["datasetName"][i] = self.rng.choice(["x", "", "y", "µ"])
                    t["datasetType"][i] = self.rng.choice(["detector", "monitor", "position"])
                    self.m.count("renamed")
                out[table, n] = (t["datasetName"][i], t["datasetType"][i])
        return out

    def judge_names(self, table, t, what):
        if "datasetName" in t:
            for i, n in enumerate(t["name"]):
                got = (t["datasetName"][i], getattr(t["datasetType"][i], "value", t["datasetType"][i]))
                want = self.named.get((table, n), got)
                self.m.check(got == want, table, lambda: "after %s: %s to be captured as %s, is %s" % (what, n, want, got))

    def edit_bits(self, quiet):
        rng, p, m = self.rng, self.panda, self.m
        t = self.cl.get("P", "bits", "value")
        if not t["name"]:
            return None
        t = {k: list(v) for k, v in t.items() if k != "typeid"}
        if rng.random() < 0.3:
            # Don't capture a group
            g = rng.choice(list(p.bits))
            for n in p.bits[g]:
                if n:
                    t["capture"][t["name"].index(n)] = False
        for _ in range(rng.choice([0, 1, 2])):
            t["capture"][rng.randrange(len(t["name"]))] = rng.random() < 0.6
        want = {}
        for g, names in p.bits.items():
            wants = [t["capture"][t["name"].index(n)] for n in names if n]
            if wants:
                want["PCAP.%s.CAPTURE" % g] = "Value" if any(wants) else "No"
        if rng.random() < 0.3:
            t["name"].append("OTHER.VAL")
            t["value"].append(False)
            t["capture"].append(True)
            m.count("unknown_rows")
        rename = self.rename("bits", t)
        before = {f: self.expect(f) for f in self.kinds}

        def judge(resp):
            m.count("bit_edits")
            if ok(resp):
                self.named.update(rename)
            m.check(ok(resp), "bits-put", lambda: "put %s: %s" % (want, resp))
            if quiet and ok(resp):
                for f in self.kinds:
                    w = want.get(f, before[f])
                    m.check(self.expect(f) == w, "bits-put", lambda: "put %s: %s is %r, not %r" % (want, f, p.values[f], w))

        return Put(self.cl.id(), ["P", "bits", "value"], t), judge

    def pick(self, quiet):
        r = self.rng.random()
        if r < 0.08:
            return self.put_layout(quiet)
        if r < 0.6:
            return self.put(quiet)
        if r < 0.7:
            return self.act(quiet)
        return self.edit_positions(quiet) if r < 0.88 else self.edit_bits(quiet)


def parse(kind, t):
    if kind in ("uint", "int", "pos", "uint8"):
        return int(t)
    if kind in ("scalar", "time"):
        return float(t)
    if kind == "bit":
        return {"0": False, "1": True}.get(t, t)
    return t


def nwords(cols):
    return max(c.hi for c in cols) // 32 + 1 if cols else 1


def encode(cols, table):
    if not cols:
        return [x % (1 << 32) for x in table["value"]]
    n = len(table[camel(cols[0].name)])
    k = nwords(cols)
    out = []
    for i in range(n):
        row = 0
        for c in cols:
            v = table[camel(c.name)][i]
            v = c.labels.index(v) if c.labels else int(v)
            row |= (v % (1 << (c.hi - c.lo + 1))) << c.lo
        out += [(row >> (32 * j)) % (1 << 32) for j in range(k)]
    return out


def decode(cols, words):
    words = [int(x) for x in words]
    if not cols:
        return {"value": [x - (1 << 32) if x >> 31 else x for x in words]}
    k = nwords(cols)
    out = {camel(c.name): [] for c in cols}
    for i in range(len(words) // k):
        row = sum(w << (32 * j) for j, w in enumerate(words[i * k : i * k + k]))
        for c in cols:
            width = c.hi - c.lo + 1
            v = (row >> c.lo) % (1 << width)
            if c.labels:
                v = c.labels[v]
            elif width == 1:
                v = bool(v)
            elif c.kind == "int" and v >> (width - 1):
                v -= 1 << width
            out[camel(c.name)].append(v)
    return out


def one_by_one(m, rng, idx):
    r = Rig(m, rng)
    r.settle()
    r.judge("start")
    for _ in range(rng.randrange(3, 9)):
        x = rng.random()
        if x < 0.25:
            r.poke()
            what = "a poke"
        elif x < 0.32:
            r.fuzz_bits()
            what = "changes of bits"
        else:
            got = r.pick(True)
            if got is None:
                continue
            req, judge = got
            resp = r.ask(req)
            judge(resp)
            what = "%s %s" % (type(req).__name__, req.path)
        r.settle()
        r.judge(what)


def together(m, rng, idx):
    """Hardware changes, polls and puts at the same time"""
    r = Rig(m, rng)
    r.settle()
    for _ in range(rng.randrange(1, 5)):
        waiting = []
        what = []
        for _ in range(rng.randrange(2, 9)):
            x = rng.random()
            if x < 0.4:
                r.poke()
                what.append("poke")
            elif x < 0.5:
                r.fuzz_bits()
                what.append("bits")
            else:
                got = r.pick(False)
                if got is not None:
                    what.append(got[0].path)
                    waiting.append((got[1], r.cl.send(got[0])))
            if rng.random() < 0.15:
                r.net.paused = not r.net.paused
            mh.yields(rng.choice([0, 0, 3, 10, 25, 80]))
        r.net.paused = False
        for judge, box in waiting:
            judge(r.wait(box))
        r.calm()
        r.named.clear()  # Who was last?
        m.count("batches")
        r.settle(6)
        r.judge(what)


def losses(m, rng, idx):
    """The PandA goes away and comes back"""
    down = rng.random() < 0.3
    r = Rig(m, rng, down)
    if down:
        m.count("started_down")
        st = r.cl.get("P", "state", "value")
        m.require(st == "Fault", "down", lambda: "state %r without a PandA" % st)
        r.net.down = False
        resp = r.ask(Post(r.cl.id(), ["P", "reset"], {}))
        m.require(ok(resp), "reset", lambda: "reset: %s" % resp)
    r.settle()
    r.judge("start")
    for _ in range(rng.randrange(1, 4)):
        how = rng.choice(["cut", "cut", "disable"])
        waiting = []
        if how == "cut":
            for _ in range(rng.randrange(0, 3)):
                got = r.pick(False)
                if got is not None:
                    waiting.append(r.cl.send(got[0]))
                    if got[0].path[1] == "layout":
                        r.layout_lost = True
            mh.yields(rng.randrange(0, 20))
            r.net.down = True
            r.net.socks[-1].cut()
            for _ in range(4000):
                if r.cl.get("P", "state", "value") == "Fault":
                    break
                mh.yields(5)
            st = r.cl.get("P", "state", "value")
            m.require(st == "Fault", "lost", lambda: "state %r when the connection was lost" % st)
            for box in waiting:
                m.check(r.wait(box) is not None, "lost", "a request got no response when the connection was lost")
            if rng.random() < 0.3:
                resp = r.ask(Post(r.cl.id(), ["P", "reset"], {}))
                m.check(isinstance(resp, Error), "reset-down", lambda: "reset without a PandA: %s" % resp)
                m.count("failed_resets")
            if rng.random() < 0.3:
                resp = r.ask(Post(r.cl.id(), ["P", "disable"], {}))
                m.check(ok(resp), "disable", lambda: "disable: %s" % resp)
            r.net.down = False
            r.calm()
            r.named.clear()
        else:
            resp = r.ask(Post(r.cl.id(), ["P", "disable"], {}))
            m.check(ok(resp), "disable", lambda: "disable: %s" % resp)
            n = r.panda.asked
            mh.yields(200)
            m.check(r.panda.asked == n, "disabled", "polling while disabled")
        for _ in range(rng.randrange(0, 4)):
            r.poke()
        resp = r.ask(Post(r.cl.id(), ["P", "reset"], {}))
        m.require(ok(resp), "reset", lambda: "reset after %s: %s" % (how, resp))
        m.count("losses")
        r.settle()
        r.judge("reset after " + how)
        got = r.pick(True)
        if got is not None:
            got[1](r.ask(got[0]))
        r.poke()
        r.settle()
        r.judge("after " + how)


LUT_BITS = {
    c: sum(1 << i for i in range(32) if (i >> (4 - n)) & 1) for n, c in enumerate("ABCDE")
}
FULL = 2 ** 32 - 1


def drawn(m, text):
    """What the icon shows: {id: element}, and texts"""
    import xml.etree.ElementTree as ET

    root = ET.fromstring(text)
    m.require(root.tag.split("}")[-1] == "svg", "icon-svg", lambda: text[:80])
    return {e.get("id"): e for e in root.iter() if e.get("id")}, [
        e.text for e in root.iter() if e.tag.split("}")[-1] == "text"
    ]


def arrows(e):
    """The edges an arrow on an input shows"""
    if e is None:
        return set()
    return {d for d, a in (("rising", "marker-start"), ("falling", "marker-end")) if e.get(a)}


EDGE_SETS = {"level": set(), "rising": {"rising"}, "falling": {"falling"}, "either": {"rising", "falling"}}


def gate_function(ids):
    """The function that the drawn gate computes, None for a plain box"""
    gates = [g for g in ("AND", "OR", "NOT", "LUT") if g in ids]
    if gates == ["LUT"]:
        return None
    if len(gates) != 1:
        return gates
    args = []
    for c in "ABCDE":
        if c in ids:
            args.append((FULL ^ LUT_BITS[c]) if "not" + c in ids else LUT_BITS[c])
    if gates == ["NOT"]:
        return FULL ^ args[0] if len(args) == 1 else args
    out = args[0]
    for a in args[1:]:
        out = out & a if gates == ["AND"] else out | a
    return out


def icons(m, rng, idx):
    """The icon of a block draws what its fields make it do"""
    from malcolm.core import TimeStamp
    from malcolm.modules.pandablocks.controllers.pandablockcontroller import PandABlockController
    from malcolm.modules.pandablocks.pandablocksclient import BlockData, FieldData

    kind = rng.choice(["LUT", "LUT", "LUT", "PULSE", "PCAP", "SRGATE", "TTLIN", "XYZ"])
    typed = rng.random() < 0.7
    edges = ["Rising", "Falling", "Either"]
    if rng.random() < 0.5:
        edges = [e.lower() for e in edges]
    fields, hw = collections.OrderedDict(), {}
    if kind == "LUT":
        fields["FUNC"] = FieldData("param", "lut", "Function", [])
        for c in "ABCDE":
            fields["INP" + c] = FieldData("bit_mux", "", "Input", ["ZERO", "TTLIN1.VAL"])
            if typed:
                types = ["Input-Level", "Pulse-On-Rising-Edge", "Pulse-On-Falling-Edge", "Pulse-On-Either-Edge"]
                fields["TYPE" + c] = FieldData("param", "enum", "Type", types)
    elif kind == "SRGATE":
        fields["SET_EDGE"] = FieldData("param", "enum", "Edge", edges)
        fields["RST_EDGE"] = FieldData("param", "enum", "Edge", edges)
    elif kind in ("PULSE", "PCAP"):
        fields["TRIG_EDGE"] = FieldData("param", "enum", "Edge", edges)
        fields["TRIG"] = FieldData("bit_mux", "", "Input", ["ZERO", "TTLIN1.VAL"])
    fields["OTHER"] = FieldData("param", "uint", "Other", [])
    raw = [0]

    class Box:
        def get_field(self, block, field):
            m.check(field == "FUNC.RAW", "icon-asks", field)
            return rng.choice(["0x%08X" % raw[0], str(raw[0])])

        def set_field(self, block, field, value):
            pass

    number = "" if kind == "PCAP" else "3"
    process = Process("p")
    c = PandABlockController(Box(), "P", kind + number, BlockData(1 if kind == "PCAP" else 4, "Block", fields), "/docs")
    process.add_controller(c)
    manrig.start(process)
    cl = Client(process)

    def random_function():
        x = rng.random()
        if x < 0.75:
            n = rng.randrange(1, 6)
            args = [LUT_BITS[i] ^ rng.choice([0, FULL]) for i in "ABCDE"[:n]]
            if rng.random() < 0.3:
                args = [LUT_BITS[i] ^ rng.choice([0, FULL]) for i in rng.sample("ABCDE", n)]
            f = args[0]
            op = rng.choice(["&", "|"])
            for a in args[1:]:
                f = f & a if op == "&" else f | a
            return f
        return rng.choice([0, FULL, rng.randrange(2 ** 32), 1 << rng.randrange(32)])

    def value(k):
        if k == "FUNC":
            raw[0] = random_function()
            return "F%d & <x>" % rng.randrange(1000)
        if fields[k].labels:
            return rng.choice(list(fields[k].labels))
        return str(rng.randrange(100))

    for step in range(rng.randrange(2, 8)):
        names = list(fields)
        if step:
            names = rng.sample(names, rng.randrange(1, len(names) + 1))
        changes = {k: value(k) for k in names}
        hw.update(changes)
        c.handle_changes(changes, TimeStamp())
        mh.yields(3)
        for k in names:
            got = cl.get("P:" + kind + number, camel(k), "value")
            m.check(str(got) == hw[k], "icon-field", lambda: "%s: %r not %r" % (k, got, hw[k]))
        text = cl.get("P:" + kind + number, "icon", "value")
        ids, texts = drawn(m, text)
        where = "%s%s of %s" % (kind, number, hw)
        if kind == "LUT":
            got = gate_function(ids)
            m.check(got is None or got == raw[0], "icon-gate", lambda: "%s: function 0x%08x is drawn as 0x%08x" % (where, raw[0], got))
            # All the inputs up to the last used one have to be there
            plain = [f for n in range(2, 6) for f in (raw[0],) if simple(raw[0], n)]
            if plain or raw[0] in [FULL ^ v for v in LUT_BITS.values()]:
                m.check(got is not None, "icon-box", lambda: "%s: function 0x%08x is drawn as a box" % (where, raw[0]))
                m.count("gates")
            else:
                m.check(got is None and set("ABCDE") <= set(ids), "icon-any", lambda: "%s: 0x%08x: %s" % (where, raw[0], sorted(ids)))
                m.count("boxes")
            m.check(texts == [hw["FUNC"]], "icon-text", lambda: "%s: %s" % (where, texts))
            for i in "ABCDE":
                edge = hw.get("TYPE" + i, "level").lower()
                want = EDGE_SETS[[e for e in EDGE_SETS if e in edge][0]] if i in ids else set()
                m.check(arrows(ids.get("edge" + i)) == want, "icon-edge", lambda: "%s: edge of %s: %s" % (where, i, arrows(ids.get("edge" + i))))
            m.distinct("icon", kind, got is None, typed)
        elif kind == "SRGATE":
            m.check(texts == ["SR"], "icon-text", lambda: "%s: %s" % (where, texts))
            for k, i in (("SET_EDGE", "edgeSet"), ("RST_EDGE", "edgeRst")):
                m.check(arrows(ids.get(i)) == EDGE_SETS[hw[k].lower()], "icon-edge", lambda: "%s: %s %s" % (where, i, arrows(ids.get(i))))
            m.distinct("icon", kind, hw["SET_EDGE"].lower(), hw["RST_EDGE"].lower())
        elif kind in ("PULSE", "PCAP"):
            m.check(arrows(ids.get("edge")) == EDGE_SETS[hw["TRIG_EDGE"].lower()], "icon-edge", lambda: "%s: %s" % (where, arrows(ids.get("edge"))))
            m.distinct("icon", kind, hw["TRIG_EDGE"].lower())
        else:
            m.distinct("icon", kind)
        m.count("icons_compared")
    process.stop()


def simple(f, n):
    """Is this the AND or the OR of the first n inputs, each perhaps negated?"""
    for x in range(2 ** n):
        args = [LUT_BITS[c] ^ (FULL if x >> i & 1 else 0) for i, c in enumerate("ABCDE"[:n])]
        a = o = args[0]
        for y in args[1:]:
            a, o = a & y, o | y
        if f in (a, o):
            return True
    return False


check = vmon.Check(
    "C19",
    [
        vmon.Scenario("one_by_one", one_by_one, quick=400, thorough=8000, timeout=120),
        vmon.Scenario("together", together, quick=320, thorough=6000, timeout=120),
        vmon.Scenario("losses", losses, quick=120, thorough=2000, timeout=120),
        vmon.Scenario("icons", icons, quick=300, thorough=6000, timeout=120),
    ],
    rule="Distinct (kind of field put, refused, coerced), kinds of field changed by the hardware, and table layouts",
    required=[
        "fields_compared", "bits_compared", "positions_compared", "pokes", "puts", "refused", "actions", "position_edits",
        "subset_tables", "unknown_rows", "bit_edits", "bit_storms", "batches", "layout_puts", "layout_pokes", "losses", "started_down", "failed_resets",
        "icons_compared", "gates", "boxes",
    ],
    level="exploration",
    assumptions=[
        "The box reports a field as changed whenever it is written, as PandA does",
        "Table values fit in the bits of their field",
        "Bits that share a PCAP group are captured together",
    ],
)
if __name__ == "__main__":
    check.main()
