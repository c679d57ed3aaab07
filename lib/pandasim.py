"""A PandA TCP server: blocks, fields, tables and *CHANGES, with a socket whose
bytes arrive in pieces of any size."""
import collections
import json

import cothread

CAPTURE = ["No", "Value", "Diff", "Sum", "Mean", "Min", "Max", "Min Max", "Min Max Mean"]
TIME_UNITS = ["min", "s", "ms", "us"]

Field = collections.namedtuple("Field", "typ sub desc labels")
Column = collections.namedtuple("Column", "hi lo name desc labels kind")  # kind "", "int", "uint", "enum"


class Panda:
    """The state of the box, and its answers"""

    def __init__(self):
        self.blocks = collections.OrderedDict()  # name -> (number, desc, {field: Field})
        self.order = {}  # (block, field) -> index
        self.tables = {}  # (block, field) -> [Column]
        self.values = collections.OrderedDict()  # "TTLIN1.VAL" -> text, or list for a table
        self.bits = collections.OrderedDict()  # "BITS0" -> 32 names
        self.errors = set()  # fields in error
        self.readonly = set()
        self.writeonly = set()
        self.coerce = {}  # field -> function on the text that is set
        self.refuse = {}  # field -> message
        self.changed = {}  # client -> fields
        self.log = []  # (field, text or [words]) that was written
        self.raw = {}  # things that can be asked for but don't change
        self.after = {}  # field -> function called after it is set
        self.asked = 0  # times *CHANGES? was asked

    # -- building
    def instances(self, block):
        n = self.blocks[block][0]
        return [block] if n == 1 else ["%s%d" % (block, i + 1) for i in range(n)]

    def poke(self, field, value):
        """The hardware changes"""
        self.values[field] = value
        for c in self.changed.values():
            c[field] = None

    # -- serving
    def connect(self, client):
        self.changed[client] = collections.OrderedDict((k, None) for k in self.values)

    def root(self, inst):
        if inst in self.blocks:
            return inst
        r = inst.rstrip("0123456789")
        return r if r in self.blocks else None

    @staticmethod
    def multi(lines):
        return "".join("!%s\n" % x for x in lines) + ".\n"

    def answer(self, client, cmd, words=None):
        try:
            return self._answer(client, cmd, words)
        except KeyError:
            return "ERR No such thing\n"

    def _answer(self, client, cmd, words):
        if words is not None:
            f = cmd[:-1]
            if f in self.refuse:
                return "ERR %s\n" % self.refuse[f]
            if f not in self.values or not isinstance(self.values[f], list):
                return "ERR No such table\n"
            self.log.append((f, list(words)))
            self.poke(f, list(words))
            return "OK\n"
        if "=" in cmd:
            f, v = cmd.split("=", 1)
            if f in self.refuse:
                return "ERR %s\n" % self.refuse[f]
            if f.startswith("*PCAP.") or f in self.coerce and self.coerce[f] is None:
                # An action
                self.log.append((f, v))
                return "OK\n"
            if f not in self.values or f in self.readonly or isinstance(self.values[f], list):
                return "ERR Can't set %s\n" % f
            self.log.append((f, v))
            if f in self.coerce:
                v = self.coerce[f](v)
            self.poke(f, v)
            if f in self.after:
                self.after[f](v)
            return "OK\n"
        if not cmd.endswith("?"):
            return "ERR Unknown command\n"
        q = cmd[:-1]
        if q == "*BLOCKS":
            return self.multi("%s %d" % (k, v[0]) for k, v in self.blocks.items())
        if q == "*CHANGES":
            self.asked += 1
            out, self.changed[client] = self.changed[client], collections.OrderedDict()
            lines = []
            for f in out:
                if f in self.writeonly:
                    continue
                v = self.values[f]
                if f in self.errors:
                    lines.append("%s (error)" % f)
                elif isinstance(v, list):
                    lines.append("%s<" % f)
                else:
                    lines.append("%s=%s" % (f, v))
            return self.multi(lines)
        if q.startswith("*DESC."):
            p = q[6:].split(".")
            if len(p) == 1:
                return "OK =%s\n" % self.blocks[p[0]][1]
            if len(p) == 2:
                return "OK =%s\n" % self.blocks[p[0]][2][p[1]].desc
            col = [c for c in self.tables[self.root(p[0]), p[1][:-2]] if c.name == p[2]]
            return "OK =%s\n" % col[0].desc if col else "ERR No column\n"
        if q.startswith("*ENUMS."):
            p = q[7:].split(".")
            if len(p) == 2 or p[2] == "CAPTURE":
                labels = self.blocks[p[0]][2][p[1]].labels
            else:
                labels = [c for c in self.tables[self.root(p[0]), p[1][:-2]] if c.name == p[2]][0].labels
            return self.multi(labels)
        if q.endswith(".*"):
            fields = self.blocks[q[:-2]][2]
            return self.multi(
                ("%s %d %s %s" % (k, self.order[q[:-2], k], f.typ, f.sub)).rstrip() for k, f in fields.items()
            )
        if q.endswith(".FIELDS"):
            b, t = q[:-7].split(".")
            return self.multi(
                ("%d:%d %s %s" % (c.hi, c.lo, c.name, c.kind)).rstrip() for c in self.tables[self.root(b), t]
            )
        if q.endswith(".BITS") and q.startswith("PCAP."):
            return self.multi(self.bits[q[5:-5]])
        v = self.raw[q] if q in self.raw else self.values[q]
        return self.multi(v) if isinstance(v, list) else "OK =%s\n" % v


class Parser:
    """Turns the bytes a client sends into commands"""

    def __init__(self, on_command):
        self.buf, self.table, self.on_command = b"", None, on_command

    def feed(self, data):
        self.buf += data
        while b"\n" in self.buf:
            line, self.buf = self.buf.split(b"\n", 1)
            line = line.decode("utf-8")
            if self.table is not None:
                if line:
                    self.table[1].append(line)
                else:
                    t, self.table = self.table, None
                    self.on_command(t[0], t[1])
            elif line.endswith("<") and "=" not in line:
                self.table = (line, [])
            else:
                self.on_command(line, None)


class Net:
    """Sockets between clients and a server, on the cothread schedule"""

    def __init__(self, rng, answer, connect=None):
        self.rng, self.answer, self.on_connect = rng, answer, connect
        self.socks = []
        self.down = False
        self.paused = False
        self.mute = False
        self.pieces = 0
        self.maxdelay = 3

    def socket(self, *args, **kw):
        return Sock(self)

    def chop(self, data):
        """Into pieces, also in the middle of lines and characters"""
        out = []
        r = self.rng.random()
        size = self.rng.choice([1, 2, 5, 20, 200, 4096])
        while data:
            n = min(len(data), self.rng.randrange(1, size + 1), 4096)
            out.append(data[:n])
            data = data[n:]
        self.pieces += len(out)
        return out


class Sock:
    def __init__(self, net):
        self.net = net
        self.rx = b""
        self.out = collections.deque()  # replies not sent yet
        self.event = cothread.Event(auto_reset=False)
        self.ready = cothread.Event(auto_reset=False)
        self.closed = False  # by the server
        self.shut = False  # by the client
        self.parser = Parser(self.command)
        self.commands = []
        self.pump = None

    def connect(self, addr):
        if self.net.down:
            raise ConnectionRefusedError("refused")
        self.net.socks.append(self)
        if self.net.on_connect:
            self.net.on_connect(self)
        self.pump = cothread.Spawn(self.run)

    def sendall(self, data):
        if self.closed or self.shut:
            raise BrokenPipeError("broken")
        self.parser.feed(bytes(data))

    def command(self, cmd, words):
        self.commands.append((cmd, words))
        reply = self.net.answer(self, cmd, words)
        if reply is not None:
            self.out.append(reply.encode("utf-8"))
            self.ready.Signal()

    def run(self):
        rng = self.net.rng
        while not (self.closed or self.shut):
            if not self.out:
                self.ready.Reset()
                self.ready.Wait()
            elif self.net.paused:
                cothread.Yield()
            else:
                data = b""
                for _ in range(rng.randrange(1, 4)):
                    if self.out:
                        data += self.out.popleft()
                for piece in self.net.chop(data):
                    if self.closed or self.shut:
                        return
                    self.rx += piece
                    self.event.Signal()
                    for _ in range(rng.randrange(0, self.net.maxdelay)):
                        cothread.Yield()
                cothread.Yield()

    def recv(self, n):
        while True:
            if self.rx:
                k = min(n, len(self.rx))
                data, self.rx = self.rx[:k], self.rx[k:]
                return data
            if self.closed or self.shut:
                return b""
            self.event.Reset()
            self.event.Wait()

    def shutdown(self, how=None):
        self.shut = True
        self.event.Signal()
        self.ready.Signal()

    def close(self):
        self.shut = True
        self.event.Signal()
        self.ready.Signal()

    def cut(self):
        """The server goes away"""
        self.closed = True
        self.event.Signal()
        self.ready.Signal()


def layout_json(d):
    return [json.dumps(d)]
