"""C25: a process starts, publishes and stops every block cleanly.

Recording controllers (quick, slow, failing, unpublished, adding others while
they start) and stateful blocks with recording parts are added at random
moments; work is spawned that finishes at random moments. The lifecycle trace is
checked as it is recorded."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vmon  # noqa

import time  # noqa

import cothread  # noqa
import mh  # noqa
import numpy as np  # noqa
from annotypes import add_call_types  # noqa
from malcolm.core import (  # noqa
    Controller, Part, Process, ProcessPublishHook, ProcessStartHook,
    ProcessStopHook, Queue, TimeoutError, UnpublishedInfo,
)
from malcolm.core.process import APublished, UUnpublishedInfos  # noqa
from malcolm.modules.builtin.controllers import StatefulController  # noqa
from malcolm.modules.builtin.hooks import DisableHook, HaltHook, InitHook  # noqa


class Boom(Exception):
    pass


class World:
    def __init__(self, m, rng):
        self.m, self.rng, self.ev = m, rng, []
        self.n = 0
        self.all = {}  # mri -> controller, this run of the process
        self.process = Process("proc")

    def log(self, *what):
        self.ev.append(what)
        self.m.count(what[0])

    def make(self, depth=0):
        rng = self.rng
        self.n += 1
        mri = "B%d" % self.n
        if rng.random() < 0.3:
            c = StatefulController(mri)
            c.kind = "stateful"
            for i in range(rng.randrange(1, 3)):
                c.add_part(RecPart("rec%d" % i).prepare(self, mri))
        else:
            c = Rec(mri).prepare(self)
        known = list(self.all)
        for i in range(rng.choice([0, 0, 1, 2])):
            # A part that names another block makes it our child
            target = rng.choice(known) if known and rng.random() < 0.7 else "B%d" % (
                self.n + rng.randrange(1, 4)
            )
            p = Part("child%d" % i)
            # Only ever point at later or earlier ones in one direction, so
            # there are no loops
            if int(target[1:]) < self.n:
                p.mri = target
            elif rng.random() < 0.5:
                p.mri = "NOSUCH"
            c.add_part(p)
        return c

    def added(self, c):
        self.all[c.mri] = c


class RecPart(Part):
    def prepare(self, world, mri):
        self.world, self.mymri = world, mri
        rng = world.rng
        self.fails = rng.random() < 0.15
        self.delay = {h: rng.choice([0, 0, 1, 5]) for h in ("init", "halt", "disable")}
        return self

    def setup(self, registrar):
        super().setup(registrar)
        registrar.hook(InitHook, self.on_init)
        registrar.hook(HaltHook, self.on_halt)
        registrar.hook(DisableHook, self.on_disable)

    @add_call_types
    def on_init(self) -> None:
        mh.yields(self.delay["init"])
        self.world.log("part_init", self.mymri, self.name)
        if self.fails:
            raise Boom("init")

    @add_call_types
    def on_halt(self) -> None:
        mh.yields(self.delay["halt"])
        self.world.log("part_halt", self.mymri, self.name)

    @add_call_types
    def on_disable(self) -> None:
        mh.yields(self.delay["disable"])
        self.world.log("part_disable", self.mymri, self.name)


class Rec(Controller):
    kind = "rec"

    def prepare(self, world):
        rng = world.rng
        self.world = world
        self.delay = {h: rng.choice([0, 0, 1, 3, 12]) for h in ("start", "publish", "stop")}
        self.fails = {h: rng.random() < 0.15 for h in ("start", "publish", "stop")}
        self.adds = rng.random() < 0.15
        self.server = rng.random() < 0.5
        # Servers are not hidden themselves
        self.unpublished = not self.server and rng.random() < 0.5
        self.published = None
        self.register_hooked(ProcessStartHook, self.on_start)
        self.register_hooked(ProcessStopHook, self.on_stop)
        if self.server:
            self.register_hooked(ProcessPublishHook, self.on_publish)
        return self

    @add_call_types
    def on_start(self) -> UUnpublishedInfos:
        w = self.world
        w.log("starting", self.mri)
        mh.yields(self.delay["start"])
        if self.adds:
            c = w.make()
            w.added(c)
            w.log("adding", c.mri)
            w.process.add_controller(c)
            w.log("added", c.mri)
        w.log("started", self.mri)
        if self.fails["start"]:
            raise Boom("start")
        if self.unpublished:
            return UnpublishedInfo(self.mri)

    @add_call_types
    def on_publish(self, published: APublished) -> None:
        w = self.world
        w.log("publishing", self.mri, tuple(published))
        mh.yields(self.delay["publish"])
        self.published = list(published)
        judge_published(w, self.published)
        if self.fails["publish"]:
            raise Boom("publish")

    @add_call_types
    def on_stop(self) -> None:
        w = self.world
        w.log("stopping", self.mri)
        mh.yields(self.delay["stop"])
        w.log("stopped", self.mri)
        if self.fails["stop"]:
            raise Boom("stop")


def hidden(c):
    return c.kind == "rec" and c.unpublished and not c.fails["start"]


def children(w):
    return {
        getattr(p, "mri", None) for c in w.all.values() for p in c.parts.values()
    }


def judge_published(w, pub):
    m = w.m
    m.check(len(pub) == len(set(pub)), "published-twice", lambda: str(pub))
    for mri in pub:
        c = w.all.get(mri)
        m.check(c is not None, "published-unknown", lambda: "%s in %s" % (mri, pub))
        if c is None:
            continue
        m.check(not hidden(c), "published-hidden", lambda: "%s in %s" % (mri, pub))
        if c.kind == "rec":
            m.check(
                ("started", mri) in w.ev, "published-before-started", lambda: "%s in %s" % (mri, pub)
            )


def run(fn, *args, **kw):
    """In a cothread of its own, with a limit in logical time"""
    box = []

    def body():
        try:
            box.append((True, fn(*args, **kw)))
        except Exception as e:
            box.append((False, e))

    cothread.Spawn(body)
    mh.settle(lambda: box, 20000)
    return box[0] if box else None


def lifecycle(m, rng, idx):
    w = World(m, rng)
    p = w.process
    for cycle in range(rng.choice([1, 2, 3])):
        del w.ev[:]
        w.all.clear()
        shape = []

        def add(n):
            cs = []
            for _ in range(n):
                c = w.make()
                w.added(c)
                cs.append(c)
            if n == 1 and rng.random() < 0.5:
                return run(p.add_controller, cs[0]), cs
            return run(p.add_controllers, cs), cs

        m.check(run(p.spawn, lambda: 1)[0] is False, "spawned-while-stopped", "")
        for _ in range(rng.randrange(0, 4)):
            r, cs = add(rng.randrange(1, 4))
            m.require(r and r[0], "add", lambda: "%s" % (r,))
            m.check(not any(e[0] in ("starting", "part_init") for e in w.ev), "started-early", "")
            shape.append(("pre", len(cs)))
        r = run(p.start)
        m.require(r is not None, "hang", "start")
        m.check(r[0], "start-failed", lambda: "%s" % (r,))
        check_up(w, "start")
        # Top level blocks first
        kids = children(w)
        for c in w.all.values():
            if c.kind == "rec" and c.published:
                flags = [mri in kids for mri in c.published]
                m.check(
                    flags == sorted(flags), "order", lambda: "%s with children %s" % (c.published, kids)
                )
                m.count("orders")
        m.check(run(p.start)[0] is False, "started-twice", "")

        work = []
        nspawn = rng.choice([0, 3, 10, 1300]) if rng.random() < 0.3 else rng.randrange(0, 6)
        for k in range(nspawn):
            item = dict(n=0, done=False, yields=rng.choice([0, 0, 1, 4, 30]), gate=False)
            if rng.random() < 0.1:
                item["gate"] = True  # Only finishes once we are stopping

            def job(item=item):
                item["n"] += 1
                mh.yields(item["yields"])
                if item["gate"]:
                    mh.settle(lambda: item.get("go"), 100000)
                    mh.yields(3)
                item["done"] = True
                if rng.random() < 0.1:
                    raise Boom("job")

            p.spawn(job)
            work.append(item)
        m.count("jobs", len(work))

        for _ in range(rng.randrange(0, 5)):
            what = rng.choice(["add", "add", "both", "dup", "unknown", "yield"])
            shape.append(what)
            if what == "add":
                r, cs = add(rng.randrange(1, 4))
                m.require(r is not None, "hang", "add")
                m.check(r[0], "add-failed", lambda: "%s" % (r,))
                check_up(w, "add")
            elif what == "both":
                # Two adding at once
                c1, c2 = w.make(), None
                w.added(c1)
                c2 = w.make()
                w.added(c2)
                boxes = []
                for c in (c1, c2):
                    def body(c=c):
                        try:
                            p.add_controller(c)
                            boxes.append(None)
                        except Exception as e:
                            boxes.append(e)
                    cothread.Spawn(body)
                mh.settle(lambda: len(boxes) == 2, 20000)
                m.require(len(boxes) == 2, "hang", "two adds")
                m.check(boxes == [None, None], "add-failed", lambda: "%s" % boxes)
                check_up(w, "two adds")
            elif what == "dup" and w.all:
                mri = rng.choice(list(w.all))
                before = p.get_controller(mri)
                r = run(p.add_controller, Controller(mri))
                m.check(r[0] is False, "duplicate-accepted", mri)
                m.check(p.get_controller(mri) is before, "duplicate-replaced", mri)
                m.count("duplicates")
            elif what == "unknown":
                r = run(p.get_controller, "NOT-%d" % rng.randrange(9))
                m.check(
                    r[0] is False and isinstance(r[1], ValueError), "unknown-found", lambda: str(r)
                )
            else:
                mh.yields(rng.randrange(0, 20))
        m.check(p.mri_list == list(w.all), "mri-list", lambda: "%s %s" % (p.mri_list, list(w.all)))
        for mri, c in w.all.items():
            m.check(p.get_controller(mri) is c, "wrong-controller", mri)
        check_up(w, "before stop")
        states = []
        box = []

        def stop():
            try:
                p.stop(timeout=rng.choice([None, 20]))
                box.append(None)
            except Exception as e:
                box.append(e)

        cothread.Spawn(stop)
        gated = [i for i in work if i["gate"]]
        if gated:
            mh.yields(400)
            m.check(not box, "did-not-wait", "stopped with work in progress")
            m.count("stop_waited")
            for i in gated:
                i["go"] = True
        mh.settle(lambda: box, 20000)
        m.require(bool(box), "hang", "stop")
        m.check(box == [None], "stop-failed", lambda: "%s" % box)
        for i in work:
            m.check(i["n"] == 1 and i["done"], "work-lost", lambda: "%s" % i)
        for mri, c in w.all.items():
            if c.kind == "rec":
                n = sum(e == ("stopped", mri) for e in w.ev)
                m.check(n == 1, "stops", lambda: "%s stopped %d times" % (mri, n))
            else:
                for part in c.parts.values():
                    if isinstance(part, RecPart):
                        n = sum(e == ("part_halt", mri, part.name) for e in w.ev)
                        m.check(n == 1, "halts", lambda: "%s halted %d times" % (mri, n))
                m.check(c.state.value == "Disabled", "not-disabled", lambda: c.state.value)
        m.check(p.mri_list == [], "left-behind", lambda: "%s" % p.mri_list)
        m.distinct("life", tuple(shape), len(work), bool(gated), cycle)
        m.count("cycles")
    m.sample(dict(tail=[str(e) for e in w.ev[-15:]]))


def check_up(w, when):
    """Every block has been started once and every server knows all of them"""
    m = w.m
    expect = set()
    for mri, c in w.all.items():
        if c.kind == "rec":
            n = sum(e == ("started", mri) for e in w.ev)
            m.check(n == 1, "starts", lambda: "%s: %s started %d times" % (when, mri, n))
        else:
            bad = False
            for part in c.parts.values():
                if isinstance(part, RecPart):
                    n = sum(e == ("part_init", mri, part.name) for e in w.ev)
                    m.check(n == 1, "starts", lambda: "%s: %s initialised %d times" % (when, mri, n))
                    bad = bad or part.fails
            m.check(
                c.state.value == ("Fault" if bad else "Ready"),
                "state",
                lambda: "%s: %s is %s" % (when, mri, c.state.value),
            )
        if not hidden(c):
            expect.add(mri)
    if expect:
        for mri, c in w.all.items():
            if c.kind == "rec" and c.server:
                m.count("servers")
                m.check(
                    c.published is not None and set(c.published) == expect,
                    "not-published",
                    lambda: "%s: server %s told %s expected %s" % (when, mri, c.published, sorted(expect)),
                )


RESULTS = [
    lambda k: None, lambda k: k, lambda k: "r%d" % k, lambda k: [k], lambda k: {},
    lambda k: np.arange(k % 5), lambda k: np.array([[1, 2], [3, k]]), lambda k: (k, None),
    lambda k: float("nan"), lambda k: True, lambda k: False,
]


class Odd:
    """Compares equal to everything"""

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and np.array_equal(a, b)
    return a is b or a == b


def spawns(m, rng, idx):
    p = Process("proc")
    run(p.start)
    m.defer(mh.stop_process, p)
    jobs = []
    count = rng.choice([5, 20, 60])
    for k in range(count):
        r = RESULTS[rng.randrange(len(RESULTS))](k)
        if rng.random() < 0.05:
            r = Odd()
        j = dict(k=k, runs=[], result=r, exc=None, finished=False)
        if rng.random() < 0.25:
            j["exc"] = Boom("job %d" % k)
        y = rng.choice([0, 1, 2, 5, 20])

        def job(*args, j=j, y=y, **kw):
            j["runs"].append((args, kw))
            mh.yields(y)
            j["finished"] = True
            if j["exc"]:
                raise j["exc"]
            return j["result"]

        j["args"] = tuple(range(rng.randrange(0, 3)))
        j["kw"] = {"a%d" % i: i for i in range(rng.randrange(0, 3))}
        j["s"] = p.spawn(job, *j["args"], **j["kw"])
        jobs.append(j)
        if rng.random() < 0.3:
            mh.yields(rng.randrange(0, 4))

    pending = [len(jobs)]

    def waiter(j, how, again):
        try:
            got = None
            if how == "poll":
                for _ in range(5000):
                    r = j["s"].ready()
                    # Setting the result is the last thing, just after finishing
                    if r:
                        m.check(j["finished"], "ready-early", lambda: "%s" % j["k"])
                        break
                    cothread.Yield()
                m.check(bool(j["s"].ready()), "never-ready", lambda: "%s" % j["k"])
            elif how == "wait":
                j["s"].wait(rng.choice([None, 30]))
                m.check(j["finished"], "wait-early", lambda: "%s" % j["k"])
            for _ in range(2 if again else 1):
                try:
                    got = (True, j["s"].get(timeout=rng.choice([None, 30])))
                except Boom as e:
                    got = (False, e)
                m.check(j["finished"], "get-early", lambda: "%s" % j["k"])
                if j["exc"]:
                    m.check(
                        got == (False, j["exc"]), "wrong-outcome", lambda: "%s %s" % (j["k"], got)
                    )
                else:
                    m.check(
                        got[0] and same(got[1], j["result"]),
                        "wrong-outcome",
                        lambda: "%s gave %s not %s" % (j["k"], got, j["result"]),
                    )
                m.count("results")
        except Exception as e:
            m.fail("wait-broke", "%s of job %d with result %r: %r" % (how, j["k"], j["result"], e))
        finally:
            pending[0] -= 1

    order = list(jobs)
    rng.shuffle(order)
    for j in order:
        how = rng.choice(["get", "wait", "poll"])
        cothread.Spawn(waiter, j, how, rng.random() < 0.4)
        if rng.random() < 0.3:
            # Someone else wants it too
            pending[0] += 1
            m.count("two_waiters")
            cothread.Spawn(waiter, j, "get", False)
        if rng.random() < 0.3:
            mh.yields(rng.randrange(0, 6))
    mh.settle(lambda: pending[0] == 0, 30000)
    m.check(pending[0] == 0, "wait-hung", lambda: "%d waits never ended" % pending[0])
    for j in jobs:
        m.check(
            j["runs"] == [(j["args"], j["kw"])],
            "runs",
            lambda: "job %d ran with %s not %s" % (j["k"], j["runs"], (j["args"], j["kw"])),
        )
    m.distinct("spawns", count, sum(bool(j["exc"]) for j in jobs), pending[0])
    # Limits: the real clock
    gate = []
    s = p.spawn(lambda: mh.settle(lambda: gate, 10 ** 7) or "late")
    limit = rng.choice([0.0, 0.01, 0.05])
    t0 = time.time()
    try:
        (s.get if rng.random() < 0.5 else s.wait)(timeout=limit)
        m.fail("no-timeout", "limit %s" % limit)
    except TimeoutError:
        took = time.time() - t0
        m.check(took >= limit - 0.002, "early-timeout", lambda: "limit %s took %s" % (limit, took))
        m.count("timeouts")
    m.check(not s.ready(), "ready-early", "gated job")
    gate.append(1)
    r = run(s.get, 30)
    m.check(r is not None and r[0], "lost-after-timeout", lambda: "%s" % (r,))


def many(m, rng, idx):
    """stop() waits for everything that was spawned, however much that was"""
    p = Process("proc")
    c = StatefulController("B")
    p.add_controller(c)
    run(p.start)
    stopped = []
    m.defer(lambda: stopped or mh.stop_process(p))
    gate, done, quick = [], [], [0]

    def slow(k):
        mh.settle(lambda: gate, 10 ** 7)
        mh.yields(k)
        done.append(k)

    def fast():
        quick[0] += 1

    n, slows = rng.choice([10, 990, 1005, 2100, 3100]), 0
    first = rng.random() < 0.7
    for i in range(n):
        if (first and i < 2) or rng.random() < 0.003:
            p.spawn(slow, rng.choice([0, 5, 40]))
            slows += 1
        else:
            p.spawn(fast)
        if rng.random() < 0.01:
            mh.yields(2)
    box = []
    cothread.Spawn(lambda: box.append(run(p.stop, 60)))
    mh.settle(lambda: box, rng.choice([200, 3000]))
    if slows:
        m.check(not box, "stop-early", lambda: "stop() returned with %d of %d unfinished" % (slows - len(done), n))
    gate.append(1)
    mh.settle(lambda: box, 30000)
    stopped.append(1)
    m.check(box and box[0] is not None and box[0][0], "stop-many", lambda: "%s" % box)
    m.check(
        quick[0] == n - slows and len(done) == slows,
        "unfinished",
        lambda: "%d+%d of %d+%d had run when stop() returned" % (quick[0], len(done), n - slows, slows),
    )
    m.count("spawned", n)
    m.distinct("many", n, slows)


def queues(m, rng, idx):
    q = Queue()
    put, got = [], []
    nprod, ncons = rng.randrange(1, 4), rng.randrange(1, 4)
    per = rng.randrange(0, 15)
    live = [nprod]

    def producer(i):
        for k in range(per):
            item = rng.choice([(i, k), (i, k), [i, k]])
            put.append(item)
            q.put(item)
            mh.yields(rng.choice([0, 0, 1, 3]))
        live[0] -= 1

    def consumer():
        while True:
            try:
                item = q.get(timeout=rng.choice([0, 0.001, 0.02, None]))
            except TimeoutError:
                m.count("empty_gets")
                if done[0]:
                    break
                cothread.Yield()
                continue
            if item is END:
                break
            got.append(item)
            m.count("items")
            mh.yields(rng.choice([0, 0, 1, 4]))
        ended[0] += 1

    END = object()
    done, ended = [False], [0]
    fns = [lambda i=i: producer(i) for i in range(nprod)] + [consumer] * ncons
    rng.shuffle(fns)
    for f in fns:
        cothread.Spawn(f)
    mh.settle(lambda: not live[0], 20000)
    for _ in range(20000):
        if len(got) >= len(put):
            break
        cothread.Yield()
    for _ in range(ncons):
        q.put(END)
    done[0] = True
    for _ in range(20000):
        if ended[0] == ncons:
            break
        cothread.Yield()
    m.check(ended[0] == ncons, "hang", "consumer")
    m.check(
        sorted(map(str, got)) == sorted(map(str, put)), "lost", lambda: "%s\n%s" % (put, got)
    )
    if ncons == 1:
        m.check(got == put, "order", lambda: "%s\n%s" % (put, got))
    m.distinct("queue", nprod, ncons, per)


check = vmon.Check(
    "C25",
    [
        vmon.Scenario("lifecycle", lifecycle, quick=750, thorough=6000, timeout=60),
        vmon.Scenario("spawns", spawns, quick=300, thorough=3000, timeout=60),
        vmon.Scenario("many", many, quick=48, thorough=400, timeout=90),
        vmon.Scenario("queues", queues, quick=300, thorough=3000, timeout=60),
    ],
    rule="Distinct (sequence of operations, amount of work) and (producers, consumers, items)",
    required=[
        "started", "publishing", "stopped", "part_init", "part_halt", "servers", "adding",
        "jobs", "stop_waited", "duplicates", "results", "timeouts", "items", "two_waiters",
    ],
    level="exploration",
    assumptions=["Blocks do not refer to each other in a circle"],
)
if __name__ == "__main__":
    check.main()
