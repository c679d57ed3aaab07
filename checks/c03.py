"""C03: changes made together are seen together"""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vmon  # noqa: E402

import cothread  # noqa: E402
import mh  # noqa: E402
from malcolm.core import (  # noqa: E402
    Delta,
    Error,
    Get,
    NumberMeta,
    Part,
    Post,
    Return,
    Subscribe,
    Update,
)
from malcolm.modules.builtin.controllers import StatefulController  # noqa: E402
from malcolm.modules.builtin.hooks import DisableHook, InitHook, ResetHook  # noqa: E402
from subs import OpenController, SubRig, overlaps  # noqa: E402


class Oops(Exception):
    pass


def judge_group(m, rig, before, touched, tag):
    for s in rig.subs:
        got = s.messages - before[s]
        rel = s.path[1:]
        hit = [sure for path, sure in touched if overlaps(path, rel)]
        if not hit:
            m.check(got == 0, "unaffected-got-message", "%s got %d messages after %s" % (s.path, got, tag))
        elif any(hit):
            m.check(got == 1, "not-one-message", "%s got %d messages after %s %s" % (s.path, got, tag, touched[:4]))
            m.count("group_messages", got)
        else:
            m.check(got <= 1, "not-one-message", "%s got %d messages after %s" % (s.path, got, tag))
    state = rig.c.state()
    for s in rig.subs:
        want = mh.walk(state, s.path[1:])
        want = None if want is mh.MISSING else want
        m.check(s.view == want, "view-not-converged", lambda: "%s delta=%s after %s" % (s.path, s.delta, tag))


def groups(m, rng, idx):
    rig = SubRig(m, rng)
    for _ in range(rng.randrange(4, 9)):
        rig.subscribe(rig.random_path(), rng.random() < 0.5)

    def body(depth, touched):
        for _ in range(rng.randrange(1, 4)):
            if depth < 4 and rng.random() < 0.4:
                swallow = rng.random() < 0.5
                try:
                    with rig.c.changes_squashed:
                        body(depth + 1, touched)
                        m.count("nested")
                except Oops:
                    m.count("failures_inside")
                    if not swallow:
                        raise
            elif rng.random() < 0.25:
                # The same thing over and over
                again = rng.choice([rig.set_table, rig.set_table, rig.set_value, rig.replace_field])
                for _ in range(rng.randrange(2, 6)):
                    touched += again()
                m.count("repeats")
            else:
                touched += rig.random_change()
            m.check(
                all(s.messages == before[s] for s in rig.subs),
                "message-inside-group",
                "a subscriber heard of a change before the group ended",
            )
            if rng.random() < 0.12:
                raise Oops()

    for step in range(rng.randrange(10, 25)):
        before = {s: s.messages for s in rig.subs}
        touched = []
        if rng.random() < 0.3:
            # Not grouped: exactly one message each
            touched += rig.random_change()
            judge_group(m, rig, before, touched, rig.op)
            m.count("ungrouped")
            continue
        try:
            with rig.c.changes_squashed:
                body(0, touched)
        except Oops:
            m.count("failed_groups")
        m.count("groups")
        m.distinct(len(touched), len(rig.subs), step)
        judge_group(m, rig, before, touched, "group of %d" % len(touched))
        if rng.random() < 0.2:
            rig.subscribe(rig.random_path(), rng.random() < 0.5)
    m.sample(dict(subs=[s.path for s in rig.subs]))


class PairPart(Part):
    def setup(self, registrar):
        super().setup(registrar)
        self.a = NumberMeta("int32", "a").create_attribute_model(100)
        self.b = NumberMeta("int32", "b").create_attribute_model(0)
        registrar.add_attribute_model("a", self.a)
        registrar.add_attribute_model("b", self.b)


def transfer(m, rng, idx):
    """Concurrent writers move amounts between two attributes in groups that
    are suspended half way; nobody may ever see money missing"""
    c = OpenController("MRI")
    part = PairPart("p")
    c.add_part(part)
    p = mh.make_process()
    m.defer(mh.stop_process, p, 1)
    p.add_controller(c)
    mh.yields(3)
    views = {}
    sums = []

    def observe(view, who):
        total = int(view["a"]["value"]) + int(view["b"]["value"])
        m.check(total == 100, "partial-group-seen", "%s saw a=%s b=%s" % (who, view["a"]["value"], view["b"]["value"]))
        m.count("observations")
        sums.append(view["a"]["value"])

    def make_sub(delta, i):
        def cb(r):
            if isinstance(r, Update):
                views[i] = mh.norm(r.value)
            elif isinstance(r, Delta):
                views[i] = mh.apply_delta(views.get(i), mh.norm(r.changes))
            else:
                return
            observe(views[i], "subscriber delta=%s" % delta)

        req = Subscribe(i, ["MRI"], delta)
        req.set_callback(cb)
        c.handle_request(req)

    def reader(n):
        for i in range(n):
            done = []
            req = Get(1000 + i, ["MRI"])
            req.set_callback(lambda r: done.append(mh.norm(r.value)))
            c.handle_request(req)
            mh.yields(rng.randrange(0, 4))
            while not done:
                cothread.Yield()
            observe(done[0], "reader")

    def writer(n):
        for i in range(n):
            amount = rng.randrange(-30, 30)
            try:
                with c.changes_squashed:
                    part.a.set_value(int(part.a.value) - amount)
                    mh.yields(rng.randrange(0, 5))
                    if rng.random() < 0.4:
                        with c.changes_squashed:
                            part.b.set_value(int(part.b.value) + amount)
                    else:
                        part.b.set_value(int(part.b.value) + amount)
                    m.count("transfers")
                    if rng.random() < 0.2:
                        raise Oops()
            except Oops:
                pass
            # Whoever waits to go next, these have been delivered now
            for j, v in views.items():
                m.check(
                    (v["a"]["value"], v["b"]["value"]) == (part.a.value, part.b.value),
                    "group-not-delivered",
                    lambda: "subscriber %s has %s %s when the group ended with %s %s"
                    % (j, v["a"]["value"], v["b"]["value"], part.a.value, part.b.value),
                )
            mh.yields(rng.randrange(0, 3))

    for i in range(2):
        make_sub(i % 2 == 0, i)
    done = []

    def wrap(f, n):
        f(n)
        done.append(1)

    tasks = []
    for _ in range(3):
        tasks.append(p.spawn(wrap, writer, rng.randrange(3, 9)))
        tasks.append(p.spawn(wrap, reader, rng.randrange(3, 9)))
    mh.yields(rng.randrange(0, 10))
    for i in range(2, 5):
        make_sub(rng.random() < 0.5, i)
        mh.yields(rng.randrange(0, 6))
    m.check(mh.settle(lambda: len(done) == len(tasks), 3000), "stuck", "writers or readers did not finish")
    for t in tasks:
        if t.ready():
            t.get()
    m.distinct(tuple(sums[:40]))
    for i, v in views.items():
        m.check(v == c.state(), "view-not-converged", "subscriber %s" % i)


def ordered(m, rng, idx):
    """Ungrouped changes arrive one message each, in order"""
    rig = SubRig(m, rng, 4)
    n = rng.choice([x for x in rig.names if x != "aTable"])
    attr = rig.part.models[n]
    got = {}

    def make(i, path, delta):
        got[i] = []

        def cb(r):
            if isinstance(r, Update):
                got[i].append(mh.norm(r.value))
            elif isinstance(r, Delta):
                got[i].append(mh.norm(r.changes))

        req = Subscribe(i, path, delta)
        req.set_callback(cb)
        rig.c.handle_request(req)

    make(0, ["MRI", n, "value"], False)
    make(1, ["MRI", n, "value"], True)
    make(2, ["MRI", n, "meta", "description"], False)
    make(3, ["MRI", n, "timeStamp"], False)
    mh.yields(5)
    want = {i: [] for i in got}
    for i in range(rng.randrange(5, 20)):
        if rng.random() < 0.7:
            ts = mh.gen_ts(rng)
            v = mh.norm(attr.set_value(rig.gen(n), ts=ts))
            want[0].append(v)
            want[1].append([[[], v]])
            want[3].append(mh.norm(ts))
        else:
            attr.meta.set_description("d%d" % i)
            want[2].append("d%d" % i)
        if rng.random() < 0.2:
            mh.yields(1)
    for i in got:
        m.check(got[i][1:] == want[i], "order", lambda: "%s: wanted %s got %s" % (i, want[i], got[i][1:]))
        m.count("ordered_messages", len(want[i]))
    m.distinct(n, len(want[0]))


class SlowPart(Part):
    fail = None

    def setup(self, registrar):
        super().setup(registrar)
        registrar.hook(InitHook, self.on_x)
        registrar.hook(ResetHook, self.on_x)
        registrar.hook(DisableHook, self.on_x)

    def on_x(self):
        mh.yields(self.rng.randrange(0, 4))
        if self.rng.random() < 0.3:
            raise Oops("part failed")


def state_group(m, rng, idx):
    """State, health and writeable flags change as one"""
    c = StatefulController("MRI")
    part = SlowPart("p")
    part.rng = rng
    c.add_part(part)
    p = mh.make_process()
    m.defer(mh.stop_process, p, 1)
    views = {}

    def make(i, delta):
        def cb(r):
            if isinstance(r, Update):
                views[i] = mh.norm(r.value)
            elif isinstance(r, Delta):
                views[i] = mh.apply_delta(views.get(i), mh.norm(r.changes))
            else:
                return
            v = views[i]
            s, h = v["state"]["value"], v["health"]["value"]
            w = v["reset"]["meta"]["writeable"]
            sev = v["state"]["alarm"]["severity"]
            want_h = {"Disabled": "Disabled", "Fault": "part failed"}.get(s, "OK")
            want_sev = {"Disabled": 3, "Fault": 2}.get(s, 0)
            m.check(
                h == want_h and w == (s in ("Disabled", "Fault")) and sev == want_sev,
                "state-torn",
                "state %s health %s reset writeable %s severity %s" % (s, h, w, sev),
            )
            m.count("state_messages")
            m.distinct(s, h, w)

        req = Subscribe(i, ["MRI"], delta)
        req.set_callback(cb)
        c.handle_request(req)

    p.add_controller(c)
    make(0, False)
    make(1, True)
    mh.yields(5)
    for _ in range(rng.randrange(4, 10)):
        done = []
        req = Post(100, ["MRI", rng.choice(["reset", "disable"])], {})
        req.set_callback(done.append)
        c.handle_request(req)
        mh.settle(lambda: done, 60)
        m.check(len(done) == 1, "unanswered", "")


check = vmon.Check(
    "C03",
    [
        vmon.Scenario("groups", groups, quick=600, thorough=5000, timeout=30),
        vmon.Scenario("transfer", transfer, quick=240, thorough=2000, timeout=30),
        vmon.Scenario("ordered", ordered, quick=180, thorough=1000, timeout=30),
        vmon.Scenario("state_group", state_group, quick=120, thorough=800, timeout=30),
    ],
    rule="distinct (group size, subscribers) and distinct observed interleavings of concurrent groups",
    required=["group_messages", "nested", "failed_groups", "observations", "transfers", "ordered_messages", "state_messages"],
)
if __name__ == "__main__":
    check.main()
