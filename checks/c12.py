"""C12: waits return the right result exactly when they should.

A block has methods and attributes whose completion the harness controls. Waits
are made from a context in one cothread while another releases results, changes
values and stops the context in random order."""
import os
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vmon  # noqa

import cothread  # noqa
import mh  # noqa
from annotypes import Anno, add_call_types  # noqa
from malcolm.core import (  # noqa
    AbortedError, BadValueError, Context, NumberMeta, Part, Process, StringMeta,
    Subscribe, TimeoutError, Unsubscribe,
)
from malcolm.modules.builtin.controllers import BasicController  # noqa

with Anno("Which job"):
    AN = int
with Anno("Result"):
    AResult = str


class Job(Exception):
    pass


class JobPart(Part):
    def prepare(self):
        self.gate = {}  # n -> None or "ok" or "err"
        self.began = set()
        self.released = {}
        self.tick = 0
        self.log = []
        return self

    def setup(self, registrar):
        super().setup(registrar)
        registrar.add_method_model(self.job)
        self.value = StringMeta("v").create_attribute_model("start")
        registrar.add_attribute_model("value", self.value)
        self.number = NumberMeta("int32", "n").create_attribute_model(0)
        registrar.add_attribute_model("number", self.number)
        for i in range(4):
            model = NumberMeta("int32", "slow").create_attribute_model(0)

            def setter(v, model=model):
                self._gate(v)
                model.set_value(v)

            registrar.add_attribute_model("slow%d" % i, model, setter)

    def _gate(self, n):
        self.began.add(n)
        while self.gate.get(n) is None:
            cothread.Yield()
        if self.gate[n] == "err":
            raise Job("job %d failed" % n)

    def release(self, n, how):
        self.gate[n] = how

    @add_call_types
    def job(self, n: AN) -> AResult:
        self._gate(n)
        return "result %d" % n


class Rig:
    def __init__(self, m, rng):
        self.m, self.rng = m, rng
        self.proc = mh.make_process()
        m.defer(mh.stop_process, self.proc)
        self.c = BasicController("B")
        self.part = JobPart("jobs").prepare()
        self.c.add_part(self.part)
        self.proc.add_controller(self.c)
        self.ctx = Context(self.proc)
        self.block = self.ctx.block_view("B")
        self.n = 0
        self.want = {}  # future -> (n, kind)
        # What arrives at the block
        self.subs = {}
        orig = self.c.handle_request

        def handle(request):
            if isinstance(request, Subscribe):
                self.subs[(request.id, request.callback)] = request.path
            elif isinstance(request, Unsubscribe):
                self.subs.pop((request.id, request.callback), None)
            return orig(request)

        self.c.handle_request = handle

    def make(self):
        """A new asynchronous request"""
        rng = self.rng
        self.n += 1
        n = self.n
        how = rng.choice(["post", "view", "view2", "put", "putview", "putmany"])
        if how == "post":
            f = self.ctx.post_async(["B", "job"], dict(n=n))
        elif how == "view":
            f = self.block.job_async(n)
        elif how == "view2":
            f = self.block.job.post_async(n=n)
        elif how == "put":
            f = self.ctx.put_async(["B", "slow%d" % rng.randrange(4), "value"], n)
        elif how == "putview":
            f = getattr(self.block, "slow%d" % rng.randrange(4)).put_value_async(n)
        else:
            f = self.block.put_attribute_values_async({"slow%d" % rng.randrange(4): n})[0]
        self.want[f] = (n, "put" if "put" in how else "post")
        return f

    def released(self, f):
        return self.part.gate.get(self.want[f][0])

    def judge_result(self, f):
        """Once released, the future must give exactly its own outcome"""
        m = self.m
        n, kind = self.want[f]
        how = self.part.gate[n]
        try:
            r = f.result(5)
        except Job as e:
            m.check(
                how == "err" and str(e) == "job %d failed" % n,
                "wrong-error",
                lambda: "job %d (%s) gave %r" % (n, how, e),
            )
        except Exception as e:
            m.fail("wrong-error", "job %d (%s) gave %r" % (n, how, e))
        else:
            m.check(how == "ok", "wrong-success", lambda: "job %d returned %r" % (n, r))
            if kind == "post":
                m.check(r == "result %d" % n, "wrong-result", lambda: "job %d: %r" % (n, r))
        m.check(f.done(), "done", "not done after result")
        m.count("results")


def run(fn, m, steps=2500):
    """Run fn in a cothread, return dict(done, value, exc)"""
    out = dict(done=False, value=None, exc=None)

    def body():
        try:
            out["value"] = fn()
        except Exception as e:
            out["exc"] = e
        out["done"] = True

    cothread.Spawn(body)
    return out


def futures(m, rng, idx):
    rig = Rig(m, rng)
    fs = [rig.make() for _ in range(rng.randrange(1, 9))]
    order = list(fs)
    rng.shuffle(order)
    to_release = list(order)
    nested = []
    nest_waits = rng.random() < 0.6
    inner_err = []

    def callback(value):
        """Waits for something else while being told of a value"""
        pick = [f for f in fs if f not in nested]
        if not pick or len(nested) > 5:
            return
        some = rng.sample(pick, rng.randrange(1, len(pick) + 1))
        nested.extend(some)
        try:
            rig.ctx.wait_all_futures(some)
        except Job as e:
            inner_err.append(e)
            m.check(
                any(
                    rig.released(f) == "err" and str(e) == "job %d failed" % rig.want[f][0]
                    for f in some
                ),
                "wrong-error",
                lambda: "nested wait raised %r" % e,
            )
        else:
            m.check(
                all(rig.released(f) == "ok" for f in some),
                "early-return",
                lambda: "nested wait returned with %s"
                % [(rig.want[f], rig.released(f)) for f in some],
            )
        m.count("nested_waits")

    if nest_waits:
        rig.ctx.subscribe(["B", "number", "value"], callback)

    def releaser():
        while to_release:
            for _ in range(rng.choice([1, 1, 2, 4])):
                if to_release:
                    f = to_release.pop()
                    rig.part.release(rig.want[f][0], "err" if rng.random() < 0.25 else "ok")
            if rng.random() < 0.5:
                rig.part.number.set_value(rng.randrange(1000))
            mh.yields(rng.choice([0, 1, 3, 8]))

    cothread.Spawn(releaser)
    waited = 0
    while waited < 4:
        waited += 1
        some = rng.sample(fs, rng.randrange(1, len(fs) + 1))
        how = rng.choice(["all", "all", "one", "exception"])
        if how != "all":
            some = some[:1]
        elif rng.random() < 0.1:
            some.append(some[0])
        arg = some[0] if how == "one" else list(some)

        def act():
            if how == "all":
                rig.ctx.wait_all_futures(arg if len(some) > 1 or rng.random() < 0.5 else some[0])
            elif how == "one":
                arg.result()
            else:
                return some[0].exception()

        out = run(act, m)
        mh.settle(lambda: out["done"], 3000)
        m.require(
            out["done"],
            "hang",
            lambda: "wait for %s did not end; released %s"
            % ([rig.want[f] for f in some], [rig.released(f) for f in some]),
        )
        m.count("waits")
        m.distinct(how, len(some), len(to_release), tuple(rig.released(f) for f in some), len(nested))
        e = out["exc"]
        if how == "exception":
            e = out["value"] or e
        if e is None:
            m.check(
                all(rig.released(f) == "ok" for f in some),
                "early-return",
                lambda: "%s returned with %s"
                % (how, [(rig.want[f], rig.released(f)) for f in some]),
            )
        else:
            m.check(
                any(
                    rig.released(f) == "err" and str(e) == "job %d failed" % rig.want[f][0]
                    for f in some
                ),
                "wrong-error",
                lambda: "%s of %s raised %r" % (how, [rig.want[f] for f in some], e),
            )
            m.count("errors_raised")
    mh.settle(lambda: not to_release, 500)

    def finish():
        for f in rng.sample(fs, len(fs)):
            rig.judge_result(f)

    out = run(finish, m)
    mh.settle(lambda: out["done"], 3000)
    m.require(out["done"], "hang", "final results")
    if out["exc"]:
        raise out["exc"]


def when(m, rng, idx):
    rig = Rig(m, rng)
    values = ["good", "bad", "worse", "a", "b", "c"]
    part = rig.part
    history = ["start"]
    for rnd in range(3):
        script = [rng.choice(values[3:] * 3 + values[:3]) for _ in range(rng.randrange(0, 7))]
        bad = rng.choice([None, ["bad"], ["bad", "worse"], []])
        mode = rng.choice(["value", "callable", "raising"])
        if mode == "value":
            good = "good"
        elif mode == "callable":
            good = lambda v: v in ("good", "c")  # noqa
        else:

            def good(v):
                if v == "bad":
                    raise BadValueError("saw bad")
                return v == "good"

        if rng.random() < 0.3:
            part.value.set_value(rng.choice(values))
        first = part.value.value
        expect, at = None, None
        for i, v in enumerate([first] + script):
            if mode == "value":
                if bad and v in bad:
                    expect = "bad"
                elif v == "good":
                    expect = "good"
            elif mode == "callable":
                expect = "good" if v in ("good", "c") else None
            else:
                expect = {"bad": "bad", "good": "good"}.get(v)
            if expect:
                at = i
                break
        # A wait that nothing will end needs a time limit
        limit = 0.03 if expect is None else rng.choice([None, 20.0])
        which = rng.choice(["ctx", "view", "async", "view_async"])
        kw = dict(bad_values=bad) if mode == "value" else {}
        t = {}
        setters = [0]
        if expect is None:
            event_limit = None
        else:
            event_limit = rng.choice([None, None, 20.0])

        def act():
            t["begin"] = time.time()
            try:
                if which == "ctx":
                    rig.ctx.when_matches(
                        ["B", "value", "value"], good, timeout=limit, event_timeout=event_limit, **kw
                    )
                elif which == "view":
                    rig.block.when_value_matches(
                        "value", good, timeout=limit, event_timeout=event_limit, **kw
                    )
                else:
                    if which == "async":
                        f = rig.ctx.when_matches_async(["B", "value", "value"], good, **kw)
                    else:
                        f = rig.block.when_value_matches_async("value", good, **kw)
                    t["future"] = f
                    rig.ctx.wait_all_futures(f, timeout=limit)
            finally:
                t["end"] = time.time()
                t["at"] = setters[0]

        out = run(act, m)
        mh.yields(6)
        for v in script:
            part.value.set_value(v)
            setters[0] += 1
            mh.yields(rng.choice([0, 0, 1, 3, 8]))
        if expect is None:
            deadline = time.time() + 10
            while not out["done"] and time.time() < deadline:
                cothread.Sleep(0.005)
        else:
            mh.settle(lambda: out["done"], 500)
        m.require(
            out["done"],
            "hang",
            lambda: "%s %s waiting through %s" % (which, mode, [first] + script),
        )
        m.count("when_" + str(expect))
        m.distinct("when", which, mode, expect, at, len(script), bad and len(bad))
        e = out["exc"]
        detail = "%s %s bad=%s through %s" % (which, mode, bad, [first] + script)
        if expect == "good":
            m.check(e is None, "wrong-outcome", lambda: "%s raised %r" % (detail, e))
        elif expect == "bad":
            m.check(
                isinstance(e, BadValueError), "wrong-outcome", lambda: "%s gave %r" % (detail, e)
            )
        else:
            m.check(
                isinstance(e, TimeoutError), "wrong-outcome", lambda: "%s gave %r" % (detail, e)
            )
            m.check(
                "B.value" in str(e), "timeout-message", lambda: "%s gave %r" % (detail, str(e))
            )
            m.check(
                t["end"] - t["begin"] >= limit - 0.002,
                "early-timeout",
                lambda: "%s after %s of %s" % (detail, t["end"] - t["begin"], limit),
            )
        if expect:
            m.check(
                t["at"] >= at,
                "early-return",
                lambda: "%s ended after %d values" % (detail, t["at"]),
            )
        if which in ("ctx", "view") or expect:
            mh.yields(4)
            m.check(
                not rig.subs,
                "subscription-left",
                lambda: "%s left %s" % (detail, list(rig.subs.values())),
            )
            # So it can't disturb what is done next
            part.value.set_value("bad")
            out = run(lambda: rig.ctx.sleep(0), m)
            mh.settle(lambda: out["done"], 50)
            m.check(
                out["done"] and out["exc"] is None,
                "disturbed",
                lambda: "%s then sleep gave %r" % (detail, out["exc"]),
            )
        else:
            # We can still wait for it
            part.value.set_value("good")
            out = run(lambda: t["future"].result(20), m)
            mh.settle(lambda: out["done"], 200)
            m.check(
                out["done"] and out["exc"] is None,
                "second-wait",
                lambda: "%s then wait again gave %r" % (detail, out["exc"]),
            )
            mh.yields(4)
            m.check(not rig.subs, "subscription-left", lambda: detail)


def stops(m, rng, idx):
    rig = Rig(m, rng)
    pending_stops = 0  # sent and not yet noticed
    fs = []
    for step in range(rng.randrange(4, 10)):
        act = rng.choice(["stop_before", "stop_during", "ignore", "plain", "plain", "sleep"])
        fs = [f for f in fs if not f.done()] + [rig.make() for _ in range(rng.randrange(1, 3))]
        for f in fs:
            # make sure it is not finished already
            if rig.released(f):
                rig.part.release(rig.want[f][0], rig.released(f))
        live = [f for f in fs if not rig.released(f)]
        if act == "stop_before":
            rig.ctx.stop()
            pending_stops += 1
        elif act == "ignore":
            if rng.random() < 0.5:
                rig.ctx.stop()
                pending_stops += 1
            rig.ctx.ignore_stops_before_now()
            pending_stops = 0
            if rng.random() < 0.3:
                rig.ctx.stop()
                pending_stops += 1
        if act == "ignore" and rng.random() < 0.5:
            # Something else is waited for first
            short = run(lambda: rig.ctx.sleep(0.002), m)
            deadline = time.time() + 20
            while not short["done"] and time.time() < deadline:
                cothread.Sleep(0.001)
            m.require(
                short["done"] and (short["exc"] is None) == (not pending_stops),
                "stop-ignored" if pending_stops else "stop-stuck",
                lambda: "sleep with %d stops: %s" % (pending_stops, short),
            )
            if pending_stops:
                pending_stops -= 1
            m.count("sleeps")
        if act == "sleep":
            waiter = lambda: rig.ctx.sleep(20)  # noqa
            during = True
        else:
            kind = rng.choice(["all", "when"])
            if kind == "all":
                waiter = lambda: rig.ctx.wait_all_futures(list(live))  # noqa
            else:
                waiter = lambda: rig.ctx.when_matches(["B", "value", "value"], "never")  # noqa
            during = act == "stop_during" or kind == "when"
        out = run(waiter, m)
        mh.yields(rng.randrange(2, 8))
        if pending_stops:
            mh.settle(lambda: out["done"], 30)
            m.require(
                out["done"] and isinstance(out["exc"], AbortedError),
                "stop-ignored",
                lambda: "%s with a stop pending: %s" % (act, out),
            )
            pending_stops -= 1
            m.count("aborted")
            m.distinct("before", act, len(live), pending_stops)
        elif during:
            m.check(
                not out["done"],
                "early-return",
                lambda: "%s ended by itself: %s" % (act, out),
            )
            rig.ctx.stop()
            mh.settle(lambda: out["done"], 30)
            m.require(
                out["done"] and isinstance(out["exc"], AbortedError),
                "stop-ignored",
                lambda: "%s stopped while waiting: %s" % (act, out),
            )
            m.count("aborted_during")
            m.distinct("during", act, len(live))
        else:
            m.check(
                not out["done"],
                "early-return",
                lambda: "%s ended by itself: %s" % (act, out),
            )
            for f in rng.sample(live, len(live)):
                rig.part.release(rig.want[f][0], "ok")
                mh.yields(rng.randrange(0, 3))
            mh.settle(lambda: out["done"], 60)
            m.require(
                out["done"] and out["exc"] is None,
                "stop-stuck" if isinstance(out["exc"], AbortedError) else "hang",
                lambda: "%s after results: %s" % (act, out),
            )
            m.count("not_aborted")
        mh.yields(4)
        m.check(
            not rig.subs,
            "subscription-left",
            lambda: "%s left %s" % (act, list(rig.subs.values())),
        )
    rig.ctx.ignore_stops_before_now()
    for f in fs:
        if not rig.released(f):
            rig.part.release(rig.want[f][0], rng.choice(["ok", "err"]))
    mh.yields(5)

    def finish():
        for f in rng.sample(sorted(rig.want, key=lambda f: rig.want[f][0]), len(rig.want)):
            rig.judge_result(f)

    out = run(finish, m)
    mh.settle(lambda: out["done"], 2000)
    m.require(out["done"] and out["exc"] is None, "hang", lambda: "final results %s" % out)


def timeouts(m, rng, idx):
    """Time limits for requests that never finish, also between events"""
    rig = Rig(m, rng)
    f = [rig.make() for _ in range(rng.randrange(1, 4))]
    live = list(f)
    done_one = len(f) > 1 and rng.random() < 0.5
    if done_one:
        rig.part.release(rig.want[live.pop()][0], "ok")
    limit = rng.choice([0.01, 0.02, 0.04])
    how = rng.choice(["timeout", "event", "both", "result", "sleep"])
    ticking = how in ("event",) and rng.random() < 0.6
    t = {}
    got = []
    if ticking or rng.random() < 0.3:
        rig.ctx.subscribe(["B", "number", "value"], got.append)

    def act():
        t["begin"] = time.time()
        try:
            if how == "timeout":
                rig.ctx.wait_all_futures(list(f), timeout=limit)
            elif how == "event":
                rig.ctx.wait_all_futures(list(f), event_timeout=limit)
            elif how == "both":
                rig.ctx.wait_all_futures(list(f), timeout=limit, event_timeout=30)
            elif how == "result":
                live[0].result(limit)
            else:
                rig.ctx.sleep(limit)
        finally:
            t["end"] = time.time()

    out = run(act, m)
    last = time.time()
    if ticking:
        for i in range(3):
            cothread.Sleep(limit / 3)
            if out["done"]:
                # Can't tell on a busy machine
                break
            last = time.time()
            rig.part.number.set_value(i + 1)
    deadline = time.time() + 20
    while not out["done"] and time.time() < deadline:
        cothread.Sleep(0.002)
    m.require(out["done"], "hang", how)
    m.count("timeouts")
    m.distinct("timeout", how, len(f), done_one, ticking, limit)
    if how == "sleep":
        m.check(out["exc"] is None, "sleep", lambda: repr(out["exc"]))
    else:
        m.check(
            isinstance(out["exc"], TimeoutError), "wrong-outcome", lambda: "%s: %r" % (how, out["exc"])
        )
        m.check(
            "B." in str(out["exc"]), "timeout-message", lambda: "%s: %r" % (how, str(out["exc"]))
        )
    begin = t["begin"] if not (ticking and how == "event") else max(t["begin"], last)
    m.check(
        t["end"] - begin >= limit - 0.002,
        "early-timeout",
        lambda: "%s ended after %s of %s" % (how, t["end"] - begin, limit),
    )
    for x in live:
        rig.part.release(rig.want[x][0], "ok")

    def finish():
        for x in f:
            rig.judge_result(x)

    out = run(finish, m)
    mh.settle(lambda: out["done"], 500)
    m.require(out["done"] and out["exc"] is None, "hang", lambda: "afterwards %s" % out)


check = vmon.Check(
    "C12",
    [
        vmon.Scenario("futures", futures, quick=1200, thorough=12000, timeout=60),
        vmon.Scenario("when", when, quick=750, thorough=6000, timeout=60),
        vmon.Scenario("stops", stops, quick=600, thorough=6000, timeout=60),
        vmon.Scenario("timeouts", timeouts, quick=240, thorough=1500, timeout=60),
    ],
    rule="Distinct (way of waiting, number waited for, order of completion, outcome)",
    required=[
        "waits", "nested_waits", "errors_raised", "results", "when_good", "when_bad",
        "when_None", "aborted", "aborted_during", "not_aborted", "timeouts",
    ],
    level="exploration",
    assumptions=["A context is used from one cothread at a time, as documented"],
)
if __name__ == "__main__":
    check.main()
