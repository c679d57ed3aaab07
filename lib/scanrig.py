"""A runnable (or stateful / manager) block made of recording parts.

Every interesting thing that happens is appended to one event log: part phases
starting and ending, published states and step counters, and requests with
their answers. Delays are counted in scheduler yields, so runs are replayable.
"""
import cothread
import numpy as np

from malcolm.core import (
    AbortedError,
    Info,
    NumberMeta,
    Part,
    Post,
    Put,
    Get,
    Return,
    StringMeta,
    Subscribe,
)
from malcolm.core.process import STOPPED
from malcolm.modules import builtin, scanning
from scanpointgenerator import CompoundGenerator, LineGenerator, StaticPointGenerator

import mh

BH, SH = builtin.hooks, scanning.hooks
HOOKS = dict(
    Init=BH.InitHook,
    Reset=BH.ResetHook,
    Halt=BH.HaltHook,
    Disable=BH.DisableHook,
    Validate=SH.ValidateHook,
    ReportStatus=SH.ReportStatusHook,
    PreConfigure=SH.PreConfigureHook,
    Configure=SH.ConfigureHook,
    PostConfigure=SH.PostConfigureHook,
    PreRun=SH.PreRunHook,
    Run=SH.RunHook,
    PostRunArmed=SH.PostRunArmedHook,
    PostRunReady=SH.PostRunReadyHook,
    Pause=SH.PauseHook,
    Seek=SH.SeekHook,
    Abort=SH.AbortHook,
)
STATEFUL_HOOKS = ["Init", "Reset", "Halt", "Disable"]
INFO_HOOKS = ("ReportStatus", "Configure")


class ThingInfo(Info):
    def __init__(self, source, number):
        self.source, self.number = source, number


class OtherInfo(ThingInfo):
    pass


class Boom(Exception):
    pass


class RecPart(Part):
    def prepare(self, rig, hooks, asks):
        """hooks: names of hooks to take part in. asks: {hook name: subset of
        arguments to ask for, or None for everything supplied}"""
        self.rig, self.hook_names, self.asks = rig, list(hooks), asks
        return self

    def setup(self, registrar):
        super().setup(registrar)
        for h in self.hook_names:
            registrar.hook(HOOKS[h], self._make(h), self._make_args(h))
        self.rig.part_setup(self, registrar)

    def on_hook(self, hook):
        for h, cls in HOOKS.items():
            if type(hook) is cls and h in self.hook_names:
                self.rig.log("launch", part=self.name, hook=h)
        super().on_hook(hook)

    def _make_args(self, h):
        ask = self.asks.get(h)

        def args_gen(keys):
            if ask is None:
                return list(keys)
            return [k for k in ask]

        return args_gen

    def _make(self, h):
        def func(context=None, **kwargs):
            return self.rig.behave(self, h, context, kwargs)

        return func


class Act:
    """A request sent to the block"""

    def __init__(self, name, n, args):
        self.name, self.n, self.args = name, n, args
        self.sent = self.answered = None
        self.response = None
        self.state_at_answer = None

    @property
    def done(self):
        return self.response is not None

    @property
    def ok(self):
        return isinstance(self.response, Return)

    @property
    def message(self):
        if self.response is None or self.ok:
            return None
        return str(self.response.message)


class Rig:
    MRI = "SCAN"

    def __init__(self, m, rng, kind="runnable", track=True):
        self.m, self.rng, self.kind = m, rng, kind
        self.events = []
        self.parts = []
        self.acts = []
        self.open = {}  # token -> (part name, hook)
        self.token = 0
        self.state = self.completed = self.configured = self.total = None
        self.health = None
        self.planner = None
        self.on_event = None
        self.part_setup_fn = None
        self._id = 1000
        self.track = track
        self.gates = {}

    # ------------------------------------------------------------ building
    def add_part(self, name, hooks, asks=None):
        p = RecPart(name)
        p.prepare(self, hooks, asks or {})
        self.parts.append(p)
        return p

    def part_setup(self, part, registrar):
        if self.part_setup_fn:
            self.part_setup_fn(part, registrar)

    def make_controller(self):
        if self.kind == "stateful":
            return builtin.controllers.StatefulController(self.MRI)
        if self.kind == "manager":
            return builtin.controllers.ManagerController(self.MRI, self.m.tmpdir())
        return scanning.controllers.RunnableController(self.MRI, self.m.tmpdir())

    def start(self, controller=None, wait=True):
        from malcolm.core import Process

        self.process = Process("proc")
        self.controller = controller or self.make_controller()
        for p in self.parts:
            self.controller.add_part(p)
        self.process.add_controller(self.controller)
        self.m.defer(mh.stop_process, self.process)
        starting = cothread.Spawn(self.process.start, raise_on_wait=True)
        # As soon as the process is starting we can send it requests, so the
        # log has most of the initialisation in it
        mh.settle(lambda: self.process.state != STOPPED, 20)
        self.subscribe("state", self._on_state)
        self.subscribe("health", self._on_health)
        if self.kind == "runnable":
            for f in ("completed", "configured", "total"):
                self.subscribe(
                    f + "Steps", lambda v, f=f: self._on_steps(f, v["value"])
                )
        if wait:
            starting.Wait(30)
            mh.yields(3)
        return self

    def subscribe(self, field, fn):
        self._id += 1
        r = Subscribe(self._id, [self.MRI, field], delta=False)
        r.set_callback(lambda resp: fn(mh.norm(resp.value)) if hasattr(resp, "value") else None)
        self.controller.handle_request(r)

    # ------------------------------------------------------------ log
    def log(self, kind, **kw):
        kw["kind"] = kind
        kw["seq"] = len(self.events)
        self.events.append(kw)
        if self.on_event:
            self.on_event(kw)
        return kw["seq"]

    def _on_state(self, v):
        if v["value"] != self.state:
            old, self.state = self.state, v["value"]
            self.log("state", old=old, new=self.state, alarm=v["alarm"]["message"])

    def _on_health(self, v):
        self.health = v

    def _on_steps(self, f, v):
        old = getattr(self, f)
        setattr(self, f, v)
        if old != v:
            self.log("steps", which=f, old=old, new=v)

    # ------------------------------------------------------------ parts
    def behave(self, part, hook, context, kwargs):
        self.token += 1
        token = self.token
        plan = self.planner(part, hook, kwargs, context) if self.planner else {}
        self.open[token] = (part.name, hook)
        self.log("start", part=part.name, hook=hook, token=token, args=kwargs)
        outcome = "failed"
        try:
            ret = self._work(part, hook, context, kwargs, plan)
            outcome = "ok"
            return ret
        except AbortedError:
            outcome = "aborted"
            raise
        finally:
            self.open.pop(token)
            self.log("end", part=part.name, hook=hook, token=token, outcome=outcome)

    def _work(self, part, hook, context, kwargs, plan):
        steps = plan.get("steps", 0)
        fail_at = plan.get("fail_at")
        for i in range(steps):
            if fail_at == i:
                raise plan["exc"]
            fn = plan.get("each")
            if fn:
                fn(i)
            cothread.Yield()
            if plan.get("interruptible", True) and context is not None:
                context.sleep(0)
        if fail_at is not None and fail_at >= steps:
            raise plan["exc"]
        until = plan.get("until")
        if until:
            while not until():
                cothread.Yield()
                if plan.get("interruptible", True) and context is not None:
                    context.sleep(0)
        fn = plan.get("last")
        if fn:
            fn()
        return plan.get("ret")

    # ------------------------------------------------------------ requests
    def send(self, name, put=False, **args):
        self._id += 1
        a = Act(name, self._id, args)
        if put:
            r = Put(a.n, [self.MRI, name, "value"], args["value"])
        else:
            r = Post(a.n, [self.MRI, name], args)
        r.set_callback(lambda resp, a=a: self._answer(a, resp))
        a.sent = self.log("send", name=name, n=a.n)
        self.acts.append(a)
        self.controller.handle_request(r)
        return a

    def _answer(self, a, resp):
        if a.response is not None:
            self.m.fail("second-answer", "%s answered twice" % a.name)
        a.response = resp
        a.state_at_answer = self.state
        a.answered = self.log(
            "answer", name=a.name, n=a.n, ok=a.ok, msg=a.message, state=self.state
        )

    def wait(self, *acts, steps=3000):
        return mh.settle(lambda: all(a.done for a in acts), steps)

    def do(self, name, put=False, steps=3000, **args):
        a = self.send(name, put, **args)
        self.wait(a, steps=steps)
        return a

    def get(self, *path):
        self._id += 1
        box = []
        r = Get(self._id, [self.MRI] + list(path))
        r.set_callback(box.append)
        self.controller.handle_request(r)
        mh.settle(lambda: box, 50)
        if not box or not isinstance(box[0], Return):
            return None
        return mh.norm(box[0].value)

    # ------------------------------------------------------------ analysis
    def phases(self, lo=0, hi=None):
        """[(hook, {part: start event})] of consecutive phase instances"""
        out = []
        for e in self.events[lo:hi]:
            if e["kind"] != "start":
                continue
            if not out or out[-1][0] != e["hook"] or e["part"] in out[-1][1]:
                out.append((e["hook"], {}))
            out[-1][1][e["part"]] = e
        return out

    def states(self, lo=0, hi=None):
        return [e["new"] for e in self.events[lo:hi] if e["kind"] == "state"]

    def tail(self, n=25):
        out = []
        for e in self.events[-n:]:
            e = {k: v for k, v in e.items() if k not in ("args", "token")}
            out.append(" ".join("%s" % v for v in e.values()))
        return out


# ---------------------------------------------------------------- scans
def gen_scan(rng, maxdims=3, maxsize=5):
    """Random generator with 0..maxdims line dimensions, maybe merged, maybe a
    static dimension. Returns dict(generator, axesToMove, sizes...)"""
    ndim = rng.choice([1, 1, 2, 2, 3][: 2 + maxdims])
    gens, dims = [], []
    for i in range(ndim):
        n = rng.randrange(1, maxsize + 1)
        if rng.random() < 0.12:
            gens.append(StaticPointGenerator(n))
            dims.append(([], n))
        else:
            ax = ["ax%d" % i]
            if rng.random() < 0.2:
                ax.append("bx%d" % i)
            units = ["mm"] * len(ax)
            gens.append(
                LineGenerator(
                    ax,
                    units,
                    [0.0] * len(ax),
                    [float(i + 1)] * len(ax),
                    n,
                    alternate=rng.random() < 0.4,
                )
            )
            dims.append((ax, n))
    gen = CompoundGenerator(gens, [], [], duration=0.1)
    return gen, dims


def merged_dims(gen):
    """Dimensions after alternating ones have been merged, from the library"""
    g = CompoundGenerator.from_dict(gen.to_dict())
    g.prepare()
    return [(list(d.axes), d.size) for d in g.dimensions], g.size


def scan_reference(dims, axes, breakpoints):
    """Where each run of a scan ends. dims: outermost first"""
    total = 1
    for _, n in dims:
        total *= n
    left = set(axes)
    inner = 1
    for ax, n in reversed(dims):
        if ax and not left:
            break
        for a in ax:
            left.discard(a)
        inner *= n
    if not len(breakpoints):
        ends = list(range(inner, total + 1, inner))
    else:
        per = list(breakpoints)
        if sum(per) < inner:
            per.append(inner - sum(per))
        ends, acc = [], 0
        while acc < total:
            for p in per:
                acc += p
                ends.append(acc)
    return total, inner, ends


def pick_axes(rng, dims):
    """Innermost dimensions' axes to move, so that the rest become outer runs"""
    k = rng.randrange(1, len(dims) + 1)
    return [a for ax, _ in dims[len(dims) - k :] for a in ax]
