"""A beamline in miniature: the real RunnableController with the real
PmacChildPart and PandASeqTriggerPart, the real PMAC manager with its
trajectory, coordinate system and status parts, and simulated hardware under
them that records what it is told and plays it back."""
import math

import cothread
import numpy as np
from annotypes import Anno, add_call_types

import mh
import manrig

from malcolm.core import (
    BooleanMeta,
    NumberArrayMeta,
    NumberMeta,
    Part,
    Post,
    Process,
    StringMeta,
    TableMeta,
)
from malcolm.modules import builtin, scanning
from malcolm.modules.ADPandABlocks.util import DatasetPositionsTable, SequencerTable
from malcolm.modules.builtin.util import ExportTable, LayoutTable
from malcolm.modules.pandablocks.util import PositionCapture
from malcolm.modules.pmac.parts import pmacchildpart
from malcolm.modules.pmac.parts.cspart import CSPart
from malcolm.modules.pmac.parts.pmacchildpart import PmacChildPart
from malcolm.modules.pmac.parts.pmacstatuspart import PmacStatusPart
from malcolm.modules.pmac.parts.pmactrajectorypart import PmacTrajectoryPart
from malcolm.modules.pmac.util import AlternatingDelayAfterMutator
from scanpointgenerator import (
    ArrayGenerator,
    CircularROI,
    CompoundGenerator,
    ConcatGenerator,
    LineGenerator,
    LissajousGenerator,
    Mutator,
    RectangularROI,
    ROIExcluder,
    SpiralGenerator,
    StaticPointGenerator,
)

AXES = "ABCUVWXYZ"
PANDA_TICK = 8e-9
SWITCH = 6  # ticks lost when one sequencer hands over to the other
SEQ_ROWS = 4096

with Anno("How the durations vary"):
    APattern = str


@Mutator.register_subclass("verif:mutator/VaryDuration:1.0")
class VaryDuration(Mutator):
    """Points that take different times"""

    def __init__(self, pattern: APattern) -> None:
        self.pattern = pattern

    def factor(self, idx):
        if self.pattern == "steps":
            return 1 + (idx // 7) % 3
        if self.pattern == "odd":
            return 1 + idx % 2
        return 1 + (idx * 7919 % 13) / 8.0

    def mutate(self, point, index):
        point.duration = point.duration * self.factor(np.asarray(index) if hasattr(index, "__len__") else index)
        return point


def consistent_points():
    """scanpointgenerator 3.1 swaps the bounds of a point of the way back of an
    alternating scan if asked for it on its own by get_points(). Ask it for two"""
    real = CompoundGenerator.get_points

    def get_points(self, start, finish):
        if finish - start == 1 and self.size > 1:
            if start > 0:
                return real(self, start - 1, finish)[1:]
            return real(self, start, finish + 1)[:1]
        return real(self, start, finish)

    CompoundGenerator.get_points = get_points


consistent_points()


class Bag(Part):
    """Attributes and methods of a simulated block"""

    def prepare(self, attrs, methods=None):
        # attrs: name -> (meta, value, setter or None); methods: name -> function
        self.attrs, self.methods, self.models = attrs, methods or {}, {}
        return self

    def setup(self, registrar):
        super().setup(registrar)
        for name, (meta, value, setter) in self.attrs.items():
            model = self.models[name] = meta.create_attribute_model(value)
            if setter is True:
                setter = model.set_value
            registrar.add_attribute_model(name, model, setter)
        for name, f in self.methods.items():
            registrar.add_method_model(self.method(f), name)

    @staticmethod
    def method(f):
        @add_call_types
        def call() -> None:
            f()

        return call

    def set(self, name, value):
        self.models[name].set_value(value)

    def get(self, name):
        return self.models[name].value


def num(value, setter=None, dtype="float64"):
    return NumberMeta(dtype, "number"), value, setter


def text(value, setter=None):
    return StringMeta("text"), value, setter


def flag(value, setter=None):
    return BooleanMeta("flag"), value, setter


class Motor:
    def __init__(self, rng, name, letter, res=None):
        self.name, self.letter = name, letter
        self.maxv = rng.choice([0.5, 1.0, 5.0, 20.0])
        self.percent = rng.choice([100.0, 100.0, 50.0])
        self.acctime = rng.choice([0.05, 0.1, 0.3, 1.0])
        self.resolution = res or rng.choice([0.001, -0.001, 0.01, 2e-5])
        self.offset = rng.choice([0.0, 1.5, -20.0])
        self.readback = rng.choice([0.0, 1.0, -30.0])
        self.settle = rng.choice([0.0, 0.0, 0.0, 0.01, 0.1])
        self.limits = (0.0, 0.0)  # none

    @property
    def v(self):
        return self.maxv * self.percent / 100

    @property
    def a(self):
        return self.v / self.acctime

    def bag(self):
        lo, hi = self.limits
        return Bag(self.name).prepare(
            dict(
                maxVelocity=num(self.maxv), maxVelocityPercent=num(self.percent), accelerationTime=num(self.acctime),
                cs=text("CS1," + self.letter), resolution=num(self.resolution), offset=num(self.offset),
                readback=num(self.readback), velocitySettle=num(self.settle), units=text("mm"), axisNumber=num(1, dtype="int32"),
                userHighLimit=num(hi), userLowLimit=num(lo), dialHighLimit=num(hi), dialLowLimit=num(lo),
            )
        )


class Trajectory:
    """The trajectory scan of a PMAC"""

    def __init__(self, rig):
        self.rig = rig
        self.built = None
        self.runs = []  # profiles executed
        self.aborting = False
        self.executing = False
        self.carried = 0
        attrs = dict(
            numPoints=num(0, True, "int32"), cs=text("", True), timeArray=self.array("int32"), velocityMode=self.array("int32"),
            userPrograms=self.array("int32"), pointsToBuild=num(0, True, "int32"), pointsScanned=num(0, None, "int32"),
            pointsBuilt=num(0, None, "int32"), trajectoryProgVersion=num(3, None, "int32"),
        )
        for x in AXES:
            attrs["use" + x] = flag(False, True)
            attrs["positions" + x] = self.array("float64")
        self.bag = Bag("hw").prepare(
            attrs, dict(buildProfile=self.build, appendProfile=self.append, executeProfile=self.execute, abortProfile=self.abort)
        )

    def array(self, dtype):
        return NumberArrayMeta(dtype, "array"), [], True

    def take(self):
        m, get = self.rig.m, self.bag.get
        n = get("pointsToBuild")
        p = self.built
        for k in ["timeArray", "velocityMode", "userPrograms"] + ["positions" + x for x in p["use"]]:
            v = list(get(k))
            m.require(len(v) == n, "lengths", lambda: "%s has %d elements of %d" % (k, len(v), n))
            p[k].extend(v)
        m.check(n > 0, "lengths", "asked for 0 points")
        p["chunks"].append(n)
        self.bag.set("pointsBuilt", len(p["timeArray"]))
        m.count("profile_points", n)

    def build(self):
        m = self.rig.m
        mh.yields(self.rig.rng.choice([0, 2, 10]))
        m.check(not self.executing, "build", "build during a trajectory")
        use = [x for x in AXES if self.bag.get("use" + x)]
        self.built = dict(use=use, cs=self.bag.get("cs"), start=dict(self.rig.cs_pos), chunks=[], late=False)
        for k in ["timeArray", "velocityMode", "userPrograms"] + ["positions" + x for x in use]:
            self.built[k] = []
        self.take()

    def append(self):
        mh.yields(self.rig.rng.choice([0, 2, 10]))
        if self.built is not self.rig_current():
            self.built["late"] = True
        self.take()
        self.rig.m.count("appends")

    def rig_current(self):
        return self.runs[-1] if self.runs and self.executing else None

    def execute(self):
        rig, rng = self.rig, self.rig.rng
        p = self.built
        p["start"] = dict(rig.cs_pos)
        p["progress"] = []
        p["finished"] = False
        # Or is it only to reset the outputs?
        p["scan"] = rig.segment_id if str(getattr(rig.ctrl.state.value, "value", rig.ctrl.state.value)) == "Running" else None
        self.runs.append(p)
        self.executing, self.aborting = True, False
        self.bag.set("pointsScanned", 0)
        scanned = 0
        # Not so fast that there is no time to send more
        room = max(1, getattr(pmacchildpart, "PROFILE_POINTS", 2000) // 3)
        strides = [min(x, room) for x in rng.choice([[1, 2, 5], [10, 40], [100, 700], [1999, 500], [1, 3000]])]
        if room > 500:
            strides = [100, 300, room]
        try:
            while True:
                self.rig.motion_hold()
                if self.aborting:
                    raise RuntimeError("Aborted")
                left = len(p["timeArray"]) - scanned
                if left == 0:
                    # More to come?
                    n = len(p["timeArray"])
                    mh.settle(lambda: len(p["timeArray"]) != n or self.aborting, 600)
                    if len(p["timeArray"]) == n and not self.aborting:
                        break
                    p["late"] = True
                    continue
                step = min(left, rng.choice(strides))
                scanned += step
                self.bag.set("pointsScanned", scanned)
                mh.yields(rng.choice([1, 5, 20]))
                self.carried += step
                if self.carried > room:
                    self.carried = 0
                    mh.settle(lambda: self.aborting, 300)
                if rng.random() < 0.2 or scanned < 6:
                    mh.yields(40)
                    p["progress"].append((scanned, rig.completed()))
        finally:
            self.executing = False
        p["finished"] = True
        for x in p["use"]:
            rig.cs_pos[x] = p["positions" + x][-1]

    def abort(self):
        self.aborting = True
        mh.settle(lambda: not self.executing, 3000)


class CS:
    def __init__(self, rig):
        self.rig = rig
        self.demands = {}
        self.moves = []  # (moveTime, {letter: position})
        attrs = dict(
            port=text("BRICK1CS1"), deferMoves=flag(False, self.defer), csMoveTime=num(0.0, True), qVariables=text(""),
            forward=text(""), inverse=text(""),
        )
        for x in AXES:
            attrs["demand" + x] = num(0.0, self.demander(x))
        self.bag = Bag("hw").prepare(attrs)

    def defer(self, value):
        self.bag.set("deferMoves", value)
        if not value:
            self.moves.append((self.bag.get("csMoveTime") / 1000, dict(self.demands)))
            mh.yields(self.rig.rng.choice([0, 5, 30]))
            self.rig.cs_pos.update(self.demands)
            self.demands.clear()

    def demander(self, x):
        def put(value):
            self.bag.set("demand" + x, value)
            self.demands[x] = value
            mh.settle(lambda: x not in self.demands, 2000)

        return put


class Sequencers:
    """The pair of sequencers of a PandA, that hand over to each other"""

    def __init__(self, rig, rng, m):
        self.rig, self.rng, self.m = rig, rng, m
        self.rows = {"A": [], "B": []}
        self.active = {"A": False, "B": False}
        self.enabled = False
        self.sessions = []
        self.gen = 0
        self.slow = rng.choice([0, 3, 25])
        self.limit = SEQ_ROWS
        self.lock = cothread.RLock()
        self.bags = {}
        for s in "AB":
            meta = TableMeta.from_table(SequencerTable, "table", writeable=list(SequencerTable.call_types))
            self.bags[s] = Bag("hw").prepare(
                dict(
                    table=(meta, None, self.putter(s)), repeats=num(rng.choice([1, 1, 0, 5]), True, "uint32"),
                    prescale=num(0.0 if rng.random() < 0.8 else 1.0, True), active=flag(False), label=text("Seq" + s),
                    posa=text("ZERO"), posb=text("ZERO"), posc=text("ZERO"), bita=text("TTLIN1.VAL"),
                )
            )

    def putter(self, s):
        def put(value):
            # One at a time, as they come to a PandA
            with self.lock:
                locked(value)

        def locked(value):
            mh.yields(self.rng.randrange(self.slow + 1))
            m = self.m
            rows = [tuple(x.item() if hasattr(x, "item") else x for x in r) for r in value.rows()]
            m.check(0 < len(rows) <= self.limit, "table-size", lambda: "table of %d rows" % len(rows))
            other = "B" if s == "A" else "A"
            if self.enabled:
                m.check(not self.active[s], "rewrite", lambda: "table %s was rewritten while it was active" % s)
                m.check(self.active[other], "rewrite", lambda: "table %s was rewritten while %s was not active" % (s, other))
                m.count("rewrites")
            else:
                m.count("fills")
            mh.yields(self.rng.randrange(self.slow + 1))
            self.rows[s] = rows
            self.bags[s].set("table", value)
            m.count("table_rows", len(rows))

        return put

    def enable(self):
        if self.enabled:
            return
        self.enabled = True
        self.gen += 1
        cothread.Spawn(self.play, self.gen)

    def reset(self):
        self.enabled = False
        self.gen += 1
        for s in "AB":
            self.active[s] = False
        for s in "AB":
            self.bags[s].set("active", False)

    def play(self, gen):
        session = dict(tables=[], finished=False, repeats=[], prescale=[], scan=self.rig.segment_id)
        self.sessions.append(session)
        s = "A"
        self.active[s] = True
        while True:
            # What it was when we started is what is played
            session["tables"].append(self.rows[s])
            session["repeats"].append(self.bags[s].get("repeats"))
            session["prescale"].append(self.bags[s].get("prescale"))
            self.bags[s].set("active", True)
            if not self.rows[s] or self.rows[s][-1][0] == 0:
                session["finished"] = True
                return
            self.rig.seq_hold(self, gen)
            mh.yields(250 + self.rng.randrange(60) + 4 * self.slow)
            if self.gen != gen or len(session["tables"]) > 1000:
                return
            old, s = s, "B" if s == "A" else "A"
            self.active[old], self.active[s] = False, True
            if self.rng.random() < 0.5:
                self.bags[s].set("active", True)
                mh.yields(self.rng.choice([0, 0, 2]))
            self.bags[old].set("active", False)
            mh.yields(self.rng.choice([0, 0, 2]))


class Watch(Part):
    """Sees what the scan is told to do"""

    def prepare(self, rig, trigger):
        self.rig, self.trigger = rig, trigger
        return self

    def setup(self, registrar):
        super().setup(registrar)
        h = scanning.hooks
        registrar.hook(h.ReportStatusHook, self.status)
        registrar.hook((h.ConfigureHook, h.SeekHook, h.PostRunArmedHook), self.configure)
        registrar.hook(h.PreRunHook, self.pre_run)
        registrar.hook(h.RunHook, self.run)
        registrar.hook((h.PauseHook, h.AbortHook), self.stop)
        registrar.hook(h.PostRunReadyHook, self.end)

    @add_call_types
    def status(self) -> scanning.hooks.UInfos:
        if self.trigger is None:
            return None
        return scanning.infos.MotionTriggerInfo(self.trigger)

    @add_call_types
    def configure(
        self,
        completed_steps: scanning.hooks.ACompletedSteps,
        steps_to_do: scanning.hooks.AStepsToDo,
        generator: scanning.hooks.AGenerator,
        axesToMove: scanning.hooks.AAxesToMove,
    ) -> None:
        self.rig.segment_id += 1
        self.rig.segment = (completed_steps, completed_steps + steps_to_do)
        self.rig.generator = generator
        self.rig.axes_to_move = list(axesToMove)
        self.rig.running = False

    @add_call_types
    def pre_run(self) -> None:
        pass

    @add_call_types
    def run(self, context: scanning.hooks.AContext) -> None:
        self.rig.segments.append(dict(self.rig.snapshot()))
        self.rig.running = True
        # The scan doesn't end before the triggers
        if self.rig.seqs:
            for _ in range(20000):
                if self.rig.seqs.sessions and self.rig.seqs.sessions[-1]["finished"]:
                    break
                mh.yields(10)
                context.sleep(0)  # or have we been told to stop?

    @add_call_types
    def stop(self) -> None:
        self.rig.running = False

    @add_call_types
    def end(self) -> None:
        # PCAP has disarmed
        if self.rig.seqs:
            self.rig.seqs.reset()


class Rig:
    """kind: None for only a PMAC, else "pcomp", "gate" for a PandA as well"""

    MRI = "SCAN"

    def __init__(self, m, rng, motors, trigger=None, panda=None, min_turnaround=None, scales=None, visible=None, servo=None, mover=None, more=()):
        self.m, self.rng, self.motors = m, rng, motors
        self.trigger, self.panda = trigger, panda
        self.min_turnaround = min_turnaround
        self.cs_pos = {x.letter: x.readback for x in motors}
        self.segment = self.generator = None
        self.segments = []
        self.segment_id = 0
        self.running = False
        self.seqs = None
        self.holds = None
        self.process = Process("motion")
        self.traj, self.cs = Trajectory(self), CS(self)
        self.servo = servo or rng.choice([1000.0, 3200.0, 5000.0, 2251.0])
        SC = builtin.controllers.StatefulController

        def leaf(mri, bag):
            c = SC(mri)
            c.add_part(bag)
            self.process.add_controller(c)

        pmac = builtin.controllers.ManagerController(mri="PMAC", config_dir=m.tmpdir())
        for mot in motors:
            leaf("PMAC:" + mot.name, mot.bag())
            pmac.add_part(builtin.parts.ChildPart(name=mot.name, mri="PMAC:" + mot.name, initial_visibility=True))
        leaf("PMAC:CS1", self.cs.bag)
        pmac.add_part(CSPart(mri="PMAC:CS1", cs=1))
        leaf("PMAC:TRAJ", self.traj.bag)
        pmac.add_part(PmacTrajectoryPart(name="TRAJ", mri="PMAC:TRAJ"))
        leaf("PMAC:STATUS", Bag("hw").prepare(dict(servoFreq=num(self.servo), iVariables=text(""), pVariables=text(""), mVariables=text(""))))
        pmac.add_part(PmacStatusPart(name="STATUS", mri="PMAC:STATUS", initial_visibility=True))
        self.process.add_controller(pmac)
        self.ctrl = scanning.controllers.RunnableController(mri=self.MRI, config_dir=m.tmpdir())
        self.ctrl.add_part(mover or PmacChildPart(name="PMAC", mri="PMAC", initial_visibility=True))
        for x in more:
            self.ctrl.add_part(x)
        if panda:
            self.add_panda(leaf, scales or {}, visible or [])
        if min_turnaround:
            self.ctrl.add_part(scanning.parts.MinTurnaroundPart(gap=min_turnaround[0], interval=min_turnaround[1]))
        self.ctrl.add_part(Watch("WATCH").prepare(self, trigger))
        self.process.add_controller(self.ctrl)
        m.defer(self.end)
        manrig.start(self.process)
        self.cl = manrig.Client(self.process)

    def add_panda(self, leaf, scales, visible):
        from malcolm.modules.ADPandABlocks.parts import PandASeqTriggerPart

        rng = self.rng
        self.seqs = s = Sequencers(self, rng, self.m)
        names = ["INENC%d.VAL" % (i + 1) for i in range(4)] + ["COUNTER1.OUT"]
        datasets = [""] * 5
        self.inputs = {}  # scannable -> POSA etc
        self.scales = {}  # scannable -> (scale, offset)
        scale, offset = [1.0] * 5, [0.0] * 5
        spots = rng.sample(range(4), len(visible))
        letters = rng.sample("abc", len(visible))
        for k, name in enumerate(visible):
            i = spots[k]
            datasets[i] = name
            scale[i], offset[i] = scales[name]
            for b in s.bags.values():
                mt, _, st = b.attrs["pos" + letters[k]]
                b.attrs["pos" + letters[k]] = (mt, names[i], st)
            self.inputs[name] = "POS" + letters[k].upper()
            self.scales[name] = scales[name]
        leaf("PANDA:SEQ1", s.bags["A"])
        leaf("PANDA:SEQ2", s.bags["B"])
        pos = DatasetPositionsTable(
            name=names, value=[0.0] * 5, units=[""] * 5, scale=scale, offset=offset, capture=[PositionCapture.NO] * 5,
            datasetName=datasets, datasetType=["monitor"] * 5,
        )
        meta = TableMeta.from_table(DatasetPositionsTable, "positions")
        exports = ExportTable(source=["SEQ1.table", "SEQ2.table"], export=["seqTableA", "seqTableB"])
        layout = LayoutTable.from_rows([["SEQ1", "PANDA:SEQ1", 0, 0, True], ["SEQ2", "PANDA:SEQ2", 0, 0, True]])
        leaf(
            "PANDA",
            Bag("hw").prepare(
                dict(
                    positions=(meta, pos, None), exports=(TableMeta.from_table(ExportTable, "e"), exports, None),
                    layout=(TableMeta.from_table(LayoutTable, "l"), layout, None),
                ),
                dict(seqSetEnable=s.enable, seqReset=s.reset),
            ),
        )
        row = "Position Compare" if self.panda == "pcomp" else "Motion Controller"
        leaf("TRIG", Bag("hw").prepare(dict(panda=text("PANDA"), pmac=text("PMAC"), rowTrigger=text(row))))
        self.ctrl.add_part(PandASeqTriggerPart(name="TRIG", mri="TRIG"))

    def end(self):
        self.holds = None
        self.running = True
        self.traj.aborting = True
        if self.seqs:
            self.seqs.reset()
            for x in self.seqs.sessions:
                x["finished"] = True
        mh.stop_process(self.process)

    def snapshot(self):
        return dict(
            segment=self.segment, generator=self.generator, axes=self.axes_to_move,
            id=self.segment_id,
        )

    def run_of(self, seg):
        got = [x for x in self.traj.runs if x["scan"] == seg["id"]]
        return got[-1] if got else None

    def session_of(self, seg):
        got = [x for x in self.seqs.sessions if x["scan"] == seg["id"]]
        return got[-1] if got else None

    def completed(self):
        return self.ctrl.completed_steps.value

    # -- where to hold things up
    def motion_hold(self):
        if self.holds:
            self.holds("motion")

    def seq_hold(self, seqs, gen):
        mh.settle(lambda: self.running or seqs.gen != gen, 100000)

    def post(self, name, **args):
        return self.cl.send(Post(self.cl.id(), [self.MRI, name], args))

    def wait(self, box, n=200000):
        mh.settle(lambda: box, n)
        return box[0] if box else None

    def get(self, *path):
        return self.cl.get(self.MRI, *path)


# ---------------------------------------------------------------- scans
def pick_generator(rng, names, size, kinds=None):
    """A random scan of some of these axes: (generators, excluders)"""
    kinds = kinds or ["line", "line", "grid", "grid", "grid3", "spiral", "lissajous", "array", "concat", "roi", "static", "zip", "fine"]
    kind = rng.choice(kinds)
    ex = []

    def line(axes, n, alternate=False, span=None):
        a, b = [], []
        for _ in axes:
            c, w = rng.choice([0.0, 1.0, -3.5, 10.0]), span or rng.choice([0.5, 2.0, 10.0])
            w *= rng.choice([1, 1, -1])
            a.append(c)
            b.append(c + w)
        return LineGenerator(axes, ["mm"] * len(axes), a, b, n, alternate)

    if kind == "line":
        k = rng.randrange(1, min(3, len(names)) + 1)
        gens = [line(names[:k], size)]
    elif kind == "grid":
        n = max(1, int(rng.choice([1, 2, 3, size**0.5])))
        inner = max(1, size // n)
        k = rng.choice([1, 1, 2]) if len(names) > 2 else 1
        gens = [line(names[k : k + 1], n), line(names[:k], inner, rng.random() < 0.6)] if len(names) > k else [line(names[:k], size)]
    elif kind == "grid3" and len(names) > 2:
        n = max(1, int(size ** (1 / 3.0)))
        gens = [line(names[2:3], n), line(names[1:2], n, rng.random() < 0.5), line(names[:1], max(1, size // n // n), rng.random() < 0.5)]
    elif kind == "spiral" and len(names) > 1:
        r = rng.choice([0.5, 2.0])
        gens = [SpiralGenerator(names[:2], ["mm"] * 2, [0.0, 1.0], r, scale=r * (3.0 / max(size, 4)) ** 0.5 * 1.5)]
    elif kind == "lissajous" and len(names) > 1:
        gens = [LissajousGenerator(names[:2], ["mm"] * 2, [0.0, 1.0], [1.0, 2.0], lobes=rng.choice([1, 2, 3]), size=max(size, 8))]
    elif kind == "array":
        p, pts = 0.0, []
        for _ in range(max(size, 2)):
            p += rng.choice([0.1, 0.2, 0.5]) * (1 if rng.random() < 0.85 else -1)
            pts.append(p)
        gens = [ArrayGenerator(names[0], "mm", pts)]
        if len(names) > 1 and rng.random() < 0.5:
            gens = [line(names[1:2], rng.choice([1, 2, 3]))] + gens
    elif kind == "concat":
        n = max(1, size // 3)
        # Each starts where the last left off
        at, parts = 0.0, []
        for _ in range(3):
            step = rng.choice([0.1, 0.25, 0.5])
            parts.append(LineGenerator(names[:1], ["mm"], [at + step / 2], [at + step * (n - 0.5)], n) if n > 1 else LineGenerator(names[:1], ["mm"], [at + 0.125], [at + 0.375], 1))
            at += step * n if n > 1 else 0.25
        gens = [ConcatGenerator(parts)]
    elif kind == "roi" and len(names) > 1:
        n = max(3, int(size**0.5))
        gens = [
            LineGenerator([names[1]], ["mm"], [-1.0], [1.0], n),
            LineGenerator([names[0]], ["mm"], [-1.0], [1.0], n, rng.random() < 0.6),
        ]
        rois = rng.choice(
            [
                [CircularROI([0.0, 0.0], 0.95)],
                [RectangularROI([-1.0, -1.0], 0.6, 2.0), RectangularROI([0.4, -1.0], 0.6, 2.0)],
            ]
        )
        ex = [ROIExcluder(rois, [names[0], names[1]])]
    elif kind == "fine" and len(names) > 1:
        # Small movements a long way from zero
        n = max(2, int(size**0.5))
        gens = []
        for k, a in ((n, names[1]), (max(1, size // n), names[0])):
            c, w = rng.choice([1000.0, -4000.0]), rng.choice([0.004, 0.02, 0.2])
            gens.append(LineGenerator([a], ["mm"], [c], [c + w], k, bool(gens) and rng.random() < 0.4))
    elif kind == "still":
        gens = [StaticPointGenerator(size)]
    elif kind == "static":
        gens = [line(names[:1], max(1, size // 3), False), StaticPointGenerator(rng.choice([1, 2, 3]))]
        if rng.random() < 0.5:
            gens.reverse()
    else:
        gens = [line(names[:1], size)]
    return gens, ex, kind


def speeds(points, names):
    """The fastest that each axis moves during points"""
    out = {}
    for n in names:
        lo, mid, up = (np.asarray(x[n]) for x in (points.lower, points.positions, points.upper))
        d = np.asarray(points.duration)
        out[n] = max(np.max(np.abs(4 * (mid - lo) / d - (up - lo) / d)), np.max(np.abs(4 * (up - mid) / d - (up - lo) / d)), np.max(np.abs(up - lo) / d), 0)
    return out


def make_scan(rng, motors, size, kinds=None, durations=None, mutate=True, continuous=None):
    """A generator that these motors can do"""
    names = [x.name for x in motors]
    rng.shuffle(names)
    by = {x.name: x for x in motors}
    gens, ex, kind = pick_generator(rng, names, size, kinds)
    muts = []
    if mutate and rng.random() < 0.25:
        muts.append(VaryDuration(rng.choice(["steps", "odd", "mix"])))
    cont = rng.random() < 0.9 if continuous is None else continuous
    delay = rng.choice([0, 0, 0, 0, 0.05, 0.5])
    g = CompoundGenerator(gens, ex, muts, 1.0, cont, delay)
    g.prepare()
    if g.size == 0:
        return make_scan(rng, motors, size, ["line"], durations, mutate)
    pts = g.get_points(0, g.size)
    axes = [a for a in g.axes if a in by]
    need = max([speeds(pts, axes)[a] / by[a].v for a in axes] or [0])
    d = max(need / rng.choice([0.95, 0.5, 0.1]), rng.choice(durations or [0.01, 0.1, 0.5, 1.0]))
    g = CompoundGenerator(gens, ex, muts, d, cont, delay)
    g.prepare()
    return g, kind


class Scan:
    """What the points of a part of a scan are"""

    def __init__(self, generator, start, end):
        p = generator.get_points(start, end)
        self.n = end - start
        self.axes = list(p.upper)
        self.lower = {a: np.asarray(p.lower[a], float) for a in self.axes}
        self.mid = {a: np.asarray(p.positions[a], float) for a in self.axes}
        self.upper = {a: np.asarray(p.upper[a], float) for a in self.axes}
        self.dur = np.asarray(p.duration, float) * np.ones(self.n)
        self.delay = np.asarray(p.delay_after, float) * np.ones(self.n)
        joined = self.delay[:-1] == 0
        for a in self.axes:
            joined = joined & (self.upper[a][:-1] == self.lower[a][1:])
        self.joined = joined
        cuts = [0] + list(np.nonzero(~joined)[0] + 1) + [self.n]
        self.rows = list(zip(cuts[:-1], cuts[1:]))

    def entry(self, a, i):
        return 4 * (self.mid[a][i] - self.lower[a][i]) / self.dur[i] - (self.upper[a][i] - self.lower[a][i]) / self.dur[i]

    def exit(self, a, i):
        return 4 * (self.upper[a][i] - self.mid[a][i]) / self.dur[i] - (self.upper[a][i] - self.lower[a][i]) / self.dur[i]


class Gap:
    """How each axis moved between two rows of a scan"""

    def __init__(self, times, moves):
        self.times, self.moves = times, moves  # times: s from the row end; moves: {axis: (positions, velocities)}

    def first(self, axis, after, when):
        """The first time from after at which when(position array) holds, sampled"""
        pos, vel = self.moves[axis]
        for k in range(1, len(self.times)):
            t0, t1 = self.times[k - 1], self.times[k]
            if t1 <= after:
                continue
            a = max(after, t0)
            ts = np.linspace(a, t1, 41)
            f = (ts - t0) / (t1 - t0)
            # Constant acceleration
            p = pos[k - 1] + vel[k - 1] * (ts - t0) + (vel[k] - vel[k - 1]) * f * (ts - t0) / 2
            hit = np.nonzero(when(p))[0]
            if len(hit):
                return ts[hit[0]], p[hit[0]]
        return None


LIVE, DEAD, MID, ZERO = 1, 2, 4, 8


def judge_trajectory(m, run, scan, motors, trigger, min_turnaround, what, axes_moved):
    """Does this profile do the scan? Returns the gaps between its rows"""
    by = {x.name: x for x in motors}
    axes = [a for a in scan.axes if a in axes_moved]
    letters = sorted(by[a].letter for a in axes)
    m.require(sorted(run["use"]) == letters, "axes", lambda: "%s: axes %s to move %s" % (what, run["use"], letters))
    T = np.cumsum(np.asarray(run["timeArray"], float))  # us
    progs = np.asarray(run["userPrograms"])
    modes = np.asarray(run["velocityMode"])
    pos = {a: np.asarray(run["positions" + by[a].letter], float) for a in axes}
    n = len(T)
    m.check(np.all(np.diff(np.concatenate([[0], T])) > 0), "times", lambda: "%s: times %s" % (what, run["timeArray"]))
    m.check(max(run["timeArray"]) <= 4000001, "times", lambda: "%s: a move of %s us" % (what, max(run["timeArray"])))
    ttol = 3.0 + len(run["chunks"])
    for a in axes:
        m.require(bool(np.all(np.isfinite(pos[a]))), "path", lambda: "%s: %s is sent to %s" % (what, a, [x for x in pos[a] if not np.isfinite(x)][:3]))
    size = {a: 1e-9 * max(1.0, float(np.max(np.abs(scan.upper[a])))) for a in axes}

    def at(j, which, i):
        return all(abs(pos[a][j] - which[a][i]) <= size[a] for a in axes)

    j = 0
    gaps, events = [], []
    # Run up
    m.require(at(0, scan.lower, 0), "start", lambda: "%s: starts at %s, not %s" % (what, {a: pos[a][0] for a in axes}, {a: scan.lower[a][0] for a in axes}))
    for a in axes:
        mot = by[a]
        d = abs(pos[a][0] - run["start"][mot.letter])
        m.check(
            d / (T[0] * 1e-6) <= mot.v * 1.001 + 1e-9, "run-up",
            lambda: "%s: %s from %s to %s in %s us, max velocity %s" % (what, a, run["start"][mot.letter], pos[a][0], T[0], mot.v),
        )
    settles = any(by[a].settle for a in axes)
    turn_min = max(0.002, (min_turnaround or (0, 0))[0])

    def row_end(j, i0, i1):
        want = T[j] + scan.dur[i0:i1].sum() * 1e6
        k = int(np.searchsorted(T, want - ttol))
        while k < n and T[k] <= want + ttol:
            if at(k, scan.upper, i1 - 1):
                return k
            k += 1
        return None

    for r, (i0, i1) in enumerate(scan.rows):
        k = row_end(j, i0, i1)
        m.require(
            k is not None, "row",
            lambda: "%s: row %d (points %d to %d) started at %.6f s, and is not at its end %s %.6f s later: %s"
            % (what, r, i0, i1, T[j] * 1e-6, {a: scan.upper[a][i1 - 1] for a in axes}, scan.dur[i0:i1].sum(), show(T, pos, progs, j)),
        )
        # All the points between
        nodes = np.empty(2 * (i1 - i0) + 1)
        ends = T[j] + np.cumsum(scan.dur[i0:i1]) * 1e6
        nodes[0] = T[j]
        nodes[2::2] = ends
        nodes[1::2] = ends - scan.dur[i0:i1] * 5e5
        for a in axes:
            want = np.empty(len(nodes))
            want[0] = scan.lower[a][i0]
            want[1::2] = scan.mid[a][i0:i1]
            want[2::2] = scan.upper[a][i0:i1]
            got = np.interp(nodes, T[j : k + 1], pos[a][j : k + 1])
            tol = 2 * ttol * 1e-6 * by[a].v + size[a]
            if trigger != "EVERY_POINT":
                # Where velocities hardly differ
                tol = tol + 2e-5 * abs(want - want[0]) + 1e-7 * (nodes - T[j]) * 1e-6
            bad = np.nonzero(np.abs(got - want) > tol)[0]
            m.count("positions_judged", len(nodes))
            m.check(
                len(bad) == 0, "path",
                lambda: "%s: %s is at %s not %s, %s of point %d of row %d (%d to %d): %s"
                % (what, a, got[bad[0]], want[bad[0]], ["upper", "centre"][bad[0] % 2], (bad[0] - 1) // 2 + i0, r, i0, i1, show(T, pos, progs, j)),
            )
        # What it says
        p = [(T[q], int(progs[q])) for q in range(j, k + 1) if progs[q]]
        if trigger == "EVERY_POINT":
            w = []
            for q in range(0, len(nodes)):
                w.append((nodes[q], MID if q % 2 else LIVE))
            w[-1] = (nodes[-1], DEAD)
        elif trigger == "ROW_GATE":
            w = [(nodes[0], LIVE), (nodes[-1], ZERO)]
        else:
            w = []
        good = [x[1] for x in p] == [x[1] for x in w] and all(abs(x[0] - y[0]) <= ttol for x, y in zip(p, w))
        m.check(good, "outputs", lambda: "%s: row %d (points %d to %d): outputs %s, want %s" % (what, r, i0, i1, p[:8], w[:8]))
        m.count("outputs_judged", len(w) or len(nodes))
        m.count("rows")
        for q in range(i0, i1):
            events.append(ends[q - i0])
        if i1 == scan.n:
            j = k
            break
        # The turnaround
        nxt = None
        q = k + 1
        while q < n:
            if at(q, scan.lower, i1) and (trigger == "NONE" or progs[q] == LIVE):
                if nxt is None:
                    nxt = q
                if row_end(q, i1, scan.rows[r + 1][1]) is not None:
                    nxt = q
                    break
            q += 1
            if q > k + 400:
                break
        m.require(
            nxt is not None, "turnaround",
            lambda: "%s: row %d (from point %d) never starts: at %s after row %d: %s" % (what, r + 1, i1, {a: scan.lower[a][i1] for a in axes}, r, show(T, pos, progs, k)),
        )
        between = [int(x) for x in progs[k + 1 : nxt]]
        okay = {0, ZERO} if trigger == "EVERY_POINT" else {0}
        m.check(set(between) <= okay, "outputs", lambda: "%s: outputs %s in the gap after row %d" % (what, between, r))
        took = (T[nxt] - T[k]) * 1e-6
        least = max(turn_min, scan.delay[i1 - 1])
        m.check(settles or took >= least - ttol * 1e-6, "turnaround", lambda: "%s: gap after row %d took %s, less than %s" % (what, r, took, least))
        times = (T[k : nxt + 1] - T[k]) * 1e-6
        moves = {}
        for a in axes:
            mot = by[a]
            ps = pos[a][k : nxt + 1]
            v = [scan.exit(a, i1 - 1)]
            for s in range(1, len(times)):
                dt = times[s] - times[s - 1]
                v.append(2 * (ps[s] - ps[s - 1]) / dt - v[-1])
            moves[a] = (ps, v)
            if len(axes) == 0 or max(np.diff(times)) > 1.9:
                continue  # may have been cut into pieces
            dts = np.diff(times)
            slack = np.cumsum(4e-6 * mot.v / dts)
            vmax = max(abs(x) for x in v)
            m.check(
                vmax <= mot.v * 1.002 + slack[-1], "velocity",
                lambda: "%s: %s reaches %s (max %s) in the gap after row %d: %s %s" % (what, a, vmax, mot.v, r, list(ps), list(times)),
            )
            acc = np.abs(np.diff(v)) / dts
            # Rounding times to an interval leaves kinks
            interval = (min_turnaround or (0, 0.002))[1]
            over = acc - (mot.a * (1.02 + 3 * interval) + 3 * slack / dts)
            m.check(
                settles or bool(np.all(over <= 0)), "acceleration",
                lambda: "%s: %s accelerates at %s (max %s) in the gap after row %d: %s %s" % (what, a, list(acc), mot.a, r, list(ps), list(times)),
            )
            want = scan.entry(a, i1)
            m.check(
                settles or abs(v[-1] - want) <= 0.01 * mot.v + mot.a * interval / 2 + 2 * slack[-1], "entry",
                lambda: "%s: %s enters row %d at velocity %s not %s: %s %s" % (what, a, r + 1, v[-1], want, list(ps), list(times)),
            )
            m.count("turnarounds_judged")
        gaps.append(Gap(times, moves))
        j = nxt
    # Slow down
    rest = [int(x) for x in progs[j + 1 :]]
    m.check(1 <= len(rest), "tail", lambda: "%s: no tail off" % what)
    if trigger == "EVERY_POINT":
        m.check(rest[-1:] == [ZERO] and set(rest) <= {0, ZERO}, "outputs", lambda: "%s: outputs %s at the end" % (what, rest))
    else:
        m.check(set(rest) <= {0}, "outputs", lambda: "%s: outputs %s at the end" % (what, rest))
    m.check(modes[-1] == 3, "tail", lambda: "%s: ends with velocity mode %s" % (what, modes[-1]))
    for a in axes:
        mot = by[a]
        d = abs(pos[a][-1] - pos[a][j])
        m.check(d / ((T[-1] - T[j]) * 1e-6) <= mot.v * 1.001 + 1e-9, "tail", lambda: "%s: %s tails off %s in %s us" % (what, a, d, T[-1] - T[j]))
        # It must go on for long enough to stop, and no further than it needs
        v = scan.exit(a, scan.n - 1)
        d = pos[a][-1] - pos[a][j]
        m.check(abs(d - v * abs(v) / mot.a / 2) <= abs(v) * 0.02 + size[a], "tail", lambda: "%s: %s tails off %s from velocity %s" % (what, a, d, v))
    return gaps, np.asarray(events), T


def show(T, pos, progs, j):
    return [
        "%.6f:%s%s" % (T[q] * 1e-6, ",".join("%.6g" % p[q] for p in pos.values()), "/%d" % progs[q] if progs[q] else "")
        for q in range(max(0, j - 1), min(len(T), j + 8))
    ]
