#!/opt/venv/bin/python
"""C31: what a PandA captures is described for the file as captured, and kinematics files join it to processing and back.

The real dataset busses of a PandA, in a real runnable controller with a writer that
makes the file as described; the real kinematics part in a scan over it; the files it
leaves are used as Savu would, and the results read back through what it reports."""
import filecmp
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vmon
import mh
import h5py
import manrig
import motionrig
import numpy as np
from manrig import ok
from motionrig import Bag, num, text
from annotypes import add_call_types
from malcolm.core import Part, Post, Process, TableMeta
from malcolm.modules import ADCore, builtin, scanning
from malcolm.modules.ADPandABlocks.parts import KinematicsSavuPart
from malcolm.modules.ADPandABlocks.parts.pandadatasetbussespart import PandADatasetBussesPart
from malcolm.modules.ADPandABlocks import parts as adparts
from malcolm.modules.builtin.util import LayoutTable
from malcolm.modules.scanning.infos import DatasetProducedInfo
from scanpointgenerator import CircularROI, CompoundGenerator, LineGenerator, ROIExcluder

LETTERS = list("ABCUVWXYZ")
CAPTURES = ["No", "Value", "Diff", "Sum", "Mean", "Min", "Max", "Min Max", "Min Max Mean"]
TYPES = ["detector", "monitor", "position"]
ENDING = {"detector": ("data", "primary"), "monitor": ("data", "monitor"), "position": ("value", "position_value")}
SHIPPED = os.path.join(os.path.dirname(adparts.__file__), "..", "kinematics")


class Box:
    """Stands for the PandA"""

    def __init__(self):
        self.sent = []

    def set_fields(self, fields):
        self.sent.append(dict(fields))

    def set_field(self, block, field, value):
        self.sent.append({"%s.%s" % (block, field): value})


class Writer(Part):
    """Gives each NDAttribute dataset a place in the file"""

    infos = ()

    def setup(self, registrar):
        super().setup(registrar)
        registrar.hook(scanning.hooks.ConfigureHook, self.on_configure)
        registrar.report(scanning.hooks.ConfigureHook.create_info(self.on_configure))

    @add_call_types
    def on_configure(
        self,
        part_info: scanning.hooks.APartInfo,
        generator: scanning.hooks.AGenerator,
        fileDir: scanning.hooks.AFileDir,
        formatName: scanning.hooks.AFormatName = "panda",
        fileTemplate: scanning.hooks.AFileTemplate = "%s.h5",
    ) -> scanning.hooks.UInfos:
        self.infos = ADCore.infos.NDAttributeDatasetInfo.filter_values(part_info)
        return [
            DatasetProducedInfo(i.name, fileTemplate % formatName, i.type, len(generator.shape) + 2, "/entry/%s/%s" % (i.name, i.name), "/entry/uid")
            for i in self.infos
        ]


class Panda:
    def __init__(self, m, rng, process, names=None):
        self.m, self.rng = m, rng
        self.names = names or ["INENC%d.VAL" % (i + 1) for i in range(rng.choice([1, 2, 4]))] + ["COUNTER1.OUT", "PGEN1.OUT"][: rng.randrange(3)]
        self.bit_names = ["TTLIN%d.VAL" % (i + 1) for i in range(rng.choice([0, 2, 5]))]
        self.box = Box()
        self.busses = PandADatasetBussesPart("busses", self.box)
        self.ctrl = scanning.controllers.RunnableController("PANDA", m.tmpdir())
        self.writer = Writer("HDF")
        for part in (self.busses, self.writer, scanning.parts.DatasetTablePart("DSET")):
            self.ctrl.add_part(part)
        process.add_controller(self.ctrl)
        self.rows = [dict(name=n, capture="No", scale=1.0, offset=0.0, units="", datasetName="", datasetType="position" if n.startswith("INENC") else "monitor") for n in self.names]
        self.bits = [dict(name=n, capture=False, datasetName="", datasetType="monitor") for n in self.bit_names]

    def begin(self, client):
        self.client = client
        half = len(self.bit_names) // 2
        self.busses.create_busses({"PCAP.BITS0": self.bit_names[:half] + [""], "PCAP.BITS1": self.bit_names[half:]}, list(self.names))

    def put(self):
        n = len(self.rows)
        if n:
            v = {k: [r[k] for r in self.rows] for k in self.rows[0]}
            v["value"] = [0.0] * n
            r = self.client.put(["PANDA", "positions", "value"], v)
            self.m.require(ok(r), "put", lambda: "putting positions gave %s" % r)
        if self.bits:
            v = {k: [r[k] for r in self.bits] for k in self.bits[0]}
            v["value"] = [False] * len(self.bits)
            r = self.client.put(["PANDA", "bits", "value"], v)
            self.m.require(ok(r), "put", lambda: "putting bits gave %s" % r)

    def expected(self):
        """(dataset, type, attribute) of what is captured"""
        want = []
        for b in self.bits:
            if b["capture"] and b["datasetName"]:
                end, t = ENDING[b["datasetType"]]
                want.append(("%s.%s" % (b["datasetName"], end), t, b["name"]))
        for p in self.rows:
            if p["capture"] == "No" or not p["datasetName"]:
                continue
            words = p["capture"].split()
            end, t = ENDING[p["datasetType"]]
            for w in words:
                attr = "%s.%s" % (p["name"], w)
                if len(words) > 1 and w in ("Min", "Max"):
                    want.append(("%s.%s" % (p["datasetName"], w.lower()), "position_" + w.lower(), attr))
                else:
                    want.append(("%s.%s" % (p["datasetName"], end), t, attr))
        return want


def simple(t):
    return getattr(t, "value", t)


def datasets(m, rng, idx):
    """Tables of a PandA, changed now and again, and what is reported for the file"""
    p = Process("panda")
    panda = Panda(m, rng, p)
    m.defer(mh.stop_process, p)
    manrig.start(p)
    client = manrig.Client(p)
    panda.begin(client)
    g = CompoundGenerator([LineGenerator("x", "mm", 0, 1, 3)], [], [], 0.1)
    for k in range(rng.choice([2, 4, 6])):
        for r in panda.rows:
            if rng.random() < 0.5:
                r["capture"] = rng.choice(CAPTURES)
            if rng.random() < 0.4:
                r["datasetName"] = rng.choice(["", r["name"].split(".")[0].lower(), "x-1", "I_0"])
            if rng.random() < 0.3:
                r["datasetType"] = rng.choice(TYPES)
            if rng.random() < 0.3:
                r["scale"], r["offset"], r["units"] = rng.choice([1.0, 0.5, -0.001]), rng.choice([0.0, 7.0]), rng.choice(["", "mm"])
        for b in panda.bits:
            if rng.random() < 0.4:
                b["capture"] = rng.random() < 0.6
            if rng.random() < 0.4:
                b["datasetName"] = rng.choice(["", b["name"].split(".")[0].lower()])
            if rng.random() < 0.3:
                b["datasetType"] = rng.choice(TYPES)
        panda.put()
        r = client.post(["PANDA", "configure"], generator=g, fileDir=m.tmpdir(), axesToMove=["x"])
        m.require(ok(r), "configure", lambda: "configure gave %s" % r)
        got = [(i.name, simple(i.type), i.attr) for i in panda.writer.infos]
        want = panda.expected()
        m.check(sorted(got) == sorted(want), "datasets", lambda: "reported %s, expected %s, with %s %s" % (sorted(set(got) - set(want)), sorted(set(want) - set(got)), panda.rows, panda.bits))
        rows = [(r[0], simple(r[2])) for r in panda.ctrl.block_view().datasets.value.rows()]
        m.check(sorted(rows) == sorted(x[:2] for x in want), "table", lambda: "table lists %s, expected %s" % (rows, want))
        m.count("reports")
        m.count("reported", len(want))
        m.distinct("report", tuple(sorted({x[1] for x in want})), len(want))
        r = client.post(["PANDA", "reset" if rng.random() < 0.5 else "abort"])
        if panda.ctrl.state.value == "Aborted":
            client.post(["PANDA", "reset"])


class Rig:
    def __init__(self, m, rng):
        self.m, self.rng = m, rng
        self.process = p = Process("kin")
        kinds = rng.choice(["raw", "compound", "both"])
        names = rng.sample(["x", "y", "z", "roll", "stage_x"], 3)
        n = rng.choice([1, 2, 3])
        letters = rng.sample(LETTERS, n)
        self.scanned = dict(zip(names, letters))  # scannable -> letter in CS
        self.raw = {}  # raw motor -> axis number
        self.motors = []

        def motor(name, cs, axis):
            bag = motionrig.Motor(rng, name, "A").bag()
            bag.attrs["cs"] = text(cs)
            if axis is None:
                del bag.attrs["axisNumber"]
            else:
                bag.attrs["axisNumber"] = num(axis, dtype="int32")
            self.motors.append((name, bag))

        self.port = rng.choice(["CS1", "BRICK1CS3"])
        numbers = rng.sample(range(1, 33), 6)
        for i, (name, letter) in enumerate(self.scanned.items()):
            if kinds == "raw" or (kinds == "both" and i == 0):
                self.raw[name] = numbers.pop()
                motor(name, "%s,%s" % (self.port, letter), self.raw[name])
            else:
                motor(name, "%s,%s" % (self.port, letter), None)
        if kinds != "raw":
            for leg in rng.sample(["leg1", "leg2", "jack"], rng.choice([1, 2, 3])):
                self.raw[leg] = numbers.pop()
                motor(leg, self.port + ",I", self.raw[leg])
        # Others nothing to do with it
        motor("other", "OTHERCS,X", numbers.pop())
        motor("loose", "", numbers.pop())
        rng.shuffle(self.motors)
        SC = builtin.controllers.StatefulController

        def leaf(mri, bag):
            c = SC(mri)
            c.add_part(bag)
            p.add_controller(c)

        layout = []
        for name, bag in self.motors:
            leaf("MOTOR:" + name, bag)
            layout.append([name, "MOTOR:" + name, 0.0, 0.0, True])
        self.status = Bag("hw").prepare({k + "Variables": text("") for k in "ipm"})
        self.cs = Bag("hw").prepare(dict(forwardKinematic=text(""), qVariables=text(""), port=text(self.port)))
        leaf("PMAC:STATUS", self.status)
        leaf("PMAC:CS7", self.cs)
        rng.shuffle(layout)
        leaf("PMAC", Bag("hw").prepare(dict(layout=(TableMeta.from_table(LayoutTable, "l"), LayoutTable.from_rows(layout), None))))
        leaf("KIN", Bag("hw").prepare(dict(panda=text("PANDA"), pmac=text("PMAC"))))
        self.panda = Panda(m, rng, p, ["INENC%d.VAL" % (i + 1) for i in range(4)] + ["COUNTER1.OUT", "COUNTER2.OUT"])
        self.scan = scanning.controllers.RunnableController("SCAN", m.tmpdir())
        self.scan.add_part(scanning.parts.DatasetTablePart("DSET"))
        self.scan.add_part(scanning.parts.DetectorChildPart(name="PANDA", mri="PANDA", initial_visibility=True))
        args = dict(cs_port=self.port) if rng.random() < 0.6 else {}
        self.scan.add_part(KinematicsSavuPart(name="KIN", mri="KIN", cs_mri_suffix="CS7", **args))
        p.add_controller(self.scan)
        m.defer(mh.stop_process, p)
        manrig.start(p)
        self.client = manrig.Client(p)
        self.panda.begin(self.client)
        r = self.client.put(["SCAN", "layout", "value"], LayoutTable.from_rows([["PANDA", "PANDA", 0, 0, True], ["KIN", "KIN", 0, 0, True]]).to_dict())
        m.require(ok(r), "layout", lambda: "showing the parts gave %s" % r)


def variables(rng, rig):
    """What the PMAC reports, and the value of each that is to be used"""
    said, want = {k: [] for k in "ipmq"}, {}
    for k in "ipmq":
        for n in rng.sample(range(1, 4000), rng.choice([0, 1, 3])):
            name = "%s%d" % (k.upper(), n)
            if rng.random() < 0.2:
                said[k].append(name + "=$1F0")
            else:
                v = rng.choice(["3", "-1.5", "0.25", "12345", "0"])
                said[k].append("%s=%s" % (name, v))
                want[name] = float(v)
    for name, axis in list(rig.raw.items()) + [("nobody", 40)]:
        for var, neutral, field in (("P48%02d", 1.0, "scale"), ("P49%02d", 0.0, "offset")):
            if rng.random() < 0.7:
                v = rng.choice([0.5, 2.0, -4.0])
                said["p"].append("%s=%s" % (var % axis, v))
                row = [r for r in rig.panda.rows if r["datasetName"] == name]
                # Applied only once
                want[var % axis] = neutral if row and row[0][field] != neutral else v
    return {k: rng.choice([" ", "  "]).join(v) + rng.choice(["", " "]) for k, v in said.items()}, want


def a_generator(rng, names):
    names = list(names)
    rng.shuffle(names)
    g = [LineGenerator(n, "mm", rng.choice([0.0, -2.0]), rng.choice([1.0, 5.0]), rng.choice([1, 2, 3, 4]), rng.random() < 0.4) for n in names]
    ex = []
    if len(names) == 2 and rng.random() < 0.3:
        g = [LineGenerator(n, "mm", 0, 4, 5) for n in names]
        ex = [ROIExcluder([CircularROI([2.0, 2.0], 1.2)], names)]
    g = CompoundGenerator(g, ex, [], duration=0.1)
    g.prepare()
    return g


def kinematics(m, rng, idx):
    """Scans whose axes are worked out from the encoders afterwards"""
    rig = Rig(m, rng)
    for k in range(rng.choice([1, 2, 3])):
        panda = rig.panda
        for r in panda.rows:
            r.update(capture="No", datasetName="", datasetType="position", scale=rng.choice([1.0, 1.0, 0.001]), offset=rng.choice([0.0, 0.0, 3.5]))
        spots = rng.sample(range(6), len(rig.raw))
        style = rng.choice(["all", "all", "mean", "mixed", "bad"])
        captures = {}
        for i, name in zip(spots, rig.raw):
            choices = {"all": ["Min Max Mean"], "mean": ["Mean", "Value"], "mixed": ["Min Max Mean", "Mean", "Value"], "bad": ["Min Max Mean", "Diff", "No", "Min Max", "Sum"]}[style]
            captures[name] = rng.choice(choices)
            panda.rows[i].update(capture=captures[name], datasetName=name)
        # Something else that is captured, with a name that starts the same
        free = [i for i in range(6) if i not in spots]
        if free and rng.random() < 0.5:
            panda.rows[free[0]].update(capture="Min Max Mean", datasetName=rng.choice(list(rig.raw)) + "2")
        panda.put()
        said, want = variables(rng, rig)
        for v in "ipm":
            rig.status.set(v + "Variables", said[v])
        rig.cs.set("qVariables", said["q"])
        code = rng.choice(["Q1=P1+10 Q5=Q22+4 RET", "Q1=(P1+P2)/2\nQ2=P1-P2\nIF (Q1>5)\nQ3=1\nENDIF\nRETURN", "RET", "Q7=P3*P4803+P4903\n\nRET\n"])
        rig.cs.set("forwardKinematic", code)
        axes = rng.sample(sorted(rig.scanned), rng.randrange(1, len(rig.scanned) + 1))
        g = a_generator(rng, axes)
        where = m.tmpdir()
        template = rng.choice(["%s.h5", "p45-12-%s.nxs", "run.1-%s.h5"])
        r = rig.client.post(["SCAN", "configure"], generator=g, fileDir=where, axesToMove=axes, fileTemplate=template)
        bad = [n for n, c in captures.items() if c not in ("Min Max Mean", "Mean", "Value")]
        what = "raw motors %s captured %s, axes %s" % (rig.raw, captures, axes)
        if bad:
            m.check(not ok(r), "accepted", "%s: accepted, though %s can't be used" % (what, bad))
            m.count("refused")
        else:
            m.require(ok(r), "refused", lambda: "%s in %s: refused with %s" % (what, [(x["name"], x["datasetName"]) for x in panda.rows], r))
            judge(m, rng, rig, g, where, template, axes, captures, code, want, what)
        st = rig.scan.state.value
        if st == "Armed":
            rig.client.post(["SCAN", "abort"])
        r = rig.client.post(["SCAN", "reset"])
        m.require(ok(r), "reset", lambda: "reset gave %s" % r)


def judge(m, rng, rig, g, where, template, axes, captures, code, want, what):
    minmax = all(c == "Min Max Mean" for c in captures.values())
    base = os.path.splitext(template)[0]
    rows = [list(r) for r in rig.scan.block_view().datasets.value.rows()]
    # The PandA writes its file
    source = {}
    for name, filename, t, rank, path, uid in rows:
        if path.startswith("/entry/") and filename == template % "PANDA":
            with h5py.File(os.path.join(where, filename), "a") as f:
                source[name] = np.array([rng.random() for _ in range(g.size)])
                f[path] = source[name]
    # Savu reads what it is to process
    words = ["mean", "min", "max"] if minmax else ["mean"]
    with h5py.File(os.path.join(where, base % "savu" + ".nxs"), "r") as f:
        i = f["/entry/inputs"]
        for name, axis in rig.raw.items():
            for w in words:
                key = "p%d%s" % (axis, w)
                full = "%s.%s" % (name, {"mean": "value"}.get(w, w))
                m.check(key in i and full in source and np.array_equal(i[key][()], source[full]), "inputs", lambda: "%s: %s does not lead to %s" % (what, key, full))
                m.count("inputs")
        extra = {k for k in i if k.startswith("p") and k[1:2].isdigit()} - {"p%d%s" % (a, w) for a in rig.raw.values() for w in ("mean", "min", "max")}
        m.check(not extra, "inputs", lambda: "%s: inputs %s from nowhere" % (what, extra))
        m.check(bool(i["use_minmax"][0]) == minmax, "minmax", lambda: "%s: use_minmax is %s" % (what, i["use_minmax"][()]))
        lines = [x.decode() if isinstance(x, bytes) else x for x in i["program"][()]]
        m.check(lines == code.splitlines(), "program", lambda: "program %s is not %r" % (lines, code))
        got = {(x[0].decode() if isinstance(x[0], bytes) else x[0]): float(x[1]) for x in i["variables"][()]}
        m.check(got == want, "variables", lambda: "%s: variables %s, expected %s with %s" % (what, sorted(set(got.items()) - set(want.items())), sorted(set(want.items()) - set(got.items())), rig.panda.rows))
        m.count("variables", len(want))
    shipped = os.path.join(SHIPPED, "min_mean_max.nxs" if minmax else "only_mean.nxs")
    m.check(filecmp.cmp(shipped, os.path.join(where, base % "savu_pl" + ".nxs"), shallow=False), "process-list", "%s: not the right process list" % what)
    # It leaves its results
    out = os.path.join(where, base % "savuproc")
    os.mkdir(out)
    results = {}
    with h5py.File(os.path.join(out, base % "savu_processed" + ".nxs"), "w") as f:
        for w in words:
            results[w] = np.array([rng.random() for _ in range(9 * g.size)]).reshape((9,) + g.shape)
            f["/entry/final_result_q%s/data" % w] = results[w]
    # And they are found where they are said to be
    mine = {r[0]: r for r in rows if r[1] == base % "kinematics-vds" + ".nxs"}
    wanted = {"%s.%s" % (a, w): (a, w) for a in axes for w in words}
    m.check(set(mine) == set(wanted), "datasets", lambda: "%s: %s reported, expected %s" % (what, sorted(mine), sorted(wanted)))
    with h5py.File(os.path.join(where, base % "kinematics-vds" + ".nxs"), "r") as f:
        for name, (a, w) in wanted.items():
            if name not in mine:
                continue
            _, _, t, rank, path, uid = mine[name]
            m.check(simple(t) == {"mean": "position_value", "min": "position_min", "max": "position_max"}[w], "type", lambda: "%s has type %s" % (name, t))
            there = path in f
            m.check(there, "results", lambda: "%s: nothing at %s" % (what, path))
            if there:
                d = f[path]
                m.check(d.ndim == rank, "rank", lambda: "%s: %s has rank %d, said to be %d" % (what, name, d.ndim, rank))
                row = results[w][LETTERS.index(rig.scanned[a])]
                m.check(d.shape == row.shape and np.array_equal(d[()], row), "results", lambda: "%s: %s does not show Q%d" % (what, name, LETTERS.index(rig.scanned[a]) + 1))
                m.count("results")
        # Those of the CS that aren't scanned, under their number
        rest = [q for q in range(9) if LETTERS[q] not in {rig.scanned[a] for a in axes}]
        for q in rest:
            for w in words:
                path = "/entry/rawQ%02d.%s" % (q + 1, w)
                m.check(path in f and np.array_equal(f[path][()], results[w][q]), "raw-results", lambda: "%s: %s is not Q%d" % (what, path, q + 1))
        for d in g.dimensions:
            for a in d.axes:
                path = "/entry/%s_set/%s.value_set" % (a, a)
                m.check(path in f and np.allclose(f[path][()], d.get_positions(a)), "setpoints", lambda: "%s: setpoints of %s" % (what, a))
    m.count("scans")
    m.distinct("scan", len(axes), len(rig.raw), tuple(sorted(set(captures.values()))), g.shape)


check = vmon.Check(
    "C31",
    [
        vmon.Scenario("datasets", datasets, quick=200, thorough=5000, timeout=60),
        vmon.Scenario("kinematics", kinematics, quick=250, thorough=6000, timeout=60),
    ],
    rule="Distinct sets of datasets reported, and scans by axes, motors, captures and shape",
    required=["reports", "reported", "scans", "inputs", "results", "variables", "refused"],
    level="exploration",
)
if __name__ == "__main__":
    check.main()
