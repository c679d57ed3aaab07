#!/opt/venv/bin/python
"""C28: the scan runner does every scan of its file, once, in order, and reports what became of it.

The real ScanRunnerPart in a real manager, driving a real RunnableController whose
part does what was planned for that scan: succeed, refuse, fail, take its time, or
get aborted by someone else; and the runner itself aborted at any moment."""
import copy
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vmon
import mh
import cothread
import manrig
from manrig import ok
from annotypes import add_call_types
from malcolm.core import AbortedError, Context, NotWriteableError, Part, Post, Process, Put, TimeoutError
from malcolm.modules import builtin, scanning
from ruamel.yaml import YAML
from scanpointgenerator import CompoundGenerator, LineGenerator

CONFIGURE = {"refuse": AssertionError("not like that"), "refuse2": ValueError("no"), "refuse3": RuntimeError("cannot")}
RUN = {
    "fail": (AssertionError("it broke"), "Fail"),
    "timeout": (TimeoutError("took too long"), "Timeout"),
    "notwriteable": (NotWriteableError("not now"), "Notwriteable"),
    "other": (ValueError("what"), "Other"),
    "other2": (KeyError("where"), "Other"),
}
PLANS = ["ok"] * 6 + list(CONFIGURE) + list(RUN) + ["aborted", "aborted"]


class Worker(Part):
    """Does what was planned for each scan in turn"""

    def prepare(self, rig):
        self.rig = rig
        return self

    def setup(self, registrar):
        super().setup(registrar)
        h = scanning.hooks
        registrar.report(h.ConfigureHook.create_info(self.configure))
        registrar.hook(h.ConfigureHook, self.configure)
        registrar.hook(h.RunHook, self.run)
        registrar.hook(h.AbortHook, self.abort)

    @add_call_types
    def configure(self, context: scanning.hooks.AContext, generator: scanning.hooks.AGenerator, fileDir: scanning.hooks.AFileDir) -> None:
        r = self.rig
        plan = r.plan()
        r.scans.append(dict(dir=fileDir, generator=generator.to_dict(), exists=os.path.isdir(fileDir), files=os.listdir(fileDir) if os.path.isdir(fileDir) else None, counts=r.counts(), set=r.value("currentScanSet"), state=r.value("runnerState")))
        r.event("configure")
        self.wait(context)
        if plan in CONFIGURE:
            raise CONFIGURE[plan]

    @add_call_types
    def run(self, context: scanning.hooks.AContext) -> None:
        r = self.rig
        plan = r.plan(len(r.scans) - 1)
        r.event("run")
        self.wait(context)
        if plan in RUN:
            raise RUN[plan][0]
        if plan == "aborted":
            r.client.send(Post(r.client.id(), ["SCAN", "abort"], {}))
            context.sleep(5)
        r.scans[-1]["ran"] = True
        r.event("ran")

    @add_call_types
    def abort(self) -> None:
        r = self.rig
        r.event("abort")
        for _ in range(r.rng.choice([0, 0, 1, 5, 30])):
            cothread.Yield()
        if r.rng.random() < 0.2:
            cothread.Sleep(r.rng.choice([0.15, 0.35]))
        r.event("aborted")

    def wait(self, context):
        for _ in range(self.rig.rng.choice([0, 1, 2, 5])):
            self.rig.event("step")
            context.sleep(0)


class Rig:
    def __init__(self, m, rng):
        self.m, self.rng = m, rng
        self.scans, self.plans, self.events, self.aborted_at = [], [], 0, None
        self.on_event = self.path = None
        self.process = p = Process("runner")
        self.scan = scanning.controllers.RunnableController("SCAN", m.tmpdir())
        self.scan.add_part(Worker("WORKER").prepare(self))
        p.add_controller(self.scan)
        self.runner = builtin.controllers.ManagerController("RUNNER", m.tmpdir())
        self.runner.add_part(scanning.parts.ScanRunnerPart("RUN", "SCAN"))
        p.add_controller(self.runner)
        m.defer(mh.stop_process, p)
        manrig.start(p)
        self.client = manrig.Client(p)

    def plan(self, i=None):
        i = len(self.scans) if i is None else i
        return self.plans[i] if i < len(self.plans) else "ok"

    def event(self, what):
        self.events += 1
        if self.on_event:
            self.on_event(what)

    def value(self, name):
        return self.runner.block_view()[name].value

    def counts(self):
        return tuple(self.value(x) for x in ("scansCompleted", "scanSuccesses", "scanFailures"))

    def call(self, name, seconds=20):
        box = self.client.send(Post(self.client.id(), ["RUNNER", name], {}))
        return self.wait(box, seconds)

    def wait(self, box, seconds=20):
        for _ in range(int(seconds / 0.002)):
            if box:
                return box[0]
            cothread.Sleep(0.002)
        return None

    def put(self, name, value):
        r = self.client.put(["RUNNER", name, "value"], value)
        self.m.require(ok(r), "put", "putting %r to %s gave %s" % (value, name, r))

    def load(self, text):
        path = self.path
        if path is None or self.rng.random() < 0.5:
            path = self.path = os.path.join(self.m.tmpdir(), "scans.yaml")
        with open(path, "w") as f:
            f.write(text) if isinstance(text, str) else YAML().dump(text, f)
        self.put("scanFile", path)
        return self.call("loadFile")


def a_line(rng, axis):
    d = dict(axes=axis, units="mm", start=rng.choice([0.0, 1.5, -3.0]), stop=rng.choice([10.0, 2.25]), size=rng.choice([1, 2, 3, 7]))
    if rng.random() < 0.3:
        d["alternate"] = rng.random() < 0.7
    if rng.random() < 0.3:
        d["axes"], d["units"], d["start"], d["stop"] = [axis], ["mm"], [d["start"]], [d["stop"]]
    return d


def a_file(rng, least=0):
    """Contents of a file, and what should come of it: [(set, number, generator)]"""
    doc, scans = [], []
    names = ["a", "fine", "coarse_2", "B", "long name with spaces that goes on and on", "x-1"]
    rng.shuffle(names)
    for name in names[: rng.randrange(1, 5)]:
        lines = [a_line(rng, a) for a in rng.sample(["x", "y", "z"], rng.choice([1, 1, 2, 3]))]
        gen = dict(duration=rng.choice([0.1, 0.5, 2.0]), generators=[dict(line=x) for x in lines])
        if rng.random() < 0.3:
            gen["continuous"] = rng.random() < 0.5
        if rng.random() < 0.3:
            gen["delay_after"] = 0.25
        entry = dict(name=name, generator=gen)
        repeats = rng.choice([None, 1, 2, 2, 3, 0])
        if repeats is not None:
            entry["repeats"] = repeats
        doc.append(dict(scan=entry))
    scans = scans_of(doc)
    if len(scans) < least:
        return a_file(rng, least)
    return doc, scans


def scans_of(doc):
    scans = []
    for entry in (x["scan"] for x in doc):
        gen = entry["generator"]
        extra = {k: v for k, v in gen.items() if k != "generators"}
        want = CompoundGenerator([LineGenerator(**x["line"]) for x in gen["generators"]], [], [], **extra).to_dict()
        for i in range(entry.get("repeats", 1)):
            scans.append((entry["name"], i + 1, want))
    return scans


def edited(rng, doc):
    """A small change"""
    doc = copy.deepcopy(doc)
    entry = rng.choice(doc)["scan"]
    if rng.random() < 0.6:
        rng.choice(entry["generator"]["generators"])["line"]["size"] = rng.choice([4, 5, 6])
    elif rng.random() < 0.5:
        entry["generator"]["duration"] = 0.3
    else:
        entry["repeats"] = rng.choice([1, 2, 3])
    return doc, scans_of(doc)


def expected(plan):
    if plan in CONFIGURE:
        return "Misconfigured"
    if plan in RUN:
        return RUN[plan][1]
    return {"ok": "Success", "aborted": "Aborted"}[plan]


def report(rig, out):
    """The lines of the report"""
    dirs = os.listdir(out)
    rig.m.check(len(dirs) == 1, "directories", "directories %s made for one run" % dirs)
    path = os.path.join(out, dirs[0], "report.txt") if dirs else ""
    return open(path).read().splitlines() if os.path.exists(path) else []


def judge(m, rig, scans, out, upto=None):
    """What was done against what was asked for"""
    got = rig.scans
    n = len(scans) if upto is None else upto
    m.check(len(got) == n, "scans", lambda: "%d scans were done of %d" % (len(got), n))
    good = 0
    for i, (g, (name, number, gen)) in enumerate(zip(got, scans)):
        m.check(g["generator"] == gen, "generator", lambda: "scan %d was done with %s, expected %s" % (i, g["generator"], gen))
        parts = g["dir"].split("/")
        m.check(g["dir"].startswith(out.rstrip("/") + "/") and parts[-2:] == ["scanset-" + name, "scan-%d" % number], "directories", lambda: "scan %d of %s was to go to %s" % (number, name, g["dir"]))
        m.check(g["exists"] and not g["files"], "directories", lambda: "%s was there: %s, with %s" % (g["dir"], g["exists"], g["files"]))
        # One that is aborted as it is being started may have been counted before it gets going
        early = upto is not None and i == upto - 1 and g["counts"] == (i + 1, good, i + 1 - good)
        m.check(early or g["counts"] == (i, good, i - good), "counts", lambda: "scan %d started with counts %s, expected %s" % (i, g["counts"], (i, good, i - good)))
        m.check(early or (g["set"] == name and g["state"] == "Running"), "status", lambda: "scan %d of %s ran with state %s, set %r" % (i, name, g["state"], g["set"]))
        good += rig.plan(i) == "ok"
        m.count("scans")
    m.check(len({g["dir"] for g in got}) == len(got), "directories", "scans share a directory: %s" % sorted(g["dir"] for g in got))


def sets(m, rng, idx):
    """Whole files, some of whose scans go wrong, several times over"""
    rig = Rig(m, rng)
    for k in range(rng.choice([1, 2, 3])):
        doc, scans = edited(rng, doc) if k and rng.random() < 0.5 else a_file(rng)
        r = rig.load(doc)
        m.check(ok(r), "load", lambda: "loading gave %s" % r)
        m.check(rig.value("scansConfigured") == len(scans), "counts", lambda: "%s scans configured, expected %d" % (rig.value("scansConfigured"), len(scans)))
        m.check(rig.value("runnerState") == "Configured", "status", lambda: "%s after load" % rig.value("runnerState"))
        for j in range(rng.choice([1, 1, 2])):
            out = m.tmpdir()
            rig.put("outputDirectory", out + rng.choice(["", "/"]))
            rig.scans = []
            calm = rng.random() < 0.3
            rig.plans = ["ok" if calm else rng.choice(PLANS) for _ in scans]
            r = rig.call("run")
            m.check(ok(r), "run", lambda: "run with plans %s gave %s after %d scans" % (rig.plans, r, len(rig.scans)))
            judge(m, rig, scans, out)
            good = rig.plans.count("ok")
            want = (len(scans), good, len(scans) - good)
            m.check(rig.counts() == want, "counts", lambda: "counts %s at the end, expected %s" % (rig.counts(), want))
            st = (rig.value("runnerState"), rig.value("currentScanSet"))
            m.check(st == ("Finished", ""), "status", lambda: "%s at the end" % (st,))
            lines = report(rig, out)
            m.check(len(lines) == len(scans), "report", lambda: "%d lines reported for %d scans" % (len(lines), len(scans)))
            for line, (name, number, _), plan in zip(lines, scans, rig.plans):
                words = line[len(name) :].split() if line.startswith(name) else []
                m.check(words[:2] == [str(number), expected(plan)], "report", lambda: "scan %d of %s (%s) was reported as %r" % (number, name, plan, line))
                m.count("outcomes_" + expected(plan))
            m.count("runs")
            m.distinct("sets", len(scans), tuple(sorted(set(rig.plans))))


def aborts(m, rng, idx):
    """The runner aborted after the n-th event, then used again"""
    rig = Rig(m, rng)
    for k in range(rng.choice([1, 2])):
        doc, scans = a_file(rng, 2)
        m.require(ok(rig.load(doc)), "load", "could not be loaded")
        out = m.tmpdir()
        rig.put("outputDirectory", out)
        rig.scans, rig.plans, rig.events = [], [rng.choice(["ok", "ok", "ok", "refuse", "fail", "aborted"]) for _ in scans], 0
        at = rng.randrange(1, 20)
        state = {}
        lag = rng.choice([0, 0, 1, 2, 3, 5, 8])

        def on_event(what):
            if rig.events >= at and not state:
                state.update(what=what, scan=len(rig.scans))

                def go():
                    mh.yields(lag)
                    # Not the run after this one
                    if not box and rig.value("runnerState") == "Running":
                        state["sent"] = True
                        state["box"] = rig.client.send(Post(rig.client.id(), ["RUNNER", "abort"], {}))

                cothread.Spawn(go)

        rig.on_event = on_event
        # Counts are judged by what had been done when the abort was answered
        box = []
        box = rig.client.send(Post(rig.client.id(), ["RUNNER", "run"], {}))
        for _ in range(10000):
            if state.get("box") is not None or (box and not state.get("sent")):
                break
            cothread.Sleep(0.001)
        if state.get("box") is not None:
            r = rig.wait(state["box"])
            when = len(rig.scans)
            what = "aborted after event %d (%s) of scan %d of %d, %s" % (at, state["what"], state["scan"], len(scans), rig.plans)
            m.check(r is not None, "abort", "%s: abort never answered" % what)
            if ok(r):
                st = rig.value("runnerState")
                m.check(st in ("Aborted", "Finished"), "abort", lambda: "%s: %s once answered" % (what, st))
                rig.wait(box, 10)
                m.check(box, "abort", "%s: run never ended" % what)
                cothread.Sleep(0.02)
                m.check(len(rig.scans) == when, "after-abort", lambda: "%s: %d more scans were started" % (what, len(rig.scans) - when))
                st = rig.value("runnerState")
                if when < len(scans):
                    m.check(st == "Aborted", "abort", lambda: "%s: %s in the end" % (what, st))
                    m.check(not ok(box[0]), "abort", lambda: "%s: run said all was well" % what)
                m.count("aborts")
                m.distinct("abort", state["what"], min(lag, 3))
            else:
                # The scan block couldn't be aborted just then
                m.count("aborts_refused")
                rig.wait(box, 20)
        else:
            rig.wait(box, 20)
        rig.on_event = None
        judge_prefix(m, rig, scans, out)
        # Everything can be done again
        for _ in range(1000):
            if rig.scan.state.value not in ("Aborting", "Resetting"):
                break
            cothread.Sleep(0.002)
        out = m.tmpdir()
        rig.put("outputDirectory", out)
        rig.scans, rig.plans = [], ["ok"] * len(scans)
        r = rig.call("run")
        m.check(ok(r) and rig.counts() == (len(scans), len(scans), 0), "recover", lambda: "run after an abort gave %s, counts %s of %d" % (r, rig.counts(), len(scans)))
        judge(m, rig, scans, out)
        m.count("recoveries")


def judge_prefix(m, rig, scans, out):
    judge(m, rig, scans, out, len(rig.scans))


BROKEN = [
    "- scan: [",
    "- scann:\n    name: a\n",
    "- scan:\n    name: a\n    generator: {duration: 1.0}\n",
    "- scan:\n    generator: {duration: 1.0, generators: [{line: {axes: x, units: mm, start: 0, stop: 1, size: 3}}]}\n",
    "- scan:\n    name: a\n    generator: {generators: [{line: {axes: x, units: mm, start: 0, stop: 1, size: 3}}]}\n",
    "- scan:\n    name: a\n    generator: {duration: -2.0, generators: [{line: {axes: x, units: mm, start: 0, stop: 1, size: 3}}]}\n",
    "- scan:\n    name: a\n    generator: {duration: 1.0, generators: [{line: {axes: x, units: mm, start: 0, stop: 1, size: 3, colour: red}}]}\n",
    "- scan:\n    name: a\n    generator: {duration: 1.0, generators: [{spiral: {axes: x}}]}\n",
    "{{{",
]


def refusals(m, rng, idx):
    """What can't be loaded or run is refused, and does nothing"""
    rig = Rig(m, rng)
    r = rig.call("run")
    m.check(not ok(r) and not rig.scans, "refuse", "ran with nothing loaded")
    if rng.random() < 0.5:
        doc, scans = a_file(rng)
        rig.load(doc)
    for _ in range(3):
        if rng.random() < 0.2:
            rig.put("scanFile", "/nonexistent/nowhere.yaml")
            r = rig.call("loadFile")
            bad = "missing file"
        else:
            bad = rng.choice(BROKEN)
            r = rig.load(bad)
        m.check(r is not None and not ok(r), "refuse", "%r was loaded" % bad)
        m.check(rig.value("runnerState") != "Configured", "refuse", "%s after %r could not be loaded" % (rig.value("runnerState"), bad))
        m.check(not rig.scans, "refuse", "scans were run by loading")
        m.count("refused")
        m.distinct("refused", bad[:30])
    doc, scans = a_file(rng, 1)
    m.check(ok(rig.load(doc)), "load", "a good file could not be loaded after a bad one")
    rig.put("outputDirectory", "/nonexistent/nowhere")
    r = rig.call("run")
    m.check(not ok(r) and not rig.scans and rig.value("runnerState") == "Fault", "refuse", lambda: "run to a directory that can't be made gave %s in %s" % (r, rig.value("runnerState")))
    out = m.tmpdir()
    rig.put("outputDirectory", out)
    r = rig.call("run")
    m.check(ok(r), "run", lambda: "run after those gave %s" % r)
    judge(m, rig, scans, out)


check = vmon.Check(
    "C28",
    [
        vmon.Scenario("sets", sets, quick=120, thorough=4000, timeout=90),
        vmon.Scenario("aborts", aborts, quick=260, thorough=8000, timeout=90),
        vmon.Scenario("refusals", refusals, quick=40, thorough=800, timeout=60),
    ],
    rule="Distinct numbers of scans with the ways they went wrong, moments of abort, and files refused",
    required=["scans", "runs", "aborts", "recoveries", "refused"] + ["outcomes_" + x for x in ("Success", "Misconfigured", "Fail", "Timeout", "Notwriteable", "Other", "Aborted")],
    level="exploration",
)
if __name__ == "__main__":
    check.main()
