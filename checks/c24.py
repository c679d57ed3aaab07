"""C24: validation tweaks settle on parameters every part accepts."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vmon  # noqa

import manrig  # noqa
import mh  # noqa
import scanrig  # noqa
from malcolm.core import NumberMeta, Part, Process, StringMeta  # noqa
from malcolm.modules.scanning.controllers import RunnableController  # noqa
from malcolm.modules.scanning.hooks import (  # noqa
    AFileDir, AFileTemplate, AFormatName, ConfigureHook, ReportStatusHook,
)
from malcolm.modules.scanning.infos import (  # noqa
    ConfigureParamsInfo, DetectorMutiframeInfo, ParameterTweakInfo,
)
from malcolm.modules.scanning.parts import (  # noqa
    DatasetTablePart, DetectorChildPart, ExposureDeadtimePart,
)
from annotypes import add_call_types  # noqa
from malcolm.modules.scanning.util import DetectorTable  # noqa
from manrig import Client, ok  # noqa
from scanpointgenerator import CompoundGenerator, LineGenerator  # noqa
from scanrig import Boom, Rig, gen_scan  # noqa

TOL = 1e-9


def tweaks(m, rng, idx):
    rig = Rig(m, rng)
    names = ["a%d" % i for i in range(rng.randrange(1, 5))]
    defaults = {n: rng.randrange(0, 20) for n in names}
    required = {n for n in names if rng.random() < 0.15}
    nparts = rng.randrange(1, 4)
    rules = {}  # part -> [(param, kind, number)]
    for i in range(nparts):
        p = rig.add_part(
            "p%d" % i,
            ["Validate", "Configure", "ReportStatus"],
            {"Validate": ["context", "part_info", "generator"] + names,
             "Configure": ["context", "generator"] + names},
        )
        rules[p.name] = []
        for _ in range(rng.randrange(0, 3)):
            kind = rng.choice(["min", "max", "mult", "above", "duration", "never", "flip"])
            if kind in ("never", "flip") and rng.random() < 0.8:
                kind = "min"
            rules[p.name].append(
                (rng.choice(names), kind, rng.choice([2, 3, 4, 7, 11]), rng.choice(names))
            )
    reported = {}

    def part_setup(part, registrar):
        i = int(part.name[1:])
        mine = {n for j, n in enumerate(names) if j % nparts == i}
        registrar.report(
            ConfigureParamsInfo(
                {n: NumberMeta("int32", n, writeable=True) for n in mine},
                sorted(mine & required),
                {n: defaults[n] for n in mine - required},
            )
        )

    rig.part_setup_fn = part_setup

    def wanted(rule, kw):
        """None if happy, or (param, value)"""
        param, kind, k, other = rule
        v = int(kw[param])
        if kind == "min" and v < k:
            return param, k
        if kind == "max" and v > k + 30:
            return param, k + 30
        if kind == "mult" and v % k:
            return param, v + k - v % k
        if kind == "above" and other != param and v <= int(kw[other]):
            return param, int(kw[other]) + 1
        if kind == "duration" and kw["generator"].duration < k / 10.0:
            g = CompoundGenerator.from_dict(kw["generator"].to_dict())
            g.duration = k / 10.0
            return "generator", g
        if kind == "never" and v == k:
            raise Boom("%s can't be %d" % (param, k))
        if kind == "flip" and v % 2 == 0:
            return param, v + 2
        return None

    rounds = [0]
    state = dict(tweaked={}, seen=[], booms=[])

    def planner(part, hook, kw, context):
        plan = dict(steps=rng.choice([0, 0, 1]))
        if hook == "Validate":
            def run():
                out = []
                for rule in rules[part.name]:
                    try:
                        w = wanted(rule, kw)
                    except Boom as e:
                        state["booms"].append(str(e))
                        raise
                    if w:
                        value = w[1]
                        state["tweaked"].setdefault(w[0], []).append(mh.norm(value))
                        if w[0] != "generator" and rng.random() < 0.2:
                            value = str(value)  # gets converted
                        out.append(ParameterTweakInfo(w[0], value))
                state["seen"].append((part.name, bool(out)))
                plan["ret"] = out or None

            plan["last"] = run
        return plan

    rig.planner = planner
    rig.start()

    def call(method, args):
        state.update(tweaked={}, seen=[], booms=[])
        return rig.do(method, **args)

    def accepts(params):
        for part in rules:
            for rule in rules[part]:
                try:
                    if wanted(rule, params):
                        return part, rule
                except Boom:
                    return part, rule
        return None

    for _ in range(3):
        gen, _ = gen_scan(rng, maxdims=2, maxsize=3)
        g = dict(gen.to_dict())
        g["duration"] = rng.choice([0.0, 0.05, 0.3, 5.0])
        args = dict(generator=g)
        for n in names:
            if rng.random() < 0.6 or n in required and rng.random() < 0.9:
                args[n] = rng.randrange(0, 45)
        missing = required - set(args)
        given = {n: args.get(n, defaults[n]) for n in names if n not in missing}
        a = call("validate", args)
        m.require(a.done, "hang", "validate")
        if missing:
            m.check(not a.ok, "missing-accepted", lambda: "%s" % missing)
            m.count("missing")
            continue
        m.count("validates")
        nrounds = sum(1 for p, _ in state["seen"] if p == rig.parts[0].name)
        m.distinct("tweaks", tuple(sorted((p, tuple(r)) for p, r in rules.items()))[:2], a.ok, nrounds)
        if a.ok:
            v = a.response.value
            params = {k: v[k] for k in v}
            bad = accepts(params)
            m.check(
                bad is None,
                "not-accepted",
                lambda: "%s would still change %s" % (bad, mh.norm(params)),
            )
            for n in names:
                if n in state["tweaked"]:
                    m.count("tweaked")
                    m.check(
                        int(params[n]) in state["tweaked"][n],
                        "odd-value",
                        lambda: "%s=%s, asked for %s" % (n, params[n], state["tweaked"][n]),
                    )
                else:
                    m.check(
                        int(params[n]) == given[n],
                        "untouched-changed",
                        lambda: "%s given %s got %s" % (n, given[n], params[n]),
                    )
            gd = mh.norm(params["generator"])
            if "generator" in state["tweaked"]:
                m.count("generator_tweaked")
                gd["duration"] = g["duration"]
            else:
                m.check(gd["duration"] == g["duration"], "untouched-changed", "duration")
            m.check(gd == mh.norm(g), "generator-changed", lambda: "%s -> %s" % (g, gd))
            # Asking again changes nothing
            again = call("validate", params)
            m.check(
                again.ok and mh.norm(again.response.value) == mh.norm(v),
                "not-fixpoint",
                lambda: "%s then %s %s"
                % (mh.norm(v), again.message, mh.norm(getattr(again.response, "value", None))),
            )
            # And configure gives the parts exactly those
            if rig.state == "Ready":
                lo = len(rig.events)
                c = call("configure", args)
                m.check(c.ok, "configure-refused", lambda: "%s" % c.message)
                for e in rig.events[lo:]:
                    if e["kind"] == "start" and e["hook"] == "Configure":
                        m.count("configured_with")
                        for n in names:
                            m.check(
                                int(e["args"][n]) == int(params[n]),
                                "configured-differently",
                                lambda: "%s validated %s configured %s"
                                % (n, params[n], e["args"][n]),
                            )
                        m.check(
                            e["args"]["generator"].duration == params["generator"].duration,
                            "configured-differently",
                            "duration",
                        )
                rig.do("reset")
        else:
            m.count("refused")
            if state["booms"]:
                m.check(
                    any(b in a.message for b in state["booms"]),
                    "reason",
                    lambda: "%s said %s" % (state["booms"], a.message),
                )
            else:
                # Never settled: someone wanted a change in every round
                per = {}
                for p, w in state["seen"]:
                    per.setdefault(p, []).append(w)
                m.check(
                    nrounds >= 10
                    and all(any(per[p][r] for p in per) for r in range(nrounds)),
                    "gave-up",
                    lambda: "%s after %s" % (a.message, state["seen"]),
                )
                m.check(bool(a.message), "reason", "empty")
        if rig.state != "Ready":
            rig.do("reset")
    m.sample(dict(rules=rules, log=rig.tail(12)))


def line_gen(duration, rng):
    gens = [LineGenerator("y", "mm", 0, 1, rng.randrange(1, 4))]
    if rng.random() < 0.5:
        gens.append(LineGenerator("x", "mm", 0, 1, rng.randrange(1, 4)))
    return CompoundGenerator(gens, [], [], duration=duration)


def gen_det(rng):
    readout = rng.choice([0.0, 0.001, 0.01, 0.1, rng.uniform(0, 0.3)])
    acc = rng.choice([0.0, 50.0, 1000.0, rng.uniform(0, 20000)])
    mn = rng.choice([0.0, 0.0001, 0.01, rng.uniform(0, 0.2)])
    return readout, acc, mn


def gen_time(rng):
    return rng.choice([0.0, 0.001, 0.05, 0.1, 0.5, 1.0, round(rng.uniform(0, 1), 6), 10.0])


def judge_frame(m, what, det, d, e):
    """Exposure and dead time fit in the frame"""
    readout, acc, mn = det
    m.check(
        e >= mn * (1 - TOL), "below-min", lambda: "%s exposure %s below min %s" % (what, e, mn)
    )
    if d * (1 - acc / 1e6) - readout < mn and abs(e - mn) <= mn * TOL:
        # Known finding (see short_frame below), judged there only
        m.count("short_frames")
        return
    need = e + readout + d * acc / 1e6
    m.check(
        need <= d * (1 + TOL) + 1e-12,
        "does-not-fit",
        lambda: "%s exposure %s readout %s accuracy %s needs %s of %s"
        % (what, e, readout, acc, need, d),
    )


def exposure(m, rng, idx):
    for _ in range(1):
        det = gen_det(rng)
        readout, acc, mn = det
        proc = Process("proc")
        c = RunnableController("DET", m.tmpdir())
        c.add_part(
            ExposureDeadtimePart("dt", readout_time=readout, frequency_accuracy=acc, min_exposure=mn)
        )
        proc.add_controller(c)
        manrig.start(proc)
        m.defer(mh.stop_process, proc)
        cl = Client(proc)
        for _ in range(12):
            dur, exp = gen_time(rng), gen_time(rng)
            if rng.random() < 0.2 and dur:
                # On the edge
                exp = max(0.0, (dur * (1 - acc / 1e6) - readout) * rng.choice([1, 1 + 1e-6, 1 - 1e-6]))
            args = dict(generator=line_gen(dur, rng))
            if exp or rng.random() < 0.5:
                args["exposure"] = exp
            r = cl.post(["DET", "validate"], **args)
            room = dur * (1 - acc / 1e6) - readout
            what = "duration %s exposure %s with %s" % (dur, exp, det)
            m.distinct("exposure", bool(dur), bool(exp), ok(r), mn > 0, readout > 0)
            m.count("exposures")
            if ok(r):
                v = r.value
                d, e = float(v["generator"].duration), float(v["exposure"])
                judge_frame(m, what, det, d, e)
                if dur:
                    m.check(d == dur, "duration-changed", lambda: "%s gave %s" % (what, d))
                if exp:
                    m.check(e == exp, "exposure-changed", lambda: "%s gave %s" % (what, e))
                if dur and not exp and room >= mn:
                    # As long as possible
                    m.check(
                        abs(e - max(room, mn)) <= 1e-9 + TOL * e,
                        "not-maximum",
                        lambda: "%s gave %s, room for %s" % (what, e, room),
                    )
                if not dur:
                    # As short as possible
                    short = ((exp or mn) + readout) / (1 - acc / 1e6)
                    m.check(
                        abs(d - short) <= 1e-9 + 1e-9 * d,
                        "not-minimum",
                        lambda: "%s gave %s, could be %s" % (what, d, short),
                    )
                p = {k: v[k] for k in v}
                r2 = cl.post(["DET", "validate"], **p)
                m.check(
                    ok(r2) and mh.norm(r2.value) == mh.norm(v),
                    "not-fixpoint",
                    lambda: "%s: %s then %s" % (what, mh.norm(v), r2),
                )
                m.count("possible")
            else:
                if dur and exp:
                    impossible = exp < mn * (1 + TOL) or exp > room * (1 - TOL)
                elif dur:
                    impossible = room <= max(mn * (1 + TOL), 1e-9)
                elif exp:
                    impossible = exp < mn * (1 + TOL)
                else:
                    impossible = mn < 1e-9
                m.check(
                    impossible, "refused-possible", lambda: "%s: %s" % (what, r.message)
                )
                m.count("impossible")


def short_frame(m, rng, idx):
    """A frame with no room for even the minimum exposure"""
    proc = Process("proc")
    c = RunnableController("DET", m.tmpdir())
    c.add_part(ExposureDeadtimePart("dt", readout_time=0.1, frequency_accuracy=50.0, min_exposure=0.01))
    proc.add_controller(c)
    manrig.start(proc)
    m.defer(mh.stop_process, proc)
    r = Client(proc).post(["DET", "validate"], generator=line_gen(0.05, rng))
    m.count("short_frame_asked")
    if ok(r):
        e = float(r.value["exposure"])
        m.check(
            e + 0.1 <= 0.05,
            "short-frame" if e == 0.01 else "does-not-fit",
            "duration 0.05 with readout 0.1 and minimum exposure 0.01 accepted with exposure %s" % e,
        )


class LooksLikeDetector(Part):
    def setup(self, registrar):
        super().setup(registrar)
        registrar.hook(ConfigureHook, self.on_configure)
        registrar.report(ConfigureHook.create_info(self.on_configure))

    @add_call_types
    def on_configure(
        self, fileDir: AFileDir, formatName: AFormatName = "det", fileTemplate: AFileTemplate = "%s.h5"
    ) -> None:
        pass


class Multi(Part):
    def prepare(self, mris):
        self.mris = mris
        return self

    def setup(self, registrar):
        super().setup(registrar)
        registrar.hook(ReportStatusHook, self.on_report_status)

    @add_call_types
    def on_report_status(self):
        return [DetectorMutiframeInfo(x) for x in self.mris]


def detectors(m, rng, idx):
    proc = Process("proc")
    n = rng.randrange(1, 4)
    dets, multi = {}, set()
    top = RunnableController("TOP", m.tmpdir())
    tmp = m.tmpdir()
    for i in range(n):
        name, mri = "D%d" % i, "DET%d" % i
        dets[name] = gen_det(rng)
        if dets[name][2] == 0:
            dets[name] = dets[name][:2] + (0.0002,)
        c = RunnableController(mri, m.tmpdir())
        r, acc, mn = dets[name]
        c.add_part(ExposureDeadtimePart("dt", readout_time=r, frequency_accuracy=acc, min_exposure=mn))
        c.add_part(LooksLikeDetector("look"))
        c.add_part(DatasetTablePart("dset"))
        proc.add_controller(c)
        top.add_part(DetectorChildPart(name, mri, initial_visibility=True))
        if rng.random() < 0.6:
            multi.add(name)
    top.add_part(Multi("multi").prepare(["DET" + x[1:] for x in sorted(multi)]))
    proc.add_controller(top)
    manrig.start(proc)
    m.defer(mh.stop_process, proc)
    cl = Client(proc)
    for _ in range(6):
        dur = gen_time(rng) if rng.random() < 0.7 else 0.0
        rows = []
        for name in dets:
            if rng.random() < 0.9:
                rows.append(
                    [
                        rng.random() < 0.85,
                        name,
                        "DET" + name[1:],
                        rng.choice([0.0, 0.0, 0.01, 0.1, 0.3]),
                        rng.choice([1, 1, 1, 2, 3, 0]),
                    ]
                )
        rng.shuffle(rows)
        table = DetectorTable.from_rows(rows)
        gen = line_gen(dur, rng)
        args = dict(generator=gen, fileDir=tmp, detectors=table)
        r = cl.post(["TOP", "validate"], **args)
        what = "duration %s rows %s dets %s multi %s" % (dur, rows, dets, multi)
        m.count("tables")
        if ok(r):
            v = r.value
            d = float(v["generator"].duration)
            gd, gg = mh.norm(v["generator"]), mh.norm(gen)
            gd["duration"] = gg["duration"] = 0
            m.check(gd == gg, "generator-changed", lambda: "%s -> %s" % (gg, gd))
            if dur:
                m.check(d == dur, "duration-changed", lambda: "%s gave %s" % (what, d))
            out = {row[1]: row for row in v["detectors"].rows()}
            m.check(
                set(out) == set(dets) and len(v["detectors"].name) == len(out),
                "rows",
                lambda: "%s gave %s" % (what, list(v["detectors"].rows())),
            )
            given = {row[1]: row for row in rows}
            for name, row in out.items():
                g = given.get(name)
                enable, _, mri, e, f = row
                m.check(mri == "DET" + name[1:], "mri", str(row))
                m.check(
                    bool(enable) == bool(g and g[0]), "enable-changed", lambda: "%s gave %s" % (what, row)
                )
                if not enable:
                    continue
                m.check(f >= 1, "no-frames", lambda: "%s gave %s" % (what, row))
                m.check(f == 1 or name in multi, "multi", lambda: "%s gave %s" % (what, row))
                judge_frame(m, what + " " + name, dets[name], d / f, float(e))
                if g[3]:
                    m.check(float(e) == g[3], "exposure-changed", lambda: "%s gave %s" % (what, row))
                if g[4]:
                    m.check(f == g[4], "frames-changed", lambda: "%s gave %s" % (what, row))
                m.count("rows")
                if f > 1:
                    m.count("multiframe")
                    if not dur:
                        m.count("multiframe_no_duration")
            m.distinct("det", bool(dur), tuple(sorted((bool(x[0]), bool(x[3]), x[4]) for x in rows)))
            p = {k: v[k] for k in v}
            r2 = cl.post(["TOP", "validate"], **p)
            m.check(
                ok(r2) and mh.norm(r2.value) == mh.norm(v),
                "not-fixpoint",
                lambda: "%s: %s then %s" % (what, mh.norm(v), r2),
            )
        else:
            why = []
            for enable, name, mri, e, f in rows:
                if not enable:
                    continue
                ro, acc, mn = dets[name]
                if f > 1 and name not in multi:
                    why.append("multi")
                if f == 0 and e:
                    if not dur:
                        why.append("guess without duration")
                    else:
                        # However many fit
                        frames = int((dur / (e + ro + acc * dur / 1e6)) * (1 + TOL))
                        if frames < 1 or dur * (1 - acc / 1e6) - ro <= mn * (1 + TOL):
                            why.append("no room")
                        if frames > 1 and name not in multi:
                            why.append("multi")
                        # the accuracy is relative to the whole duration in the guess
                        f = max(frames, 1)
                f = f or 1
                if e and e < mn * (1 + TOL):
                    why.append("below min")
                if dur:
                    room = dur / f * (1 - acc / 1e6) - ro
                    if e and e > room * (1 - TOL) or room <= max(mn, 1e-9) * (1 + TOL):
                        why.append("no room")
            m.check(bool(why), "refused-possible", lambda: "%s: %s" % (what, r.message))
            m.check(bool(str(r.message)), "reason", "empty message")
            m.count("refused_tables")


check = vmon.Check(
    "C24",
    [
        vmon.Scenario("tweaks", tweaks, quick=750, thorough=5000, timeout=60),
        vmon.Scenario("short_frame", short_frame, quick=3, thorough=1, timeout=60),
        vmon.Scenario("exposure", exposure, quick=180, thorough=1500, timeout=60),
        vmon.Scenario("detectors", detectors, quick=240, thorough=2000, timeout=60),
    ],
    rule="Distinct (rules of the parts, outcome, rounds) and (kind of request, outcome)",
    required=[
        "validates", "tweaked", "generator_tweaked", "refused", "configured_with",
        "possible", "impossible", "short_frame_asked", "rows", "multiframe", "multiframe_no_duration",
        "refused_tables",
    ],
    level="exploration",
    assumptions=["Times are compared with a relative tolerance of 1e-9"],
)
if __name__ == "__main__":
    check.main()
