#!/opt/venv/bin/python
"""C22: detectors and file writers are armed for exactly the frames of the scan.

Real scans through the real areaDetector parts to a simulated detector, position
labeller and file writer, in which each frame carries the point of the scan that
it was really taken at (lib/detrig.py)."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vmon
import mh
import cothread
import detrig as dr
import motionrig as mr
from manrig import ok
from scanrig import merged_dims, pick_axes, scan_reference

import h5py
import numpy as np
from malcolm.core import Error
from malcolm.modules.ADCore.parts import detectordriverpart, hdfwriterpart, positionlabellerpart
from malcolm.modules.ADCore.util import AttributeDatasetType, DataType, ExtraAttributesTable, SourceType, StatisticsName
from malcolm.modules.scanning.util import DatasetType, DetectorTable
from scanpointgenerator import CompoundGenerator, LineGenerator

NAMES = ["x", "y", "z", "theta"]
IDLE = 6.0


def shrink(m, rng, per_xml=None):
    """Load positions a few at a time, and don't wait long for frames"""
    for mod in (detectordriverpart, hdfwriterpart, positionlabellerpart):
        if hasattr(mod, "FRAME_TIMEOUT"):
            m.defer(setattr, mod, "FRAME_TIMEOUT", mod.FRAME_TIMEOUT)
            mod.FRAME_TIMEOUT = 5
    if hasattr(positionlabellerpart, "POSITIONS_PER_XML"):
        m.defer(setattr, positionlabellerpart, "POSITIONS_PER_XML", positionlabellerpart.POSITIONS_PER_XML)
        positionlabellerpart.POSITIONS_PER_XML = per_xml or rng.choice([3, 5, 8, 20, 5000])


def make_generator(rng, size, kinds=None, duration=None):
    names = list(NAMES)
    rng.shuffle(names)
    kinds = kinds or ["line", "grid", "grid", "grid3", "grid3", "spiral", "roi", "array", "concat", "static", "still"]
    gens, ex, kind = mr.pick_generator(rng, names, size, kinds)
    d = rng.choice([0.1, 0.5, 1.0]) if duration is None else duration
    return CompoundGenerator(gens, ex, [], d), kind


def plan(rng, g, frac=0.35):
    """What axes to move, where to break, and where that makes the runs end"""
    dims, size = merged_dims(g)
    axes = pick_axes(rng, dims)
    total, inner, ends = scan_reference(dims, axes, [])
    bps = []
    if inner > 1 and rng.random() < frac:
        left = inner
        while left > 0 and len(bps) < 4:
            n = rng.randrange(1, left + 1)
            bps.append(n)
            left -= n
        if left:
            bps.append(left)
        total, inner, ends = scan_reference(dims, axes, bps)
    return axes, bps, ends


def args_of(r, g, axes, bps, **kw):
    args = dict(generator=g, axesToMove=axes, fileDir=r.dir, **kw)
    if bps:
        args["breakpoints"] = bps
    return args


def new_scan(r):
    r.scan_id += 1
    r.paused = False
    del r.ran[:]
    for c in r.chains:
        del c.missed[:], c.lost[:], c.segments[:], c.acquisitions[:]
        c.taken.clear()
        c.generator = None


def where(generator, n):
    return tuple(int(x) for x in generator.get_point(n).indexes)


def judge_file(m, r, c, what, fmt="det", template="%s.h5", folder=None):
    """All the points of the scan are in the file, each at its place"""
    fps = r.fps[c.name]
    gen = r.generator
    files = [f for f in c.files if f["scan"] == r.scan_id]
    m.require(len(files) == 1, "file", lambda: "%s: %s opened %d files for a scan" % (what, c.name, len(files)))
    f = files[0]
    # When pausing, the labeller might stop before the detector
    m.check(r.paused or not c.lost, "lost", lambda: "%s: %s lost frames %s" % (what, c.name, c.lost[:5]))
    size = gen.size * fps
    want = {}
    for n in range(gen.size):
        want[n] = where(gen, n)
    places, seen = {}, set()
    for loc, truth in f["ledger"].items():
        n = truth // fps
        w = want[n]
        if fps == 1:
            good = loc == w
        elif len(loc) == len(w) + 1:
            good = loc[:-1] == w  # frames are a dimension of their own
        else:
            good = loc[:-1] == w[:-1] and loc[-1] // fps == w[-1]
        m.check(good, "place", lambda: "%s: frame %d of point %d of the scan, which is %s, is at %s in the file of %s" % (what, truth % fps, n, w, loc, c.name))
        m.check(truth not in seen, "place", lambda: "%s: frame %d is in the file of %s twice" % (what, truth, c.name))
        seen.add(truth)
        places[loc] = truth
    m.check(len(seen) == size, "place", lambda: "%s: only %d of %d frames in the file of %s" % (what, len(seen), size, c.name))
    m.count("frames_judged", len(seen))
    shape = [f["extraDimSize" + dr.SUFFIXES[i]] for i in range(f["numExtraDims"] + 1)][::-1]
    m.check(
        [max(x) + 1 for x in zip(*places)] == shape, "shape",
        lambda: "%s: %s made a file of shape %s for points up to %s" % (what, c.name, shape, [max(x) for x in zip(*places)]),
    )
    m.check(
        f["positionMode"] and f["enableCallbacks"] and f["fileWriteMode"] == "Stream" and f["swmrMode"] and f["numCapture"] == 0, "mode",
        lambda: "%s: %s began to write with %s" % (what, c.name, {k: f[k] for k in ("positionMode", "enableCallbacks", "fileWriteMode", "swmrMode", "numCapture")}),
    )
    # Name
    path = f["fileTemplate"] % (f["filePath"], f["fileName"])
    name = os.path.join(folder or r.dir, template % fmt)
    m.check(os.path.normpath(c.local(path)) == os.path.normpath(name), "filename", lambda: "%s: %s wrote to %s, not %s" % (what, c.name, path, name))
    return f


def judge_detector(m, r, c, what, soft_ends):
    if c.hard:
        m.check(not c.missed, "missed", lambda: "%s: %s was not armed for triggers %s" % (what, c.name, c.missed[:5]))
    runs = [a for a in c.acquisitions if a["scan"] == r.scan_id]
    m.check(not c.drv.get("acquiring"), "armed", lambda: "%s: %s is still armed for %s" % (what, c.name, runs[-1]))
    for a in runs:
        if not a["stopped"]:
            m.check(a["got"] == a["target"], "armed", lambda: "%s: %s took %d of %d" % (what, c.name, a["got"], a["target"]))
    m.count("acquisitions", len(runs))
    return runs


def judge(m, r, what, fmt=None, template="%s.h5", folder=None):
    # The last of the frames
    for c in r.chains:
        for _ in range(500):
            if not c.drv.get("acquiring"):
                break
            cothread.Sleep(0.002)
    files = {}
    for c in r.chains:
        if r.taking_part(c):
            judge_detector(m, r, c, what, None)
            f = files[c.name] = judge_file(m, r, c, what, fmt or (c.name if r.outer else "det"), template, folder)
            if r.scan_info.get("datasets", True):
                judge_datasets(m, r, c, f, what, fmt or (c.name if r.outer else "det"), template, folder)
        else:
            m.check(not c.acquisitions and not [f for f in c.files if f["scan"] == r.scan_id], "enable", lambda: "%s: %s is disabled but was used" % (what, c.name))
    done = r.get("completedSteps", "value")
    m.check(done == r.generator.size, "progress", lambda: "%s: %s of %d steps completed at the end" % (what, done, r.generator.size))
    m.count("scans")
    return files


def rows_of(table):
    return [dict(zip(table.call_types, row)) for row in table.rows()]


def judge_datasets(m, r, c, f, what, fmt, template, folder=None):
    """The table of datasets says what is in the file"""
    gen = c.generator
    ndim = len(gen.dimensions)
    table = r.process.block_view(c.mri).datasets.value
    rows = {x["name"]: x for x in rows_of(table)}
    m.check(len(rows) == len(table.name), "datasets", lambda: "%s: repeated datasets %s" % (what, list(table.name)))
    lay = f["layout"]
    m.require(not isinstance(lay, str) and lay is not None, "layout", lambda: "%s: %s could not read its layout: %s" % (what, c.name, lay))
    paths = dr.layout_paths(lay)
    want = {}
    if c.useful:
        want["%s.data" % fmt] = (DatasetType.PRIMARY, ndim + 2)
        if c.stats:
            want["%s.%s" % (fmt, c.stats.name.lower())] = (DatasetType.SECONDARY, ndim)
    extras = r.scan_info.get("extras", {}).get(c.name, [])
    for x in extras:
        if x["datasetType"] is AttributeDatasetType.POSITION:
            want[x["name"] + ".value"] = (DatasetType.POSITION_VALUE, ndim)
        else:
            want[x["name"] + ".data"] = (DatasetType.PRIMARY if x["datasetType"] is AttributeDatasetType.DETECTOR else DatasetType.MONITOR, ndim)
    for a in gen.axes:
        want["%s.value_set" % a] = (DatasetType.POSITION_SET, 1)
    m.check(set(rows) == set(want), "datasets", lambda: "%s: datasets %s, not %s" % (what, sorted(rows), sorted(want)))
    name = template % fmt
    attrs = {}
    for x in extras:
        attrs[x["name"] + (".value" if x["datasetType"] is AttributeDatasetType.POSITION else ".data")] = x["name"]
    if c.stats and c.useful:
        attrs["%s.%s" % (fmt, c.stats.name.lower())] = None
    for n, (typ, rank) in want.items():
        row = rows.get(n)
        if row is None:
            continue
        m.check(row["type"] == typ and row["rank"] == rank, "datasets", lambda: "%s: dataset %s is %s" % (what, n, row))
        m.count("datasets_judged")
        if typ is DatasetType.POSITION_SET and r.scan_info.get("demand"):
            judge_set_file(m, r, gen, n.rsplit(".", 1)[0], os.path.join(folder or r.dir, row["filename"]), row["path"], what)
            continue
        m.check(row["filename"] == name, "datasets", lambda: "%s: dataset %s is in %s, not %s" % (what, n, row["filename"], name))
        el = paths.get(row["path"])
        if not m.check(el is not None and el.tag == "dataset", "layout", lambda: "%s: %s is not in the layout %s" % (what, row["path"], sorted(paths))):
            continue
        if typ is DatasetType.PRIMARY and n == "%s.data" % fmt:
            m.check(el.attrib.get("source") == "detector" and el.attrib.get("det_default") == "true", "layout", lambda: "%s: %s is %s" % (what, row["path"], el.attrib))
        elif typ is DatasetType.POSITION_SET:
            judge_set_xml(m, gen, n.rsplit(".", 1)[0], el, paths, row["path"], what)
        else:
            m.check(el.attrib.get("source") == "ndattribute", "layout", lambda: "%s: %s is %s" % (what, row["path"], el.attrib))
            judge_attribute(m, c, f, el.attrib.get("ndattribute"), attrs.get(n), what, extras)
        if row["uniqueid"]:
            uid = paths.get(row["uniqueid"])
            m.check(uid is not None and uid.attrib.get("ndattribute") == "NDArrayUniqueId", "layout", lambda: "%s: no unique ids at %s" % (what, row["uniqueid"]))
        else:
            m.check(typ is DatasetType.POSITION_SET, "datasets", lambda: "%s: no unique ids for %s" % (what, n))
    nd = paths.get("/entry/NDAttributes")
    m.check(nd is not None and nd.attrib.get("ndattr_default") == ("true" if r.scan_info.get("all", True) else "false"), "layout", lambda: "%s: NDAttributes %s" % (what, nd is not None and nd.attrib))
    # Hard links point at something
    for p, el in paths.items():
        if el.tag == "hardlink":
            m.check(el.attrib.get("target") in paths, "layout", lambda: "%s: %s links to %s" % (what, p, el.attrib))


def judge_positions(m, gen, axis, values, dim, what):
    ns = range(gen.size) if gen.size < 80 else range(0, gen.size, gen.size // 60)
    for n in ns:
        pt = gen.get_point(n)
        if axis in pt.positions:
            got = values[pt.indexes[dim]]
            m.check(abs(got - pt.positions[axis]) < 1e-9 * max(1, abs(got)), "set", lambda: "%s: %s_set says %s at %s of point %d, which is %s" % (what, axis, got, pt.indexes, n, pt.positions))
    m.count("setpoints_judged")


def dim_of(gen, axis):
    return [i for i, d in enumerate(gen.dimensions) if axis in d.axes][0]


def judge_set_xml(m, gen, axis, el, paths, path, what):
    dim = dim_of(gen, axis)
    group = paths[path.rsplit("/", 1)[0]]
    at = dr.constant(group, axis + "_set_indices")
    m.check(at == str(dim), "set", lambda: "%s: %s is said to be dimension %s, not %s" % (what, axis, at, dim))
    values = [float(x) for x in el.attrib["value"].split(",")]
    m.check(len(values) == gen.dimensions[dim].size, "set", lambda: "%s: %d values of %s" % (what, len(values), axis))
    m.check(dr.constant(el, "units") == (gen.units[axis] or None), "set", lambda: "%s: units of %s" % (what, axis))
    judge_positions(m, gen, axis, values, dim, what)
    axes = dr.constant(group, "axes").split(",")
    if len(gen.dimensions[dim].axes) == 1:
        m.check(axes[dim] == axis + "_set", "set", lambda: "%s: axes %s" % (what, axes))


def judge_set_file(m, r, gen, axis, name, path, what):
    try:
        with h5py.File(name, "r", libver="latest", swmr=True) as h:
            values = list(h[path][...])
            units = h[path].attrs["units"]
    except (OSError, KeyError) as e:
        m.fail("set", "%s: no %s in %s: %s" % (what, path, name, e))
        return
    dim = dim_of(gen, axis)
    m.check(len(values) == gen.dimensions[dim].size and units == gen.units[axis], "set", lambda: "%s: %d values of %s in %s" % (what, len(values), axis, units))
    judge_positions(m, gen, axis, values, dim, what)


def judge_attribute(m, c, f, attr, name, what, extras):
    """An attribute that is written to file is attached to the frames"""
    if name is None:
        xml = f["stat"]["xml"]
        if not m.check(not isinstance(xml, str) and xml is not None, "attributes", lambda: "%s: %s" % (what, xml)):
            return
        got = {x.attrib["name"]: x.attrib for x in xml.iter("Attribute")}
        m.check(attr in got and got[attr]["source"] == c.stats.value and got[attr]["type"] == "PARAM", "attributes", lambda: "%s: %s is not one of %s" % (what, attr, got))
        m.check(f["stat"]["enableCallbacks"] and f["stat"]["computeStatistics"], "attributes", lambda: "%s: statistics are not calculated" % what)
    else:
        for a in c.acquisitions:
            xml = a["attributes"]
            if not m.check(not isinstance(xml, str) and xml is not None, "attributes", lambda: "%s: %s" % (what, xml)):
                return
            got = {x.attrib["name"]: x.attrib for x in xml.iter("Attribute")}
            m.check(len(got) == len(extras), "attributes", lambda: "%s: %s" % (what, got))
            x = [x for x in extras if x["name"] == name][0]
            el = got.get(attr, {})
            kind = {SourceType.PV: "EPICS_PV", SourceType.PARAM: "PARAM"}[x["sourceType"]]
            m.check(el.get("type") == kind and el.get("source") == x["sourceId"] and el.get("description") == x["description"], "attributes", lambda: "%s: %s is %s" % (what, x, el))
            if kind == "PARAM":
                m.check(el.get("datatype") == x["dataType"].value, "attributes", lambda: "%s: %s is %s" % (what, x, el))
            else:
                dbr = {DataType.INT: "DBR_LONG", DataType.DOUBLE: "DBR_DOUBLE", DataType.STRING: "DBR_STRING", DataType.DBRNATIVE: "DBR_NATIVE"}[x["dataType"]]
                m.check(el.get("dbrtype") == dbr, "attributes", lambda: "%s: %s is %s" % (what, x, el))
    m.count("attributes_judged")


def configure(m, r, what, **args):
    new_scan(r)
    resp = r.wait(r.post("configure", **args), IDLE)
    m.require(ok(resp), "configure", lambda: "%s: configure: %s" % (what, resp))
    m.count("configures")


def run_all(m, r, what, ends, start=0):
    """Run to the end, one segment at a time"""
    for end in ends:
        resp = r.wait(r.post("run"), IDLE)
        m.require(ok(resp), "run", lambda: "%s: run to %s: %s; %s" % (what, end, resp, stuck(r)))
        got = r.get("completedSteps", "value")
        m.check(got == end, "progress", lambda: "%s: %d steps complete after the run to %d" % (what, got, end))
        if end != ends[-1]:
            m.check(r.state() == "Armed", "run", lambda: "%s: %s after the run to %d" % (what, r.state(), end))
            m.count("segments")


def stuck(r):
    out = []
    for c in r.chains:
        out.append(
            "%s: %s, counter %s, labelled %s of %s, written %s, lost %s, missed %s, acquisitions %s"
            % (c.name, c.ctrl.state.value, c.drv.get("arrayCounterReadback"), c.pos.get("arrayCounterReadback"), len(c.positions), c.hdf.get("numCapturedReadback"), c.lost[:3], c.missed[:3],
               [(a["base"], a["got"], a["target"], a["stopped"]) for a in c.acquisitions])
        )
    return "; ".join(out)


def scans(m, rng, idx):
    """One detector, from start to end"""
    shrink(m, rng)
    r = dr.Rig(m, rng, useful=rng.random() < 0.9, exposure=rng.choice([None, (0.002, 50.0, 0.0)]))
    r.scan_info = {}
    c = r.chains[0]
    for _ in range(rng.choice([1, 2, 3])):
        if rng.random() < 0.3:
            c.hard = not c.hard
            c.drv.set("triggerMode", "Hard" if c.hard else "Internal")
        g, kind = make_generator(rng, rng.choice([1, 2, 5, 12, 30, 60]))
        axes, bps, ends = plan(rng, g)
        what = "%s of %d to %s, %s" % (kind, ends[-1], ends, "triggered" if c.hard else "free running")
        configure(m, r, what, **args_of(r, g, axes, bps))
        run_all(m, r, what, ends)
        m.check(r.state() == "Finished", "run", lambda: "%s: %s at the end" % (what, r.state()))
        judge(m, r, what)
        m.distinct("scan", kind, c.hard, len(ends) > 1, bool(bps), c.lazy)


def finish(m, r, what, deadline=60):
    """Let a scan that might be anywhere come to its end"""
    for _ in range(200):
        s = r.state()
        if s == "Armed":
            resp = r.wait(r.post("run"), IDLE)
            m.require(ok(resp), "run", lambda: "%s: run: %s; %s" % (what, resp, stuck(r)))
        elif s == "Paused":
            resp = r.wait(r.post("resume"), IDLE)
            m.require(ok(resp), "resume", lambda: "%s: resume: %s; %s" % (what, resp, stuck(r)))
        elif s == "Finished":
            return
        elif s in ("Fault", "Aborted", "Disabled", "Ready"):
            m.require(False, "finish", "%s: %s; %s" % (what, s, stuck(r)))
        else:
            n, last = 0, r.frames_seen()
            while r.state() == s and n < IDLE / 0.002:
                cothread.Sleep(0.002)
                n += 1
                if r.frames_seen() != last:
                    n, last = 0, r.frames_seen()
            m.require(r.state() != s, "stuck", lambda: "%s: stuck in %s; %s" % (what, s, stuck(r)))
    m.require(False, "finish", "%s: never finished" % what)


def disturb(m, rng, r, what, size):
    """Pause, seek and resume at any time"""
    r.paused = True
    for _ in range(rng.choice([1, 2, 3, 5])):
        s = r.state()
        if s == "Armed" and rng.random() < 0.75:
            r.post("run")
        cothread.Sleep(rng.choice([0, 0.002, 0.01, 0.03, 0.08]))
        s = r.state()
        if s == "Finished":
            # Can still go back
            if rng.random() < 0.5:
                break
        if s in ("Armed", "Paused") and rng.random() < 0.3:
            # There and back
            at = r.ctrl.completed_steps.value
            for to in (rng.randrange(0, size), at):
                resp = r.wait(r.post("pause", lastGoodStep=to), IDLE + 12)
                m.require(ok(resp), "seek", lambda: "%s: seek to %d: %s" % (what, to, resp))
            m.count("there_and_back")
            continue
        to = -1
        if rng.random() < 0.6:
            # Not so far that points are left out
            to = rng.randrange(0, r.ctrl.completed_steps.value + 1)
        resp = r.wait(r.post("pause", lastGoodStep=to), IDLE + 12)
        if not ok(resp):
            m.count("pause_refused")
            n = 0
            while r.state() not in ("Finished", "Armed", "Paused", "Fault") and n < 3000:
                cothread.Sleep(0.002)
                n += 1
            continue
        m.count("seeks")
        if r.state() == "Paused":
            cothread.Sleep(rng.choice([0, 0.01]))
            if rng.random() < 0.7:
                resp = r.wait(r.post("resume"), IDLE)
                m.check(ok(resp), "resume", lambda: "%s: resume: %s" % (what, resp))
                m.count("resumes")


def pauses(m, rng, idx):
    shrink(m, rng)
    r = dr.Rig(m, rng)
    r.scan_info = {}
    c = r.chains[0]
    g, kind = make_generator(rng, rng.choice([5, 12, 30, 60]))
    axes, bps, ends = plan(rng, g)
    what = "%s of %d to %s, %s, paused" % (kind, ends[-1], ends, "triggered" if c.hard else "free running")
    configure(m, r, what, **args_of(r, g, axes, bps))
    disturb(m, rng, r, what, ends[-1])
    finish(m, r, what)
    judge(m, r, what)
    m.distinct("pauses", c.hard, len(ends) > 1, bool(bps), c.lazy, len(c.segments))
    if rng.random() < 0.5:
        # Leave one in the middle, and start again
        configure(m, r, what, **args_of(r, g, axes, bps))
        r.post("run")
        cothread.Sleep(rng.choice([0, 0.005, 0.02]))
        r.wait(r.post("abort"), IDLE)
        cothread.Sleep(0.02)
        if r.state() in ("Aborted", "Fault", "Finished"):
            resp = r.wait(r.post("reset"), IDLE)
            m.require(ok(resp), "reset", lambda: "%s: reset: %s" % (what, resp))
            g, kind = make_generator(rng, rng.choice([5, 12, 30]))
            axes, bps, ends = plan(rng, g)
            what = "%s of %d to %s after an abort" % (kind, ends[-1], ends)
            configure(m, r, what, **args_of(r, g, axes, bps))
            run_all(m, r, what, ends)
            judge(m, r, what)
            m.count("after_aborts")


def detectors(m, rng, idx):
    """A scan of several detectors, some taking several frames for each step"""
    shrink(m, rng)
    r = dr.Rig(m, rng, dets=rng.choice([1, 2, 2]), outer=True, hard=None if rng.random() < 0.4 else True)
    r.scan_info = {}
    g, kind = make_generator(rng, rng.choice([3, 8, 20, 40]), ["line", "grid", "grid", "grid3", "spiral", "roi", "array", "concat"])
    rows = []
    for c in r.chains:
        on = rng.random() < 0.9
        n = rng.choice([1, 1, 2, 3, 5])
        rows.append([on, c.name, c.mri, 0.0, n])
        r.fps[c.name] = n if on else 0
    if max(r.fps.values()) > 1:
        # scanpointgenerator can't take several frames at each point of snakes
        for x in g.generators:
            x.alternate = False
    axes, bps, ends = plan(rng, g)
    what = "%s of %d to %s with %s" % (kind, ends[-1], ends, [("soft ", "")[c.hard] + str(r.fps[c.name]) for c in r.chains])
    configure(m, r, what, detectors=DetectorTable.from_rows(rows), **args_of(r, g, axes, bps))
    paused = rng.random() < 0.5 and any(r.fps.values())
    if paused:
        what += ", paused"
        disturb(m, rng, r, what, ends[-1])
        finish(m, r, what)
    elif any(r.fps.values()):
        run_all(m, r, what, ends)
    else:
        for _ in ends:
            r.wait(r.post("run"), IDLE)
    if any(r.fps.values()):
        judge(m, r, what)
        # The scan's datasets are its detectors'
        got = [tuple(x.values()) for x in rows_of(r.process.block_view(r.mri).datasets.value)]
        want = [tuple(x.values()) for c in r.chains if r.fps[c.name] for x in rows_of(r.process.block_view(c.mri).datasets.value)]
        m.check(sorted(map(str, got)) == sorted(map(str, want)), "datasets", lambda: "%s: the scan has %s, its detectors %s" % (what, got, want))
        m.count("outer_datasets")
    m.distinct("dets", tuple(sorted(r.fps.values())), paused, bool(bps), len(ends) > 1)
    if max(r.fps.values()) > 1:
        m.count("multiframe")
        if paused:
            m.count("multiframe_paused")
        if bps:
            m.count("multiframe_breakpoints")


def files(m, rng, idx):
    """Names, places, layouts and attributes"""
    shrink(m, rng)
    folder = m.tmpdir()
    prefix = "/" + folder.split("/")[1]
    windows = None
    if rng.random() < 0.5:
        windows = (rng.choice(["X", "Q"]), rng.choice([prefix, folder]), rng.choice(["", "", "//dc", "//server/share"]))
    for part in rng.choice([[], ["data"], ["a b", "c"], [prefix[1:]], ["run", prefix[1:], "x"], ["2.5.K"]]):
        folder = os.path.join(folder, part)
    os.makedirs(folder, exist_ok=True)
    demand = rng.random() < 0.35
    stats = rng.choice([None] + list(StatisticsName))
    r = dr.Rig(m, rng, windows=windows, stats=stats, demand=demand, useful=rng.random() < 0.9)
    c = r.chains[0]
    extras = []
    for i in range(rng.choice([0, 0, 1, 2, 4])):
        s = rng.choice(list(SourceType))
        extras.append(
            dict(
                name="%s%d" % (rng.choice(["I", "temp-", "x_"]), i), sourceId=rng.choice(["BL:PV:%d", "<A&B>%d", "PARAM_%d"]) % i, description=rng.choice(["", "some \"thing\"", "a<b & c"]),
                sourceType=s, dataType=rng.choice([d for d in DataType if s is SourceType.PV or d is not DataType.DBRNATIVE]), datasetType=rng.choice(list(AttributeDatasetType)),
            )
        )
    r.scan_info = dict(demand=demand, extras={c.name: extras}, all=rng.random() < 0.5)
    det = r.process.block_view(c.mri)
    if extras:
        det.attributesToCapture.put_value(ExtraAttributesTable(**{k: [x[k] for x in extras] for k in extras[0]}))
    det.writeAllNdAttributes.put_value(r.scan_info["all"])
    for _ in range(rng.choice([1, 2])):
        g, kind = make_generator(rng, rng.choice([1, 6, 20]))
        axes, bps, ends = plan(rng, g, 0.1)
        fmt = rng.choice(["det", "DET", "xspress-3", "p2m_1"])
        template = rng.choice(["%s.h5", "12345-%s.hdf", "i18-%s-7.nxs", "%s.a.h5"])
        slash = rng.choice(["", "/"])
        what = "%s of %d to %s/%s as %r%s%s" % (kind, ends[-1], folder, template, fmt, " from Windows %s" % (windows,) if windows else "", ", positions elsewhere" if demand else "")
        args = args_of(r, g, axes, bps, formatName=fmt, fileTemplate=template)
        args["fileDir"] = folder + slash
        configure(m, r, what, **args)
        run_all(m, r, what, ends)
        judge(m, r, what, fmt, template, folder)
        m.distinct("files", bool(windows), windows and bool(windows[2]), demand, bool(stats), len(extras))
        m.count("windows" if windows else "local")
        if rng.random() < 0.5:
            resp = r.wait(r.post("reset"), IDLE)
            m.require(ok(resp), "reset", lambda: "%s: reset: %s" % (what, resp))
            left = [x for x in os.listdir(folder) if x.endswith(".xml")]
            m.check(not left, "tidy", lambda: "%s: left %s behind" % (what, left))


def exposures(m, rng, idx):
    """How long each frame is to take"""
    shrink(m, rng)
    outer = rng.random() < 0.6
    readout, ppm, least = rng.choice([(0.002, 50.0, 0.0), (0.01, 1000.0, 0.001), (0.0, 0.0, 0.005)])
    r = dr.Rig(m, rng, outer=outer, exposure=(readout, ppm, least))
    r.scan_info = {}
    c = r.chains[0]
    fps = rng.choice([1, 1, 2, 4]) if outer else 1
    r.fps[c.name] = fps
    d = rng.choice([0.05, 0.1, 1.0])
    longest = d / fps - readout - ppm * (d / fps) / 1e6
    kind = rng.choice(["given", "given", "none", "long", "short", "guess", "guess0"])
    asked = dict(given=longest * rng.choice([0.2, 0.7, 0.999]), none=0.0, long=longest * 1.02, short=least * 0.9, guess=rng.choice([0.02, 0.2]), guess0=0.0)[kind]
    if kind == "short" and not least:
        return
    if kind == "given":
        asked = max(asked, least)
    g, gk = make_generator(rng, rng.choice([4, 12]), ["line", "grid"], 0.0 if kind.startswith("guess") else d)
    if fps > 1:
        for x in g.generators:
            x.alternate = False
    axes, bps, ends = plan(rng, g, 0.5)
    what = "%s of %d to %s, exposure %s (%s) of %s s in %d frames, readout %s" % (gk, ends[-1], ends, asked, kind, g.duration, fps, readout)
    args = args_of(r, g, axes, bps)
    if outer:
        args["detectors"] = DetectorTable.from_rows([[True, c.name, c.mri, asked, fps]])
    else:
        args["exposure"] = asked
    new_scan(r)
    resp = r.wait(r.post("configure", **args), IDLE)
    if kind in ("long", "short"):
        m.check(isinstance(resp, Error), "refuse", lambda: "%s: configured" % what)
        m.check(not c.acquisitions, "refuse", lambda: "%s: armed" % what)
        m.count("exposures_refused")
        return
    m.require(ok(resp), "configure", lambda: "%s: configure: %s" % (what, resp))
    run_all(m, r, what, ends)
    judge(m, r, what)
    per = r.generator.duration / fps
    if kind.startswith("guess"):
        need = ((asked or least) + readout) / (1 - ppm / 1e6)
        m.check(abs(per - need) < 1e-6 * max(per, 1e-3) or (need == 0 and per == 0), "exposure", lambda: "%s: guessed frames of %s s, not %s" % (what, per, need))
    want = asked or max(least, per - readout - ppm * per / 1e6)
    for a in c.acquisitions:
        m.check(abs(a["exposure"] - want) < 1e-9, "exposure", lambda: "%s: acquired with an exposure of %s, not %s" % (what, a["exposure"], want))
        m.check(abs(a["period"] - want - readout) < 1e-9, "exposure", lambda: "%s: acquired with a period of %s, not %s" % (what, a["period"], want + readout))
        m.count("exposures_judged")
    shown = r.process.block_view(c.mri).exposure.value
    m.check(abs(shown - want) < 1e-9, "exposure", lambda: "%s: shows an exposure of %s, not %s" % (what, shown, want))
    m.distinct("exposure", kind, fps, outer)


def drivers(m, rng, idx):
    """Detectors that are set up in their own ways"""
    shrink(m, rng)
    kind = rng.choice(["andor", "andor", "reframe", "xmap"])
    r = dr.Rig(m, rng, driver=kind)
    r.scan_info = {}
    c = r.chains[0]
    if kind == "andor":
        c.readout = rng.choice([0.0, 0.003])
        transfer = c.drv.get("andorFrameTransferMode")
    d = rng.choice([0.1, 0.5, 1.0])
    g, gk = make_generator(rng, rng.choice([4, 12, 30]), ["line", "grid", "grid3"], d)
    axes, bps, ends = plan(rng, g, 0.5)
    args = args_of(r, g, axes, bps)
    asked = 0.0
    if kind == "andor" and rng.random() < 0.6:
        asked = args["exposure"] = rng.choice([0.01, 0.05])
    what = "%s: %s of %d to %s of %s s, exposure %s" % (kind, gk, ends[-1], ends, d, asked)
    configure(m, r, what, **args)
    if rng.random() < 0.5:
        disturb(m, rng, r, what, ends[-1])
        finish(m, r, what)
        what += ", paused"
    else:
        run_all(m, r, what, ends)
    judge(m, r, what)
    for a in c.acquisitions:
        if kind == "reframe":
            n = int(d * 10000.0)
            want = n if not c.hard else (0 if c.gated else n - 1)
            m.check(a["post"] == want, "samples", lambda: "%s: acquired %s samples, not %s" % (what, a["post"], want))
            if c.hard and c.gated:
                m.check(a["average"] == "Yes", "samples", lambda: "%s: no averaging" % what)
        elif kind == "xmap":
            want = dict({k: v[0] for k, v in dr.XMAP.items()}, pixelsPerRun=a["target"], pixelsPerBuffer=1)
            m.check(a["xmap"] == want, "xmap", lambda: "%s: started with %s for %d frames" % (what, a["xmap"], a["target"]))
        elif transfer:
            m.check(a["exposure"] == 0 and abs(a["period"] - 0.004) < 1e-9, "exposure", lambda: "%s: frame transfer with exposure %s and period %s" % (what, a["exposure"], a["period"]))
        else:
            m.check(not asked or abs(a["exposure"] - asked) < 1e-9, "exposure", lambda: "%s: exposure of %s" % (what, a["exposure"]))
            m.check(asked or d * 0.9 < a["exposure"] < d - c.readout, "exposure", lambda: "%s: exposure of %s" % (what, a["exposure"]))
            m.check(a["exposure"] + c.readout <= a["period"] < d, "exposure", lambda: "%s: period of %s for an exposure of %s" % (what, a["period"], a["exposure"]))
        m.count("drivers_judged")
    m.distinct("driver", kind, c.hard, bool(asked), len(ends) > 1)


check = vmon.Check(
    "C22",
    [
        vmon.Scenario("scans", scans, quick=120, thorough=3000, timeout=120),
        vmon.Scenario("pauses", pauses, quick=180, thorough=4000, timeout=120),
        vmon.Scenario("detectors", detectors, quick=160, thorough=4000, timeout=120),
        vmon.Scenario("files", files, quick=60, thorough=2500, timeout=120),
        vmon.Scenario("exposures", exposures, quick=50, thorough=2000, timeout=120),
        vmon.Scenario("drivers", drivers, quick=40, thorough=1500, timeout=120),
    ],
    rule="Distinct kinds of scan with triggering and breaks, sets of frames per step, shapes of file set up, and kinds of exposure",
    required=[
        "frames_judged", "acquisitions", "segments", "seeks", "resumes", "progress_judged", "datasets_judged", "setpoints_judged",
        "attributes_judged", "windows", "multiframe", "multiframe_paused", "exposures_judged", "exposures_refused", "after_aborts", "there_and_back", "drivers_judged",
    ],
    level="exploration",
    assumptions=[
        "Frames have been through the plugins by the time the detector says that it has stopped",
        "The position labeller and file writer do as those of areaDetector",
    ],
)
if __name__ == "__main__":
    check.main()
