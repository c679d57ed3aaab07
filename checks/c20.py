#!/opt/venv/bin/python
"""C20: PandA sequencer tables describe exactly the scan's triggers.

The two sequencers are played as the hardware does, and what they played is
compared with the rows asked for, with the points of the scan, and with what
the motors did in the gaps between its rows (lib/motionrig.py)."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vmon
import mh
import manrig
import motionrig as mr
from manrig import ok

import cothread
import numpy as np
from malcolm.core import Context, Process
from malcolm.modules import builtin
from malcolm.modules.ADPandABlocks import doublebuffer
from malcolm.modules.ADPandABlocks.doublebuffer import DoubleBuffer, SequencerRows
from malcolm.modules.ADPandABlocks.parts import pandaseqtriggerpart
from malcolm.modules.ADPandABlocks.util import Trigger

TRIGGERS = [Trigger.IMMEDIATE] * 4 + [Trigger.BITA_0, Trigger.BITA_1, Trigger.POSA_GT, Trigger.POSB_LT]
TICK = mr.PANDA_TICK
# Where things are in a row of a table
REPEATS, TRIGGER, POSITION, TIME1, LIVE, DEAD, TIME2 = 0, 1, 2, 3, 4, 5, 10


def patch(m, module, name, value):
    if hasattr(module, name):
        m.defer(setattr, module, name, getattr(module, name))
        setattr(module, name, value)


def merged(rows):
    """Rows that do the same written in the same way: [repeats, rest]"""
    out = []
    for row in rows:
        if out and row[0] and out[-1][0] and out[-1][1] == tuple(row[1:]):
            out[-1][0] += row[0]
        else:
            out.append([row[0], tuple(row[1:])])
    return out


def played(m, session, what, least, limit):
    """The rows of the tables that were played as if from one table"""
    tables = session["tables"]
    rows = []
    for i, t in enumerate(tables):
        last = i == len(tables) - 1
        t = [tuple(r) for r in t]
        for r in t:
            m.check(0 <= r[0] <= 4096, "repeats", lambda: "%s: table %d has a row %s" % (what, i, r))
            m.check(min(r[TIME1], r[TIME2]) >= 0 and max(r[TIME1], r[TIME2]) < 2**32 - 1000, "times", lambda: "%s: table %d has a row %s" % (what, i, r))
        loops = [j for j, r in enumerate(t) if r[0] == 0]
        m.check(loops == ([len(t) - 1] if last else []), "loop", lambda: "%s: table %d of %d rows loops at %s" % (what, i, len(t), loops))
        if not last:
            r = t[-1]
            m.check(r[0] == 1, "switch", lambda: "%s: table %d ends with %s" % (what, i, r))
            t[-1] = r[:TIME2] + (r[TIME2] + mr.SWITCH,) + r[TIME2 + 1 :]
            took = sum(x[0] * (x[TIME1] + x[TIME2]) for x in t) * TICK
            m.check(len(t) > limit * 0.9 - 2 or took >= least * 0.999, "short", lambda: "%s: table %d has only %d rows of %s s" % (what, i, len(t), took))
            m.count("switches")
        rows += t
        m.count("tables")
    if len(tables) > 1:
        m.check(set(session["repeats"]) == {1} and set(session["prescale"]) == {0}, "settings", lambda: "%s: repeats %s prescale %s" % (what, session["repeats"], session["prescale"]))
    return rows


# ---------------------------------------------------------------- tables
class FakeRig:
    segment_id = 0
    running = False

    def seq_hold(self, seqs, gen):
        mh.settle(lambda: self.running or seqs.gen != gen, 100000)


def random_rows(rng, sizes):
    """Batches of rows that end with one that loops"""
    batches = []
    for n in sizes:
        rows = []
        while len(rows) < n:
            times = rng.choice([(1250, 1250), (625000, 625000), (12500000, 12500000), (0, 0), (10**8, 10**8), (5, 5), (1, 3)])
            if rows and rows[-1][3][1] < 10:
                times = (1250, 1250)
            count = rng.choice([1, 1, 1, 1, 2, 5, 300, 4096])
            reps = rng.choice([1, 1, 2, 30]) if count == 1 and times[1] > 10 else 1
            count = count if times[1] > 10 else 1
            for _ in range(reps):
                rows.append((count, rng.choice(TRIGGERS), rng.choice([0, 0, 17, -400]), times, rng.choice([0, 1]), rng.choice([0, 1])))
        rows = rows[:n]
        rows[-1] = rows[-1][:3] + ((1250, 1250),) + rows[-1][4:]
        batches.append(rows)
    return batches


def as_row(x):
    count, trigger, position, (t1, t2), live, dead = x
    return (count, trigger, position, t1, live, dead, 0, 0, 0, 0, t2, 0, 0, 0, 0, 0, 0)


def tables(m, rng, idx):
    """Random rows through the double buffer"""
    limit = 4096
    least = doublebuffer.MIN_TABLE_DURATION
    small = rng.random() < 0.75
    if small and hasattr(doublebuffer, "SEQ_TABLE_ROWS"):
        limit = rng.choice([4, 7, 16, 64])
        patch(m, doublebuffer, "SEQ_TABLE_ROWS", limit)
    n = rng.choice([1, 1, 2, 5, 12])
    sizes = [rng.choice([1, 2, 3, 10, limit - 1, limit, limit + 1, 2 * limit, 3 * limit + 2]) for _ in range(n)]
    if not small:
        sizes = sizes[:4]
    batches = random_rows(rng, sizes)
    # Two ways to say it
    def make():
        for b in batches:
            if how == "rows":
                yield SequencerRows.from_tuple_list([as_row(x) for x in b])
            else:
                rows = SequencerRows()
                for count, trigger, position, (t1, t2), live, dead in b:
                    rows.add_seq_entry(count, trigger, position, t1, live, dead, t1 - t2)
                yield rows
        rows = SequencerRows()
        rows.add_seq_entry(half_duration=1250, dead=1)
        rows.add_seq_entry(count=0)
        yield rows

    how = rng.choice(["rows", "entries"])
    want = [as_row(x) for b in batches for x in b] + [as_row((1, Trigger.IMMEDIATE, 0, (1250, 1250), 0, 1)), as_row((0, Trigger.IMMEDIATE, 0, (1250, 1250), 0, 0))]
    rig = FakeRig()
    rig.m, rig.rng = m, rng
    p = Process("seqs")
    s = mr.Sequencers(rig, rng, m)
    s.limit = limit
    for x in "AB":
        c = builtin.controllers.StatefulController("SEQ" + x)
        c.add_part(s.bags[x])
        p.add_controller(c)
    m.defer(mh.stop_process, p)
    manrig.start(p)
    ctx = Context(p)
    db = DoubleBuffer(ctx, ctx.block_view("SEQA"), ctx.block_view("SEQB"))
    what = "%s of %s rows, %s to a table" % (how, sizes, limit)
    for again in range(rng.choice([1, 1, 2])):
        rig.segment_id += 1
        db.configure(make())
        s.enable()

        def wait():
            ctx.wait_all_futures(db.run())

        spawned = cothread.Spawn(wait, raise_on_wait=True)
        mh.yields(30)
        rig.running = True
        session = s.sessions[-1]
        mh.settle(lambda: session["finished"], 400000)
        m.require(session["finished"], "played", lambda: "%s: the sequencers went on for ever" % what)
        # The last hand over may go without a word
        mh.yields(20)
        rows = played(m, session, what, least, limit)
        a, b = merged(rows), merged(want)
        if a != b:
            k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            m.check(False, "rows", lambda: "%s: played %s for %s at row %d of %d" % (what, a[k : k + 2], b[k : k + 2], k, len(b)))
        m.count("rows_compared", len(b))
        m.distinct("tables", min(len(session["tables"]), 6), how, small)
        db.clean_up()
        s.reset()
        rig.running = False
        mh.yields(5)
        m.count("double_buffers")
        if len(session["tables"]) > 2:
            m.count("double_buffers_refilled")
        del spawned


# ---------------------------------------------------------------- scans
def make_rig(m, rng):
    n = rng.choice([1, 2, 2, 3])
    letters = rng.sample(mr.AXES, n)
    names = ["x", "y", "z"][:n]
    motors = [mr.Motor(rng, x, letters[i]) for i, x in enumerate(names)]
    for x in motors:
        x.settle = rng.choice([0.0, 0.0, 0.0, x.settle])
    panda = rng.choice(["pcomp", "pcomp", "gate"])
    turn = rng.choice([None, None, (0.0, 0.002), (0.1, 0.002), (0.05, 0.02)])
    visible = rng.sample(names, rng.choice([n, n, 1, max(1, n - 1)]))
    scales = {x: (rng.choice([0.001, -0.001, 0.0005, 2e-5]), rng.choice([0.0, 1.5, -20.0])) for x in visible}
    r = mr.Rig(m, rng, motors, None, panda=panda, min_turnaround=turn, scales=scales, visible=visible)
    r.visible = visible if panda == "pcomp" else []
    m.distinct("rig", n, panda, turn, len(visible))
    return r


def counts(r, axis, p):
    scale, offset = r.scales[axis]
    return (np.asarray(p) - offset) / scale


def most(r, scan, i):
    """The visible axes that might move most in point i: {axis: increasing}"""
    diffs = {}
    for a in r.visible:
        if a in scan.axes:
            d = round(float(counts(r, a, scan.mid[a][i]))) - round(float(counts(r, a, scan.lower[a][i])))
            diffs[a] = d
    big = max([abs(x) for x in diffs.values()] or [0])
    # One count might go either way
    return {a: d > 0 for a, d in diffs.items() if abs(d) >= big - 1 and d}, big


def possible(r, scan):
    return all(most(r, scan, i0)[1] > 2 for i0, _ in scan.rows)


def doubtful(r, scan):
    return any(0 < most(r, scan, i0)[1] <= 2 for i0, _ in scan.rows)


def expand(rows):
    for r in rows:
        for _ in range(max(r[0], 1)):
            yield r


def judge(m, r, seg, what, least, limit):
    start, end = seg["segment"]
    scan = mr.Scan(seg["generator"], start, end)
    session = r.session_of(seg)
    m.require(session is not None and session["finished"], "played", lambda: "%s: not played to the end" % what)
    rows = played(m, session, what, least, limit)
    run = r.run_of(seg)
    axes = [a for a in scan.axes if a in seg["axes"]]
    gaps = None
    if axes and run is not None and run["finished"]:
        gaps = motion(r, run, scan, seg)
    it = iter(expand(rows))
    n = [0]

    def take(why):
        row = next(it, None)
        m.require(row is not None, "missing", lambda: "%s: no row %d for %s" % (what, n[0], why))
        n[0] += 1
        return row

    def outputs(row, live, dead, why):
        got = (tuple(row[4:10]), tuple(row[11:17]))
        want = ((live, dead, 0, 0, 0, 0), (0,) * 6)
        m.check(tuple(map(tuple, got)) == want, "outputs", lambda: "%s: row %d %s for %s" % (what, n[0] - 1, row, why))

    def live(row, i, why):
        outputs(row, 1, 0, why)
        ticks = scan.dur[i] / TICK
        m.check(
            abs(row[TIME1] - ticks / 2) <= 0.51 and abs(row[TIME2] - ticks / 2) <= 0.51, "duration",
            lambda: "%s: row %d %s for %s of %s ticks" % (what, n[0] - 1, row, why, ticks),
        )

    def trigger(row, want, why, position=None):
        m.check(row[TRIGGER] in want, "trigger", lambda: "%s: row %d %s for %s, not one of %s" % (what, n[0] - 1, row, why, want))

    early = 0.0
    for k, (i0, i1) in enumerate(scan.rows if axes else [(0, scan.n)]):
        why = "point %d" % (start + i0)
        if k:
            row = take("the gap before " + why)
            outputs(row, 0, 1, "the gap before " + why)
            if r.panda == "pcomp":
                trigger(row, [Trigger.IMMEDIATE], "the gap before " + why)
            else:
                trigger(row, [Trigger.BITA_0], "the gap before " + why)
                m.check(row[TIME1] > 0, "dead", lambda: "%s: row %d %s" % (what, n[0] - 1, row))
            blind = (row[TIME1] + row[TIME2]) * TICK
            m.count("gaps")
        row = take(why)
        live(row, i0, why)
        if not axes:
            trigger(row, [Trigger.IMMEDIATE], why)
        elif r.panda == "gate":
            trigger(row, [Trigger.BITA_1], why)
            if k and gaps:
                m.check(blind < gaps[k - 1].times[-1], "blind", lambda: "%s: dead for %s s of a gap of %s before %s" % (what, blind, gaps[k - 1].times[-1], why))
        else:
            poss, _ = most(r, scan, i0)
            enums = {r.inputs[a] + (">=" if up else "<=") + "POSITION": a for a, up in poss.items()}
            trigger(row, list(enums), why)
            axis = enums.get(row[TRIGGER])
            if axis:
                exact = float(counts(r, axis, scan.lower[axis][i0]))
                m.check(abs(row[POSITION] - exact) <= 0.501, "position", lambda: "%s: row %d compares at %s for %s, not %s" % (what, n[0] - 1, row[POSITION], why, exact))
                up = poss[axis]
                if k and gaps:
                    gap = gaps[k - 1]
                    length = gap.times[-1]
                    m.check(blind <= length + 1e-5, "blind", lambda: "%s: blind for %s s of a gap of %s before %s" % (what, blind, length, why))

                    def when(p):
                        c = counts(r, axis, p)
                        return c > row[POSITION] + 2 if up else c < row[POSITION] - 2

                    hit = gap.first(axis, blind + 1e-4, when)
                    m.check(
                        hit is None or hit[0] >= length - 1e-4, "early",
                        lambda: "%s: blind for %s s before %s, but %s triggers it after %s s of a gap of %s, at %s (%s counts)"
                        % (what, blind, why, axis, hit[0], length, hit[1], counts(r, axis, hit[1])),
                    )
                    m.count("blinds_judged")
                    if blind == 0:
                        m.count("not_blind")
        for i in range(i0 + 1, i1):
            row = take("point %d" % (start + i))
            live(row, i, "point %d" % (start + i))
            trigger(row, [Trigger.IMMEDIATE], "point %d" % (start + i))
        m.count("points_judged", i1 - i0)
    row = take("the end")
    outputs(row, 0, 1, "the end")
    trigger(row, [Trigger.IMMEDIATE], "the end")
    row = take("the loop at the end")
    outputs(row, 0, 0, "the end")
    m.check(row[0] == 0 and next(it, None) is None, "end", lambda: "%s: row %d %s is not the last and a loop" % (what, n[0] - 1, row))
    m.distinct("shape", r.panda, len(scan.rows) > 1, min(len(session["tables"]), 4))


class Quiet:
    """C21 judges the motion"""

    class Off(Exception):
        pass

    def check(self, good, kind, detail=None):
        return good

    def require(self, good, kind, detail=None):
        if not good:
            raise self.Off()

    def count(self, *args):
        pass

    distinct = count


def motion(r, run, scan, seg):
    try:
        return mr.judge_trajectory(Quiet(), run, scan, r.motors, {"pcomp": "NONE", "gate": "ROW_GATE"}[r.panda], r.min_turnaround, "", seg["axes"])[0]
    except Quiet.Off:
        r.m.count("motion_not_judged")
        return None


def longest(r, g):
    """How long the longest frame, or gap, can be"""
    p = g.get_points(0, g.size)
    out = [float(np.max(p.duration))]
    for x in r.motors:
        if x.name in g.axes:
            span = np.max(p.upper[x.name]) - np.min(p.upper[x.name])
            out.append(2 * span / x.v + 6 * x.acctime + 1)
    return max(out)


class Failed:
    def __init__(self, message):
        self.message = message

    def __repr__(self):
        return "Failed(%r)" % self.message


def declined(m, resp, longest):
    text = str(getattr(resp, "message", ""))
    if "too long" in text:
        m.check(longest >= 2**33 * TICK, "long", lambda: "%s for a longest time of %s s" % (text, longest))
        m.count("too_long")
        return True
    if any(x in text for x in ("math domain error", "time stretch required", "consistent time", "check the math", "Last point of", "too long")):
        m.count("declined")
        return True
    return False


def scan_once(m, r, rng, size, least, limit, kinds=None, durations=None, seek=False):
    g, kind = mr.make_scan(rng, r.motors, size, kinds=kinds, durations=durations)
    while g.size * (g.duration + g.delay_after) > 3000:
        # Too many tables
        size = max(1, size // 3)
        g, kind = mr.make_scan(rng, r.motors, size, kinds=kinds, durations=durations)
        if size == 1:
            break
    what = "%s of %d points of %.4g s%s, %s sees %s of %s" % (
        kind, g.size, g.duration, " delay %s" % g.delay_after if g.delay_after else "", r.panda, r.visible, sorted(g.axes),
    )
    args = dict(generator=g)
    breakpoints = None
    if g.size > 3 and not seek and rng.random() < 0.2:
        a = rng.randrange(1, g.size)
        args["breakpoints"] = breakpoints = [a, g.size - a]
        m.count("breakpoints")
    r.segments.clear()
    moved = list(g.axes)
    full = mr.Scan(g, 0, g.size)
    full.axes = [x for x in full.axes if x in moved]
    able = r.panda == "gate" or not moved or (any(x in r.visible for x in moved) and possible(r, full))
    unsure = r.panda == "pcomp" and moved and doubtful(r, full)
    resp = r.wait(r.post("configure", **args))
    if declined(m, resp, longest(r, g)) or (unsure and not ok(resp)):
        return False
    if able and not unsure:
        m.require(ok(resp), "configure", lambda: "%s: configure: %s" % (what, resp))
    elif not ok(resp):
        m.count("refused")
        return False
    state = lambda: r.get("state", "value")
    for i in range(len(breakpoints) if breakpoints else 1):
        if seek:
            for _ in range(rng.choice([1, 2])):
                box = r.post("run") if rng.random() < 0.7 else None
                mh.yields(rng.choice([5, 60, 150, 400]))
                if state() == "Finished":
                    break
                to = rng.randrange(0, r.generator.size)
                if r.panda == "pcomp" and moved:
                    rest = mr.Scan(g, to, g.size)
                    rest.axes = [x for x in rest.axes if x in moved]
                    able = able and possible(r, rest)
                    unsure = unsure or doubtful(r, rest)
                resp = r.wait(r.post("pause", lastGoodStep=to))
                if not ok(resp):
                    mh.settle(lambda: state() in ("Finished", "Armed", "Paused", "Fault"), 5000)
                    break
                m.count("seeks")
                if state() == "Paused":
                    r.segments.clear()
                    r.wait(r.post("resume"))
            if state() == "Armed":
                r.segments.clear()
                resp = r.wait(r.post("run"))
            else:
                mh.settle(lambda: state() in ("Finished", "Fault"), 60000)
            good = state() == "Finished"
            if state() == "Fault":
                # Whichever of the requests it was that failed
                resp = Failed(r.get("health", "value"))
        else:
            resp = r.wait(r.post("run"))
            good = ok(resp)
        if declined(m, resp, longest(r, g)) or (unsure and not good):
            return False
        if not able and not good:
            m.count("refused")
            return False
        m.require(good, "run", lambda: "%s: run: %s %s" % (what, resp, state()))
    m.require(able or unsure or seek, "refuse", lambda: "%s: ran" % what)
    for seg in r.segments[-1:] if seek else r.segments:
        seg = dict(seg)
        seg["axes"] = [x for x in seg["axes"] if x in moved]
        judge(m, r, seg, "%s %s" % (what, seg["segment"]), least, limit)
    m.distinct("scan", kind, r.panda)
    m.count("scans")
    return True


def small_tables(m, r, rng):
    limit, least = 4096, doublebuffer.MIN_TABLE_DURATION
    if rng.random() < 0.6 and hasattr(doublebuffer, "SEQ_TABLE_ROWS"):
        limit = rng.choice([5, 8, 17, 60])
        patch(m, doublebuffer, "SEQ_TABLE_ROWS", limit)
        r.seqs.limit = limit
    if rng.random() < 0.5:
        patch(m, pandaseqtriggerpart, "BATCH_SIZE", rng.choice([2, 3, 7, 20]))
    return least, limit


def scans(m, rng, idx):
    r = make_rig(m, rng)
    least, limit = small_tables(m, r, rng)
    for _ in range(rng.choice([1, 2])):
        kinds = ["still"] if rng.random() < 0.1 else None
        if not scan_once(m, r, rng, rng.choice([1, 2, 7, 20, 60, 150]), least, limit, durations=[0.0005, 0.01, 0.1, 0.5, 3.0], kinds=kinds):
            break


def seeks(m, rng, idx):
    r = make_rig(m, rng)
    least, limit = small_tables(m, r, rng)
    scan_once(m, r, rng, rng.choice([7, 20, 60]), least, limit, seek=True)


def big(m, rng, idx):
    r = make_rig(m, rng)
    size = rng.choice([4096, 4097, 5000, 5001, 8192, 9000, 12000, 20000])
    scan_once(m, r, rng, size, doublebuffer.MIN_TABLE_DURATION, 4096, kinds=["line", "grid", "grid", "roi", "array"], durations=[0.0005, 0.005, 0.02])
    m.count("big_scans")


check = vmon.Check(
    "C20",
    [
        vmon.Scenario("tables", tables, quick=100, thorough=3000, timeout=240),
        vmon.Scenario("scans", scans, quick=220, thorough=7000, timeout=240),
        vmon.Scenario("big", big, quick=10, thorough=300, timeout=600),
        vmon.Scenario("seeks", seeks, quick=70, thorough=2000, timeout=240),
    ],
    rule="Distinct (axes, mode, turnaround, encoders) of rigs, kinds of scan, numbers of tables played with kinds of row, shapes of segment",
    required=["tables", "switches", "rows_compared", "double_buffers_refilled", "rewrites", "points_judged", "gaps", "blinds_judged", "not_blind", "seeks", "breakpoints", "big_scans", "refused"],
    level="exploration",
    assumptions=["Sequencers hand over after the last row of a table, losing 6 ticks, as the hardware does"],
)
if __name__ == "__main__":
    check.main()
