"""Shared runtime-monitoring machinery.

A check is a list of *scenarios*.  A scenario is a function ``fn(m, rng, idx)``
that drives the real malcolm code with a workload drawn from ``rng`` while the
monitor ``m`` watches what comes out.  Every (scenario, idx) pair is one *unit*:
it is run in a worker subprocess (cothread keeps global state, so processes are
cheap insurance), it reports how many events its oracle judged, and any
violation is re-run in a fresh process before it is believed.

Verdicts
  exit 0  every unit held (KNOWN-FINDING lines for listed findings)
  exit 1  + "VIOLATION property=<id> replay=<path>"
  exit 2  no answer (monitors not reached / machinery broken)
"""
import argparse
import hashlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.json")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)


class Stop(Exception):
    """Raised by m.require() to stop a unit after recording a violation"""


class Monitor:
    def __init__(self, prop, scenario, idx):
        self.prop, self.scenario, self.idx = prop, scenario, idx
        self.counts = {}
        self.keys = set()
        self.samples = []
        self.violations = []
        self._tmp = []
        self._cleanup = []

    # -- observation bookkeeping
    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def distinct(self, *key):
        """Note a distinct non-trivial case (hash of what was observed)"""
        h = hashlib.sha1(repr(key).encode()).hexdigest()[:16]
        self.keys.add(h)

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(json.loads(json.dumps(obj, default=str)))

    # -- oracle
    def fail(self, kind, msg, **detail):
        if len(self.violations) < 20:
            self.violations.append(
                dict(
                    kind=kind,
                    msg=str(msg)[:2000],
                    detail=json.loads(json.dumps(detail, default=str)),
                )
            )

    def check(self, cond, kind, msg="", **detail):
        """Judge one observation"""
        self.count("judged")
        if not cond:
            self.fail(kind, msg() if callable(msg) else msg, **detail)
        return bool(cond)

    def require(self, cond, kind, msg="", **detail):
        if not self.check(cond, kind, msg, **detail):
            raise Stop()

    # -- resources
    def tmpdir(self):
        d = tempfile.mkdtemp(prefix="vmon-")
        self._tmp.append(d)
        return d

    def defer(self, fn, *args):
        self._cleanup.append((fn, args))

    def close(self):
        for fn, args in reversed(self._cleanup):
            try:
                fn(*args)
            except Exception:
                pass
        for d in self._tmp:
            shutil.rmtree(d, ignore_errors=True)


class Scenario:
    def __init__(self, name, fn, quick, thorough, timeout=60, batch=None):
        self.name, self.fn = name, fn
        self.quick, self.thorough = quick, thorough
        self.timeout = timeout
        self.batch = batch


def unit_rng(seed, prop, scenario, idx):
    return random.Random("%s/%s/%s/%s" % (seed, prop, scenario, idx))


def run_unit(check, name, idx, seed):
    m = Monitor(check.prop, name, idx)
    rng = unit_rng(seed, check.prop, name, idx)
    t0 = time.time()
    try:
        check.by_name[name].fn(m, rng, idx)
    except Stop:
        pass
    except Exception as e:
        m.fail(
            "unexpected-exception",
            "%s: %s" % (type(e).__name__, e),
            traceback=traceback.format_exc(),
        )
    finally:
        m.close()
    return dict(
        scenario=name,
        idx=idx,
        counts=m.counts,
        keys=sorted(m.keys),
        samples=m.samples,
        violations=m.violations,
        wall=round(time.time() - t0, 3),
    )


class Check:
    def __init__(
        self, prop, scenarios, rule, required=(), level="exploration", assumptions=()
    ):
        self.prop = prop
        self.scenarios = scenarios
        self.by_name = {s.name: s for s in scenarios}
        self.rule = rule
        self.required = list(required)
        self.level = level
        self.assumptions = list(assumptions)

    # ---------------------------------------------------------------- worker
    def worker(self, seed, units, out):
        import logging

        logging.disable(logging.CRITICAL)
        devnull = open(os.devnull, "w")
        with open(out, "a", buffering=1) as f:
            for name, idx in units:
                f.write(json.dumps(dict(start=[name, idx])) + "\n")
                sys.stderr = devnull
                try:
                    res = run_unit(self, name, idx, seed)
                finally:
                    sys.stderr = sys.__stderr__
                f.write(json.dumps(dict(result=res)) + "\n")
                if res["violations"]:
                    # State may be contaminated, let the parent start afresh
                    break
            f.flush()
        os._exit(0)

    # ---------------------------------------------------------------- parent
    def main(self):
        ap = argparse.ArgumentParser()
        ap.add_argument("--worker")
        ap.add_argument("--units")
        ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
        ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
        ap.add_argument("--only", help="scenario[:idx] to run in this process")
        ap.add_argument("--replay", help="replay file to run again")
        ap.add_argument("--scale", type=float, default=1.0)
        a = ap.parse_args()
        if a.worker:
            self.worker(a.seed, json.loads(a.units), a.worker)
            return
        if a.replay:
            r = json.load(open(a.replay))
            a.seed, a.only = r["seed"], "%s:%s" % (r["scenario"], r["idx"])
        if a.only:
            name, _, idx = a.only.partition(":")
            n = self.by_name[name].quick
            idxs = [int(idx)] if idx else range(n)
            bad = 0
            for i in idxs:
                res = run_unit(self, name, i, a.seed)
                print(json.dumps({k: v for k, v in res.items() if k != "keys"}))
                for v in res["violations"]:
                    print(v["kind"], v["msg"])
                    print(v["detail"].get("traceback", v["detail"]))
                bad += bool(res["violations"])
            sys.stdout.flush()
            os._exit(1 if bad else 0)
        tier = a.tier if a.tier in ("quick", "thorough") else "quick"
        sys.exit(self.run(a.seed, tier, a.scale))

    def run(self, seed, tier, scale=1.0):
        t0 = time.time()
        nproc = min(8, os.cpu_count() or 1)
        units = []
        for s in self.scenarios:
            n = max(1, int((s.quick if tier == "quick" else s.thorough) * scale))
            units += [(s.name, i) for i in range(n)]
        # Deal units round robin so each worker gets a similar mix
        order = list(range(len(units)))
        random.Random("order/%s" % seed).shuffle(order)
        chunk = max(1, min(40, len(units) // (nproc * 2) or 1))
        shuffled = [units[i] for i in order]
        queue = [shuffled[i : i + chunk] for i in range(0, len(shuffled), chunk)]
        work = tempfile.mkdtemp(prefix="vmon-run-")
        try:
            results, broken = self._drive(seed, queue, work, nproc)
            confirmed, unrepro = self._confirm(seed, results, broken, work, nproc)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        return self._report(
            seed, tier, t0, len(units), results, confirmed, unrepro, broken
        )

    def _spawn(self, seed, units, out):
        env = dict(os.environ)
        env.update(
            PYTHONDONTWRITEBYTECODE="1",
            PYTHONHASHSEED="0",
            MPLBACKEND="Agg",
            HOME="/root",
            LANG="C.UTF-8",
            PYTHONPATH=REPO + os.pathsep + os.path.join(VERIF, "lib"),
        )
        for v in ("EPICS_CA_ADDR_LIST", "EPICS_PVA_ADDR_LIST"):
            env[v] = "127.0.0.1"
        return subprocess.Popen(
            [
                PYTHON,
                os.path.abspath(sys.argv[0]),
                "--worker",
                out,
                "--units",
                json.dumps(units),
                "--seed",
                str(seed),
            ],
            env=env,
            cwd="/tmp",
            stdin=subprocess.DEVNULL,
            stdout=subprocess.DEVNULL,
            stderr=open(out + ".err", "w"),
            start_new_session=True,
        )

    @staticmethod
    def _kill(p):
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()

    @staticmethod
    def _read(out):
        done, started = [], None
        if os.path.exists(out):
            with open(out) as f:
                for line in f:
                    try:
                        d = json.loads(line)
                    except ValueError:
                        continue
                    if "start" in d:
                        started = tuple(d["start"])
                    else:
                        done.append(d["result"])
                        started = None
        return done, started

    def _drive(self, seed, queue, work, nproc, patience=1.0):
        """Run chunks in parallel. Returns (results, broken): broken units
        are those that hung or crashed, as (unit, what, stderr)"""
        running, results, broken = [], [], []
        n = 0
        queue = list(queue)
        while queue or running:
            while queue and len(running) < nproc:
                units = queue.pop(0)
                out = os.path.join(work, "w%d.jsonl" % n)
                n += 1
                running.append(
                    dict(
                        p=self._spawn(seed, units, out),
                        units=[tuple(u) for u in units],
                        out=out,
                        size=-1,
                        since=time.time(),
                    )
                )
            time.sleep(0.02)
            for r in list(running):
                rc = r["p"].poll()
                hung = False
                if rc is None:
                    size = os.path.getsize(r["out"]) if os.path.exists(r["out"]) else 0
                    if size != r["size"]:
                        r["size"], r["since"] = size, time.time()
                        continue
                    _, started = self._read(r["out"])
                    limit = 60
                    if started:
                        limit = self.by_name[started[0]].timeout
                    if time.time() - r["since"] < limit * patience:
                        continue
                    hung = True
                    self._kill(r["p"])
                running.remove(r)
                done, started = self._read(r["out"])
                results += done
                seen = {(d["scenario"], d["idx"]) for d in done}
                if started:
                    err = ""
                    try:
                        err = open(r["out"] + ".err").read()[-2000:]
                    except OSError:
                        pass
                    broken.append((started, "hang" if hung else "crash", err))
                    seen.add(started)
                rest = [u for u in r["units"] if u not in seen]
                if rest and not seen:
                    # Worker could not even start
                    err = open(r["out"] + ".err").read()[-2000:]
                    broken.append((rest[0], "hang" if hung else "crash", err))
                    rest = rest[1:]
                if rest:
                    queue.append(rest)
                # Enough evidence, no need to grind through a broken tree
                nbad = 6 * len(broken) + sum(
                    bool(self._unknown(x["violations"])) for x in results
                )
                if nbad >= 12:
                    queue = []
        return results, broken

    def _confirm(self, seed, results, broken, work, nproc):
        """Re-run everything suspicious in fresh processes"""
        suspects = []
        for r in results:
            if r["violations"]:
                suspects.append(((r["scenario"], r["idx"]), r["violations"]))
        for unit, what, err in broken:
            suspects.append(
                (unit, [dict(kind=what, msg="%s %s" % (what, err[-400:]), detail={})])
            )
        confirmed, unrepro = [], []
        # A handful is enough, and hangs are slow to confirm
        listed = [s for s in suspects if not self._unknown(s[1])]
        suspects = [s for s in suspects if self._unknown(s[1])]
        clean = [s for s in suspects if s[1][0]["kind"] not in ("hang", "crash")]
        dirty = [s for s in suspects if s[1][0]["kind"] in ("hang", "crash")]
        # One for each known finding
        for k in self._known():
            found = [s for s in listed if any(k in self._hits(v) for v in s[1])]
            confirmed += found[:1]
        for unit, viols in clean[:6] + dirty[: 1 if clean else 2]:
            again = []
            for attempt in range(3 if unit in [s[0] for s in clean] else 2):
                sub = os.path.join(work, "c%s_%s_%d" % (unit[0], unit[1], attempt))
                os.makedirs(sub)
                res, brk = self._drive(seed, [[unit]], sub, 1, patience=1.5)
                if brk:
                    again = [dict(kind=b[1], msg=b[2][-400:], detail={}) for b in brk]
                elif res:
                    again = res[0]["violations"]
                if again:
                    break
            if again:
                confirmed.append((unit, again))
            else:
                unrepro.append((unit, viols))
        return confirmed, unrepro

    def _known(self):
        try:
            return [
                k
                for k in json.load(open(KNOWN))["findings"]
                if k["property"] == self.prop and k.get("status") == "known"
            ]
        except (OSError, ValueError):
            return []

    def _hits(self, v):
        """The known findings that this is one of"""
        return [
            k
            for k in self._known()
            if k["kind"] == v["kind"] and k.get("match", "") in v["msg"]
        ]

    def _unknown(self, violations):
        return [v for v in violations if not self._hits(v)]

    def _report(
        self, seed, tier, t0, planned, results, confirmed, unrepro, broken
    ):
        counts, keys, samples, per = {}, set(), [], {}
        for r in results:
            for k, v in r["counts"].items():
                counts[k] = counts.get(k, 0) + v
            keys.update(r["keys"])
            s = per.setdefault(r["scenario"], dict(units=0, wall=0.0))
            s["units"] += 1
            s["wall"] = round(s["wall"] + r["wall"], 2)
            if r["samples"] and sum(x["scenario"] == r["scenario"] for x in samples) < 2:
                samples.append(
                    dict(scenario=r["scenario"], idx=r["idx"], case=r["samples"][0])
                )
        nviol, printed_known, lines = 0, set(), []
        rdir = os.path.join(EVIDENCE, "replay")
        for unit, viols in confirmed:
            unknown = []
            for v in viols:
                hit = self._hits(v)
                if hit:
                    for k in hit:
                        if k["what"] not in printed_known:
                            printed_known.add(k["what"])
                            print(
                                "KNOWN-FINDING: property=%s %s" % (self.prop, k["what"])
                            )
                else:
                    unknown.append(v)
            if unknown:
                nviol += 1
                os.makedirs(rdir, exist_ok=True)
                path = os.path.join(
                    rdir, "%s-%s-%s-%s.json" % (self.prop, unit[0], unit[1], seed)
                )
                with open(path, "w") as f:
                    json.dump(
                        dict(
                            property=self.prop,
                            seed=seed,
                            scenario=unit[0],
                            idx=unit[1],
                            violations=unknown,
                            how="%s %s --replay %s" % (PYTHON, sys.argv[0], path),
                        ),
                        f,
                        indent=1,
                    )
                for v in unknown[:3]:
                    print(
                        "  %s %s:%s: [%s] %s"
                        % (self.prop, unit[0], unit[1], v["kind"], v["msg"][:400])
                    )
                lines.append("VIOLATION property=%s replay=%s" % (self.prop, path))
        missing = [c for c in self.required if not counts.get(c)]
        evidence = dict(
            property=self.prop,
            tier=tier,
            seed=int(seed) if str(seed).isdigit() else 0,
            level=self.level,
            coverage=dict(
                evaluations=len(results),
                distinct_nontrivial=len(keys),
                rule=self.rule,
                samples=samples[:6],
                planned_units=planned,
                oracle_judgements=counts.get("judged", 0),
                observed={k: v for k, v in sorted(counts.items()) if k != "judged"},
                scenarios=per,
                unreproduced=[
                    dict(unit=list(u), first=v[0] if v else None) for u, v in unrepro
                ],
            ),
            assumptions=self.assumptions,
            wall_s=round(time.time() - t0, 2),
            violations=nviol,
        )
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, self.prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
        for line in lines[:5]:
            print(line)
        print(
            "%s %s seed=%s: %d units, %d judgements, %d distinct, %d violations, "
            "%d unreproduced, %.1fs"
            % (
                self.prop,
                tier,
                seed,
                len(results),
                counts.get("judged", 0),
                len(keys),
                nviol,
                len(unrepro),
                evidence["wall_s"],
            )
        )
        if nviol:
            return 1
        if missing or len(results) < planned * 0.9 - 1:
            if not (confirmed or unrepro):
                print("INCONCLUSIVE %s: not observed: %s" % (self.prop, missing))
                return 2
            if missing:
                print("INCONCLUSIVE %s: not observed: %s" % (self.prop, missing))
                return 2
        return 0
