"""Check driver:  python3-vt -m px.run C09 [--tier quick|thorough]."""

from __future__ import annotations

import argparse
import faulthandler
import hashlib
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import random
import signal
import subprocess
import sys
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

from px import registry  # noqa: E402

REPO = os.environ.get("PX_REPO", "/repo")
VENV_PY = os.environ.get("PX_PYTHON", "/opt/venv/bin/python")
JOBS = int(os.environ.get("PX_JOBS", str(min(8, os.cpu_count() or 8))))
SLICE_S = 0.7
PATH_TIMEOUT_S = 60
VARIANTS = ["model", "g1", "canon", "g2", "zero", "g3"]
MORE = [f"g{k}" for k in range(4, 60)]
# Development: what a check could not decide makes it fail (exit 2).
STRICT = os.environ.get("PX_STRICT") == "1"


# --------------------------------------------------------------------------
# worker
# --------------------------------------------------------------------------


def _alarm(*_):
    from px.values import PathTimeout

    raise PathTimeout()


def explore_slice(task, prefixes, tier, first, seed):
    import gc

    from px import engine

    gc.collect()
    st = engine.Stats()
    out = {"violations": [], "odd": [], "samples": [], "left": []}
    stack = list(prefixes)
    t0 = time.perf_counter()
    n = 0
    rng = random.Random(f"{seed}/{len(prefixes)}/{prefixes[:1]}")
    while stack:
        if n and time.perf_counter() - t0 > SLICE_S:
            break
        p = stack.pop()
        n += 1
        want = first or rng.random() < 0.05
        signal.setitimer(signal.ITIMER_REAL, PATH_TIMEOUT_S)
        try:
            r = engine.run_path(
                task.fn, task.params, p, st, tier, profile=first, want_sample=want
            )
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        first = False
        stack.extend(r.alts)
        for v in r.violations:
            out["violations"].append(v)
        if r.status in ("unsupported", "nondet", "timeout"):
            out["odd"].append([r.status, r.detail, r.model])
        if r.sample is not None and len(out["samples"]) < 3:
            out["samples"].append(r.sample)
        if out["violations"]:
            break
    out["left"] = stack
    out["stats"] = st
    out["n"] = n
    return out


def worker(conn, tasks, tier, seed):
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    from px import engine  # noqa: F401

    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    while True:
        msg = conn.recv()
        if msg is None:
            return
        ti, prefixes, first = msg
        try:
            conn.send((ti, explore_slice(tasks[ti], prefixes, tier, first, seed)))
        except BaseException as e:  # noqa: BLE001
            conn.send((ti, {"error": "".join(traceback.format_exception(e))[-3000:]}))
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                return


# --------------------------------------------------------------------------
# replay
# --------------------------------------------------------------------------


def replay_env():
    env = dict(os.environ)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PX_REPO"] = REPO
    env["PYTHONPATH"] = os.path.join(REPO, "src")
    env.pop("PYTHONHASHSEED", None)
    return env


def hangs_in_package(err):
    """The innermost repository or harness frame of a timed out run is the package's."""
    for line in err[err.rindex("Timeout (") :].splitlines():
        if "/harness/" in line or "/px/" in line or "/site-packages/" in line:
            return False
        if "/protosym/" in line:
            return True
    return False


def replay(jobs, timeout=300):
    """Run jobs on the real code; list of result lists (None if it died)."""
    try:
        p = subprocess.run(
            [VENV_PY, os.path.join(VERIF, "px", "replay.py"), "-"],
            input=json.dumps({"jobs": jobs}),
            capture_output=True,
            text=True,
            env=replay_env(),
            cwd="/",
            timeout=timeout,
        )
        text, err, rc = p.stdout, p.stderr, p.returncode
    except subprocess.TimeoutExpired as e:
        text = (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or "")
        err, rc = "replay timed out", "timeout"
    res = []
    for line in text.splitlines():
        try:
            res.append(json.loads(line))
        except ValueError:
            pass
    while len(res) < len(jobs):
        res.append(None)
    return res, rc, err


# --------------------------------------------------------------------------
# master
# --------------------------------------------------------------------------


class Master:
    def __init__(self, check, tier, seed, budget):
        self.check = check
        self.tier = tier
        self.seed = seed
        self.budget = budget
        self.tasks = check.thorough if tier == "thorough" else check.quick
        self.t0 = time.time()
        from px import engine

        self.stats = [engine.Stats() for _ in self.tasks]
        self.queue = []  # (task, prefixes, first)
        self.pending = [0] * len(self.tasks)
        self.samples = [[] for _ in self.tasks]
        self.unconfirmed = []
        self.unconfirmed_all = []
        self.skipped_by_task = {}
        self.odd = []
        self.confirmed = None
        self.errors = []
        self.incomplete = set()
        self.validated = 0
        self.mismatch = []
        self.tried = set()
        self.skipped_violations = 0
        self.task_t = [0.0] * len(self.tasks)
        self.active = [0] * len(self.tasks)
        self.points, self.runs = [], []
        self.pool = ThreadPoolExecutor(2)

    def spawn(self, ctx):
        a, b = ctx.Pipe()
        p = ctx.Process(
            target=worker, args=(b, self.tasks, self.tier, self.seed), daemon=True
        )
        p.start()
        b.close()
        return p, a

    def next_item(self):
        """The task that had the least time so far goes next, depth first."""
        best, at = None, -1
        for i in range(len(self.queue) - 1, -1, -1):
            ti = self.queue[i][0]
            t = self.task_t[ti] + 0.2 * self.active[ti]
            if best is None or t < best:
                best, at = t, i
        return at

    def explore(self):
        ctx = mp.get_context("fork")
        for i in range(len(self.tasks) - 1, -1, -1):
            self.queue.append((i, [[]], True))
            self.pending[i] = 1
        idle, busy = [], {}
        for _ in range(JOBS):
            idle.append(self.spawn(ctx))
        try:
            while (self.queue or busy) and self.confirmed is None:
                while self.queue and idle:
                    item = self.queue.pop(self.next_item())
                    p, c = idle.pop()
                    c.send(item)
                    busy[c] = (p, item, time.time())
                    self.active[item[0]] += 1
                ready = mpc.wait(list(busy), timeout=5)
                for c in ready:
                    p, item, ts = busy.pop(c)
                    self.active[item[0]] -= 1
                    try:
                        ti, out = c.recv()
                    except (EOFError, ConnectionResetError, OSError):
                        p.join(1)
                        self.errors.append(
                            f"worker died (exit {p.exitcode}) in {self.tasks[item[0]].name}"
                        )
                        self.pending[item[0]] -= len(item[1])
                        self.incomplete.add(item[0])
                        idle.append(self.spawn(ctx))
                        continue
                    self.task_t[ti] += time.time() - ts
                    idle.append((p, c))
                    self.absorb(ti, item, out)
                self.run_points()
                if time.time() - self.t0 > self.budget:
                    for ti, ps, _ in self.queue:
                        self.incomplete.add(ti)
                    for p, item, _ in busy.values():
                        self.incomplete.add(item[0])
                    break
        finally:
            for p, c in idle + [(p, c) for c, (p, _, _) in busy.items()]:
                p.kill()
        self.run_points(wait=True)

    def absorb(self, ti, item, out):
        self.pending[ti] -= len(item[1])
        if "error" in out:
            self.errors.append(f"{self.tasks[ti].name}: {out['error']}")
            self.incomplete.add(ti)
            return
        self.stats[ti].merge(out["stats"])
        left = out["left"]
        self.pending[ti] += len(left)
        if left:
            # many small batches early, larger ones when there is plenty
            k = max(1, len(left) // 12)
            for i in range(0, len(left), k):
                self.queue.append((ti, left[i : i + k], False))
        for s in out["samples"]:
            if len(self.samples[ti]) < 40:
                self.samples[ti].append(s)
        for v in out["violations"]:
            self.consider(ti, v)
        for o in out["odd"]:
            self.odd.append((ti, *o))
            if o[2] is not None:
                self.fallback(ti, o)

    def job(self, ti, inputs, variants):
        t = self.tasks[ti]
        return {
            "property": self.check.pid,
            "harness": t.name,
            "params": t.params,
            "inputs": inputs,
            "variants": variants,
            "seed": self.seed,
            "tier": self.tier,
        }

    def consider(self, ti, v):
        """Replay a counterexample on the real code."""
        if self.confirmed is not None:
            return
        key = (ti, v["label"])
        n = sum(1 for k in self.tried if k[:2] == key)
        if n >= 12:
            self.skipped_violations += 1
            if len(self.unconfirmed_all) < 2000:
                self.unconfirmed_all.append((ti, v))
            self.skipped_by_task[ti] = self.skipped_by_task.get(ti, 0) + 1
            if self.skipped_by_task[ti] > 100:
                # broken here for certain in the encoding: to the search
                self.incomplete.add(ti)
                self.queue = [q for q in self.queue if q[0] != ti]
            return
        self.tried.add((*key, n))
        job = self.job(ti, v["inputs"], VARIANTS)
        res, rc, err = replay([job])
        self.judge(ti, v, job, res[0], rc, err)

    def judge(self, ti, v, job, rs, rc, err):
        bad = None
        if rs is None:
            hang = "Timeout (" in err and hangs_in_package(err)
            if hang or (isinstance(rc, int) and rc < 0):
                bad = {"status": "died", "failures": [["process-died", f"{rc}: {err[-800:]}"]]}
        else:
            for r in rs:
                if r["status"] in ("fail", "error"):
                    bad = r
                    break
        if bad is not None:
            if v is None:
                v = {
                    "label": bad["failures"][0][0],
                    "detail": bad["failures"][0][1],
                    "inputs": job["inputs"],
                }
            self.confirmed = {"task": ti, "violation": v, "job": job, "replay": bad}
        elif v is None:
            pass
        elif not v["label"].startswith("unexpected-exception"):
            self.unconfirmed.append((ti, v, rs, err[-500:] if rs is None else ""))
            self.unconfirmed_all.append((ti, v))
        else:
            self.odd.append((ti, "engine-exception", v["detail"], v["inputs"]))

    def fallback(self, ti, o):
        """A path the encoding could not follow: run one point of it."""
        n = sum(1 for x in self.odd if x[0] == ti)
        if n <= 40:
            self.points.append((ti, self.job(ti, o[2], VARIANTS)))

    def run_points(self, wait=False):
        """Start and collect the runs of single points, a few at a time."""
        end = time.time() + 90
        while True:
            while self.points and len(self.runs) < 2:
                batch, self.points = self.points[:6], self.points[6:]
                self.runs.append((self.pool.submit(replay, [j for _, j in batch]), batch))
            for run in [r for r in self.runs if r[0].done()]:
                self.runs.remove(run)
                (res, rc, err), batch = run[0].result(), run[1]
                for k, ((ti, job), rs) in enumerate(zip(batch, res)):
                    if self.confirmed is None:
                        self.judge(ti, None, job, rs, rc, err)
                    if rs is None:
                        self.points.extend(batch[k + 1 :])
                        break
            if not wait or not (self.points or self.runs) or self.confirmed is not None:
                return
            if time.time() > end:
                self.errors.append(f"{len(self.points)} single points were not run in time")
                return
            time.sleep(0.05)

    def search(self):
        """Counterexamples whose model values did not reproduce: other values."""
        from multiprocessing.pool import ThreadPool

        found = list(self.unconfirmed_all)
        random.Random(self.seed).shuffle(found)
        first, rest, seen = [], [], set()
        for ti, v in found:
            k = (ti, v["label"])
            (rest if k in seen else first).append((ti, v))
            seen.add(k)
        todo = (first + rest)[:96]
        jobs = [self.job(ti, v["inputs"], MORE) for ti, v in todo]
        t0 = time.time()

        def run(job):
            if self.confirmed is not None or time.time() - t0 > 150:
                return None
            return replay([job])

        with ThreadPool(JOBS) as pool:
            for (ti, v), job, out in zip(todo, jobs, pool.imap(run, jobs)):
                if out is None or self.confirmed is not None:
                    continue
                res, rc, err = out
                keep, self.unconfirmed = self.unconfirmed, []
                self.judge(ti, v, job, res[0], rc, err)
                self.unconfirmed = keep

    def validate(self):
        jobs, meta = [], []
        rng = random.Random(self.seed)
        per = 4 if self.tier == "quick" else 12
        for ti, ss in enumerate(self.samples):
            ss = list(ss)
            rng.shuffle(ss)
            for s in ss[:per]:
                jobs.append(self.job(ti, s["inputs"], ["model"]))
                meta.append((ti, s))
        if not jobs:
            return
        res, rc, err = replay(jobs, timeout=400)
        for (ti, s), job, rs in zip(meta, jobs, res):
            if rs is None:
                self.mismatch.append((ti, f"replay process ended early ({rc}): {err[-400:]}", s))
                continue
            r = rs[0]
            if r["status"] in ("fail", "error"):
                v = {
                    "label": r["failures"][0][0],
                    "detail": r["failures"][0][1],
                    "inputs": s["inputs"],
                }
                self.confirmed = {"task": ti, "violation": v, "job": job, "replay": r}
                return
            if r["status"] != "ok":
                self.mismatch.append((ti, f"status {r['status']} {r.get('why')}", s))
            elif not matches(s["observations"], r["observations"]):
                self.mismatch.append(
                    (ti, f"observations {r['observations']} != {s['observations']}", s)
                )
            else:
                self.validated += 1


def matches(a, b):
    if a == "?" or (isinstance(a, str) and "<?>" in a):
        return True
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(matches(x, y) for x, y in zip(a, b))
    return a == b


def write_replay(check, conf):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    job = dict(conf["job"])
    job["variants"] = [conf["replay"].get("variant", "model")]
    job["violation"] = conf["violation"]
    job["replayed"] = conf["replay"]
    job["how"] = f"{VENV_PY} {VERIF}/px/replay.py <this file>   (PYTHONPATH={REPO}/src)"
    text = json.dumps(job, indent=1, sort_keys=True)
    path = os.path.join(
        d, f"{check.pid}-{hashlib.sha256(text.encode()).hexdigest()[:12]}.json"
    )
    with open(path, "w") as fh:
        fh.write(text + "\n")
    return path


def write_evidence(check, tier, seed, cov, wall, nviol, assumptions):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = {
        "property": check.pid,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": cov,
        "assumptions": assumptions,
        "wall_s": round(wall, 2),
        "violations": nviol,
    }
    with open(os.path.join(d, check.pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
        fh.write("\n")


def main():
    faulthandler.register(signal.SIGUSR1)  # where a worker is (development)
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--only", default=None, help="only this harness")
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = args.tier
    budget = args.budget or (420 if tier == "quick" else 3000)
    t0 = time.time()
    check = registry.load(args.pid)
    if args.only:
        check.quick = [t for t in check.quick if t.name == args.only]
        check.thorough = [t for t in check.thorough if t.name == args.only]
    if check.custom is not None:
        sys.exit(check.custom(check, tier, seed, budget, args))
    m = Master(check, tier, seed, budget)
    m.explore()
    if m.confirmed is None:
        m.search()
    if m.confirmed is None:
        m.validate()
    rc = finish(check, m, tier, seed, t0, args.v)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)  # not waiting for replays under way


def finish(check, m, tier, seed, t0, verbose=False):
    from px import engine

    total = engine.Stats()
    per = []
    missing, partial = [], []
    for i, (t, s) in enumerate(zip(m.tasks, m.stats)):
        total.merge(s)
        per.append(
            {
                "harness": t.name,
                "params": t.params,
                "bound": t.bound,
                "paths": s.paths,
                "completed": s.completed,
                "cut_by_assumptions": s.pruned,
                "obligations": s.obligations,
                "queries": s.queries,
                "solver_s": round(s.solver_s, 2),
                "cpu_s": round(m.task_t[i], 1),
                "labels": s.labels,
                "complete": i not in m.incomplete,
            }
        )
        if m.confirmed is None:
            cut = i in m.incomplete or any(o[0] == i for o in m.odd)
            for lab in t.expect:
                if not s.labels.get(lab):
                    (partial if cut else missing).append(f"{t.name}: assertion {lab!r} never reached")
            if s.completed == 0:
                (partial if cut else missing).append(f"{t.name}: no path completed")
            if i in m.incomplete and t.core:
                partial.append(f"{t.name} {t.params}: exploration incomplete within the time budget")
    nodd = len(m.odd)
    if m.confirmed is None and total.paths and nodd > 0.5 * total.paths:
        partial.append(f"{nodd} of {total.paths} paths left the encoding")
    samples = []
    for ss in m.samples:
        samples.extend(ss[:1])
    if m.confirmed is not None:
        samples.insert(0, {"violation": m.confirmed["violation"]})
    if not samples:
        samples = [{"note": "no path completed"}]
    cov = {
        "states": total.paths,
        "transitions": total.branches + total.choices,
        "traces_validated_against_impl": m.validated,
        "samples": samples[:8],
        "exhaustive": m.confirmed is None and not m.incomplete and nodd == 0 and not m.errors,
        "states_are": "symbolic paths: each stands for all inputs satisfying its path condition",
        "transitions_are": "symbolic conditions and choice variables decided on those paths",
        "functions_encoded": sorted(total.functions),
        "bounds": [t.bound for t in m.tasks],
        "outside_the_bounds": check.outside,
        "queries_discharged": {
            "solver_queries": total.queries,
            "sat": total.sat,
            "unsat": total.unsat,
            "assertions": total.obligations,
            "assertions_discharged": total.discharged,
            "assertions_closed_by_rewriting": total.trivial,
        },
        "solver_time_s": round(total.solver_s, 2),
        "paths_left_undecided": {
            "count": nodd,
            "reasons": sorted({f"{o[1]}: {str(o[2])[:160]}" for o in m.odd})[:10],
        },
        "unconfirmed_counterexamples": len(m.unconfirmed),
        "per_harness": per,
    }
    assumptions = sorted(set(check.assumptions) | total.assumptions)
    wall = time.time() - t0
    write_evidence(check, tier, seed, cov, wall, 1 if m.confirmed else 0, assumptions)
    print(
        f"{check.pid} [{tier}] paths={total.paths} assertions={total.obligations} "
        f"queries={total.queries} solver={total.solver_s:.1f}s "
        f"validated={m.validated} undecided={nodd} wall={wall:.1f}s"
    )
    if verbose:
        for p in per:
            print(
                f"    {p['harness']:14} {str(p['params'])[:70]:70} paths={p['paths']}/{p['completed']}"
                f" cut={p['cut_by_assumptions']} q={p['queries']} cpu={p['cpu_s']}"
                f"{'' if p['complete'] else ' INCOMPLETE'}"
            )
        for o in m.odd[:10]:
            print("    odd:", m.tasks[o[0]].name, o[1], str(o[2])[-250:])
    if m.confirmed is not None:
        path = write_replay(check, m.confirmed)
        v, r = m.confirmed["violation"], m.confirmed["replay"]
        lab = (r.get("failures") or [[v["label"], ""]])[0]
        print(f"  {m.tasks[m.confirmed['task']].name}: {lab[0]}: {str(lab[1])[:1500]}")
        print(f"VIOLATION property={check.pid} replay={path}")
        return 1
    weak = False
    for ti, v, rs, err in m.unconfirmed[:5]:
        print(
            f"  UNCONFIRMED counterexample in {m.tasks[ti].name}: {v['label']} "
            f"{v['detail'][:600]} inputs={json.dumps(v['inputs'])[:800]} {err}"
        )
        weak = True
    for ti, why, s in m.mismatch[:5]:
        print(f"  MODEL MISMATCH in {m.tasks[ti].name}: {why[:1500]} inputs={json.dumps(s['inputs'])[:600]}")
        weak = True
    for e in m.errors[:5]:
        print("  ERROR", e)
        weak = True
    for x in partial:
        print("  DEGRADED", x)
    for x in missing:
        print("  INCONCLUSIVE", x)
        weak = True
    if nodd:
        print(f"  note: {nodd} paths left the encoding and were run at one point each")
    if weak and (STRICT or not total.completed):
        return 2
    if weak:
        print("  DEGRADED: not everything could be decided (see above); nothing explored breaks the property")
    return 0


if __name__ == "__main__":
    main()
