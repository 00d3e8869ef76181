"""Runner shared by all checks.

A check is a list of Targets. A Target pairs a Hypothesis strategy, which
draws one JSON-serialisable case, with a function run(case, ctx) that executes
the code in /repo on the case and compares it with an oracle. The runner
  * splits the cases of every target over forked worker processes, each with
    its own Hypothesis seed derived from VERIF_SEED (database off, no deadline),
  * counts cases, non-trivial distinct cases and class labels,
  * lets Hypothesis shrink the first failure of a shard and writes the shrunk
    case as a replay file, which `--replay FILE` runs without Hypothesis,
  * writes evidence/<id>.json and exits 0 (held), 1 (VIOLATION) or 2 (error).
"""
import contextlib
import hashlib
import io
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import boot


class Violation(Exception):
    """The oracle rejects what the code did."""


class CaseTimeout(BaseException):
    """The case used more CPU time than any working implementation needs."""


class StopShard(BaseException):
    pass


class _Discard(Exception):
    pass


class Target(object):
    def __init__(self, name, strategy, run, quick=200, thorough=None,
                 timeout_is_violation=False, cpu_limit=60.0, min_shards=8,
                 fixed=None):
        self.name = name
        self.strategy = strategy          # zero-argument callable
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.timeout_is_violation = timeout_is_violation
        self.cpu_limit = cpu_limit
        self.min_shards = min_shards
        self.fixed = fixed or []          # cases always run first


class Ctx(object):
    """Handed to run(); collects classification of the case."""

    def __init__(self, tmp):
        self.tmp = tmp
        self.labels = []
        self.nontrivial_flag = False
        self.stdout = ""
        self.stderr = ""

    def label(self, *names):
        self.labels.extend(names)

    def nontrivial(self, flag=True):
        self.nontrivial_flag = bool(self.nontrivial_flag or flag)

    def fail(self, msg, *args):
        raise Violation(msg % args if args else msg)

    def require(self, cond, msg, *args):
        if not cond:
            raise Violation(msg % args if args else msg)

    def skip(self, why):
        """The case is outside of what the property quantifies over, or gives
        no answer. Counted, never a violation."""
        self.labels.append("skipped:" + why)
        raise _Discard()

    def call(self, f, *args, **kwargs):
        """Run the code under test, its output is captured."""
        out, err = io.StringIO(), io.StringIO()
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                return f(*args, **kwargs)
        finally:
            self.stdout = out.getvalue()
            self.stderr = err.getvalue()


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def case_hash(case):
    return hashlib.sha1(canon(case).encode()).hexdigest()


@contextlib.contextmanager
def _cpu_alarm(seconds):
    def on_alarm(signum, frame):
        raise CaseTimeout()
    old = signal.signal(signal.SIGVTALRM, on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds, 5.0)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def _describe(exc):
    if isinstance(exc, Violation):
        return str(exc)
    tb = traceback.extract_tb(exc.__traceback__)
    where = ""
    for fr in reversed(tb):
        if fr.filename.startswith(boot.REPO + os.sep):
            where = " at %s:%d" % (os.path.relpath(fr.filename, boot.REPO), fr.lineno)
            break
    else:
        if tb:
            where = " at %s:%d" % (os.path.basename(tb[-1].filename), tb[-1].lineno)
    return "unexpected %s: %s%s" % (type(exc).__name__, str(exc)[:300], where)


def execute(target, case, tmp):
    """-> (ctx, failure message or None, inconclusive flag)"""
    ctx = Ctx(tmp)
    random.seed(20230509)
    try:
        import numpy as np
        np.random.seed(20230509)
    except ImportError:
        pass
    try:
        with _cpu_alarm(target.cpu_limit):
            target.run(case, ctx)
    except _Discard:
        return ctx, None, False
    except CaseTimeout:
        tv = target.timeout_is_violation
        if tv(case) if callable(tv) else tv:
            return ctx, "no result within %g s of CPU time" % target.cpu_limit, True
        ctx.labels.append("inconclusive:cpu_limit")
        return ctx, None, True
    except KeyboardInterrupt as e:
        return ctx, "unexpected KeyboardInterrupt%s" % (str(e.args)[:200]), False
    except (SystemExit, Exception) as e:  # noqa - any crash of the code is a failure
        return ctx, _describe(e), False
    return ctx, None, False


def _shard_seed(prop, target, shard, seed):
    h = hashlib.sha256(("%s|%s|%d|%d" % (prop, target, shard, seed)).encode()).digest()
    return int.from_bytes(h[:8], "big")


def _run_shard(prop, target, shard, nshards, count, seed, res_path, wall_deadline):
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = 25

    stats = {"evaluations": 0, "nontrivial": [], "labels": {}, "samples": [],
             "failure": None, "error": None, "budget_hit": False,
             "trivial_sample": None}
    tmp = tempfile.mkdtemp(prefix="vp_%s_" % prop)
    best = {"case": None, "msg": None, "stop": False}
    seen = set()
    start = time.time()

    def one(case):
        if time.time() > wall_deadline and best["case"] is None:
            stats["budget_hit"] = True
            return
        ctx, msg, hard = execute(target, case, tmp)
        stats["evaluations"] += 1
        for l in set(ctx.labels):
            stats["labels"][l] = stats["labels"].get(l, 0) + 1
        if ctx.nontrivial_flag and msg is None:
            h = case_hash(case)[:16]
            if h not in seen:
                seen.add(h)
                if len(stats["samples"]) < 2 and len(canon(case)) < 2500:
                    stats["samples"].append(case)
        if msg is not None:
            best["case"], best["msg"] = json.loads(canon(case)), msg
            if hard:
                raise StopShard()
            raise Violation(msg)

    try:
        for i, c in enumerate(target.fixed):
            if i % nshards == shard:
                one(c)

        @hypothesis.seed(_shard_seed(prop, target.name, shard, seed))
        @settings(max_examples=count, database=None, deadline=None,
                  report_multiple_bugs=False, print_blob=False,
                  phases=(Phase.generate, Phase.shrink),
                  suppress_health_check=list(HealthCheck))
        @hypothesis.given(target.strategy())
        def test(case):
            one(case)

        if count > 0:
            with contextlib.redirect_stdout(io.StringIO()):
                test()
    except StopShard:
        pass
    except BaseException as e:  # noqa
        if best["case"] is None:
            stats["error"] = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-3000:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if best["case"] is not None:
        stats["failure"] = {"case": best["case"], "msg": best["msg"]}
    stats["nontrivial"] = sorted(seen)
    stats["wall"] = time.time() - start
    with open(res_path + ".tmp", "w") as f:
        json.dump(stats, f)
    os.rename(res_path + ".tmp", res_path)


def _worker(prop, target, shard, nshards, count, seed, res_path, wall_deadline):
    """In a forked child: silence the file descriptors, run, leave."""
    code = 0
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    try:
        # runaway growth becomes a MemoryError of the case, not an ended sandbox
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    except (ImportError, ValueError, OSError):
        pass
    try:
        devnull = os.open(os.devnull, os.O_RDWR)
        os.dup2(devnull, 0)
        os.dup2(devnull, 1)
        err = os.open(res_path + ".err", os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        os.dup2(err, 2)
        _run_shard(prop, target, shard, nshards, count, seed, res_path, wall_deadline)
    except BaseException:  # noqa
        traceback.print_exc()
        code = 3
    finally:
        sys.stderr.flush()
        os._exit(code)


def run_check(prop, targets, rule, assumptions=(), argv=None):
    """Entry point of checks/<id>.py"""
    argv = list(sys.argv[1:] if argv is None else argv)
    if argv and argv[0] == "--replay":
        return _replay(prop, targets, argv[1])
    only = None
    if argv and argv[0] == "--only":
        only = argv[1].split(",")
        argv = argv[2:]
    tier = argv[0] if argv else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        print("unknown tier %r" % tier)
        return 2
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    scale = float(os.environ.get("VP_SCALE", "1"))
    t0 = time.time()
    budget = 600.0 if tier == "quick" else float(os.environ.get("VP_THOROUGH_S", "6000"))
    wall_deadline = t0 + budget
    workdir = tempfile.mkdtemp(prefix="vp_run_%s_" % prop)
    ncpu = min(8, os.cpu_count() or 1)

    jobs = []
    for t in targets:
        if only and t.name not in only:
            continue
        total = max(1, int(scale * (t.quick if tier == "quick" else t.thorough)))
        nsh = max(1, min(t.min_shards, total))
        for s in range(nsh):
            cnt = total // nsh + (1 if s < total % nsh else 0)
            jobs.append((t, s, nsh, cnt, os.path.join(workdir, "%s.%d.json" % (t.name, s))))
    # interleave the targets so that a slow one does not end up last
    jobs.sort(key=lambda j: j[1])
    running, queue, crashed = {}, list(jobs), []
    failed = False
    try:
        while queue or running:
            while queue and len(running) < ncpu and not failed:
                job = queue.pop(0)
                pid = os.fork()
                if pid == 0:
                    _worker(prop, job[0], job[1], job[2], job[3], seed, job[4], wall_deadline)
                running[pid] = job
            if failed and queue:
                queue = []
            if not running:
                break
            pid, status = os.wait()
            job = running.pop(pid, None)
            if job is None:
                continue
            if status != 0 or not os.path.exists(job[4]):
                crashed.append((job, status))
            else:
                with open(job[4]) as f:
                    r = json.load(f)
                if r["failure"] is not None:
                    failed = True
    finally:
        for pid in running:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass

    evals, nontriv, labels, samples, failures, errors = 0, set(), {}, [], [], []
    per_target, budget_hit = {}, False
    for t, s, nsh, cnt, path in jobs:
        if not os.path.exists(path):
            continue
        with open(path) as f:
            r = json.load(f)
        evals += r["evaluations"]
        pt = per_target.setdefault(t.name, {"evaluations": 0, "distinct_nontrivial": 0, "labels": {}})
        pt["evaluations"] += r["evaluations"]
        new = set(t.name + h for h in r["nontrivial"]) - nontriv
        pt["distinct_nontrivial"] += len(new)
        nontriv |= new
        for k, v in r["labels"].items():
            pt["labels"][k] = pt["labels"].get(k, 0) + v
            labels[k] = labels.get(k, 0) + v
        if r["samples"] and not any(x["target"] == t.name for x in samples):
            samples.append({"target": t.name, "case": r["samples"][0]})
        budget_hit = budget_hit or r["budget_hit"]
        if r["failure"] is not None:
            failures.append((t, r["failure"]))
        if r["error"]:
            errors.append((t.name, s, r["error"]))
    for job, status in crashed:
        path = job[4] + ".err"
        tail = open(path).read()[-2000:] if os.path.exists(path) else ""
        errors.append((job[0].name, job[1], "worker died with status %r\n%s" % (status, tail)))
    shutil.rmtree(workdir, ignore_errors=True)

    wall = time.time() - t0
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(nontriv), "rule": rule,
            "samples": samples[:12], "targets": per_target,
            "wall_budget_hit": budget_hit,
        },
        "assumptions": list(assumptions), "wall_s": round(wall, 2),
        "violations": len(failures),
    }
    os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(boot.VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)

    if failures:
        # the smallest one is the one to look at
        failures.sort(key=lambda tf: len(canon(tf[1]["case"])))
        t, fl = failures[0]
        rdir = os.path.join(boot.VERIF, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s-%s-%s.json" % (prop, t.name, case_hash(fl["case"])[:10]))
        with open(rp, "w") as f:
            json.dump({"property": prop, "target": t.name, "case": fl["case"],
                       "message": fl["msg"], "seed": seed,
                       "replay_with": "python3 checks/%s.py --replay %s" % (prop, rp)}, f, indent=1)
        print("%s: %s" % (t.name, fl["msg"]))
        print("case: %s" % canon(fl["case"])[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if errors:
        for name, s, e in errors[:3]:
            print("ERROR in the machinery: target %s shard %d: %s" % (name, s, e))
        return 2
    for name in sorted(per_target):
        p = per_target[name]
        print("%s: %d cases, %d distinct non-trivial %s" % (
            name, p["evaluations"], p["distinct_nontrivial"],
            json.dumps(p["labels"], sort_keys=True) if os.environ.get("VP_VERBOSE") else ""))
    print("%s held on %d cases (%d distinct non-trivial), %s tier, seed %d, %.1f s%s" % (
        prop, evals, len(nontriv), tier, seed, wall,
        ", wall budget hit (rest unexplored)" if budget_hit else ""))
    return 0


def _replay(prop, targets, path):
    with open(path) as f:
        rep = json.load(f)
    t = [x for x in targets if x.name == rep["target"]]
    if not t:
        print("no target %r" % rep["target"])
        return 2
    tmp = tempfile.mkdtemp(prefix="vp_replay_")
    try:
        ctx, msg, _ = execute(t[0], rep["case"], tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if msg is None:
        print("replay passes")
        return 0
    print(msg)
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1
