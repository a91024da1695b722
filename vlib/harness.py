"""Property-based checking harness.

A check module registers *subs* (sub-checks).  A sub is a Hypothesis strategy
producing JSON-able cases plus a plain function `fn(case, ctx)` which decides
one case and raises Violation when the property is broken.  Because cases are
JSON, a shrunk failure is written as a replay file and decided again without
Hypothesis (`./run.sh Cxx --replay FILE`).

Exit codes: 0 held, 1 violation (with a VIOLATION line), 2/3 harness errors.
"""
import hashlib
import importlib
import json
import os
import random
import signal
import sys
import tempfile
import time
import traceback
import warnings
import zlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
DEPS = os.path.join(ROOT, ".deps")
if os.path.isdir(DEPS) and DEPS not in sys.path:
    sys.path.append(DEPS)
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import numpy as np  # noqa: E402
import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, Verbosity, given, settings  # noqa: E402
from hypothesis import strategies as st  # noqa: E402,F401


class Violation(AssertionError):
    pass


class Abort(BaseException):
    """Raised through Hypothesis to stop a campaign (budget used up)."""


class NoAnswer(BaseException):
    """Raised by the alarm when one case takes far longer than any case should."""


CASE_SECONDS = int(os.environ.get("VERIF_CASE_SECONDS", "150"))


def _alarm(signum, frame):
    raise NoAnswer()


class Rejected(Exception):
    """The generated case lies outside the domain of the property."""


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def expect_close(got, want, msg, rtol=1e-6, atol=1e-8):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if got.shape != want.shape:
        raise Violation(f"{msg}: shape {got.shape} instead of {want.shape}")
    if not np.allclose(got, want, rtol=rtol, atol=atol, equal_nan=True):
        bad = ~np.isclose(got, want, rtol=rtol, atol=atol, equal_nan=True)
        i = tuple(int(x) for x in np.argwhere(bad)[0]) if got.ndim else ()
        raise Violation(
            f"{msg}: {int(bad.sum())} of {bad.size} values differ, e.g. at {i}: "
            f"{got[i]!r} instead of {want[i]!r}"
        )


class Ctx:
    def __init__(self):
        self.trivial = False
        self.events = []

    def nontrivial(self, flag=True):
        """A case counts as non-trivial only if every such call was true."""
        if not flag:
            self.trivial = True

    def event(self, name):
        self.events.append(str(name))

    @staticmethod
    def reject(why="outside the domain"):
        raise Rejected(why)


class Sub:
    def __init__(self, name, strategy, fn, quick, thorough, shards, rule, crashy):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough, self.shards = quick, thorough, shards
        self.rule, self.crashy = rule, crashy


class Check:
    def __init__(self, pid, rule, assumptions=None, needs_ext=False):
        self.pid, self.rule, self.subs = pid, rule, {}
        self.assumptions = assumptions or []
        self.needs_ext = needs_ext

    def sub(self, name, strategy, quick, thorough=None, shards=1, rule=None, crashy=False):
        def deco(fn):
            self.subs[name] = Sub(name, strategy, fn, quick, thorough or quick * 20,
                                  shards, rule, crashy)
            return fn
        return deco


def reset_rng():
    random.seed(12345)
    np.random.seed(12345)
    if "torch" in sys.modules:
        sys.modules["torch"].manual_seed(12345)


def decide(sub, case):
    """Run one case.  Returns (message or None, ctx, rejected)."""
    ctx = Ctx()
    reset_rng()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_SECONDS)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            sub.fn(json.loads(json.dumps(case)), ctx)
    except Rejected:
        return None, ctx, True
    except Violation as e:
        return str(e), ctx, False
    except NoAnswer:
        return f"no answer within {CASE_SECONDS} s", ctx, False
    except Exception as e:
        frames = traceback.extract_tb(e.__traceback__)
        inside = [f for f in frames if os.path.realpath(f.filename).startswith(
            os.path.realpath(REPO) + os.sep)]
        if inside or any(f.filename.endswith(".pyx") for f in frames):
            f = inside[-1] if inside else frames[-1]
            return (f"unexpected {type(e).__name__} on a valid input: {str(e)[:300]} "
                    f"(raised through {os.path.relpath(f.filename, REPO)}:{f.name})"), ctx, False
        if isinstance(e, (MemoryError, OSError)):
            raise
        # the check itself could not work with what the code under test answered
        f = frames[-1]
        return (f"the answer has an unexpected form: {type(e).__name__}: {str(e)[:300]} "
                f"(at {os.path.basename(f.filename)}:{f.lineno})"), ctx, False
    finally:
        signal.alarm(0)
    return None, ctx, False


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def campaign(pid, sub, seed, shard, n, time_budget, shrink_budget, out):
    """Run one shard of a sub (in a child process) and write the result."""
    res = dict(sub=sub.name, shard=shard, evaluations=0, rejected=0, nontrivial=[],
               events={}, samples=[], failure=None, stopped=None, error=None)
    t0 = time.time()
    state = dict(first=None, best=None)
    seen = set()
    case_file = out + ".case"

    def body(case):
        now = time.time()
        if state["first"] is None and now - t0 > time_budget:
            res["stopped"] = "time"
            raise Abort()
        if state["first"] is not None and now - state["first"] > shrink_budget:
            raise Abort()
        with open(case_file, "w") as f:
            f.write(canon(case))
        msg, ctx, rejected = decide(sub, case)
        res["evaluations"] += 1
        if rejected:
            res["rejected"] += 1
            return
        for e in ctx.events:
            res["events"][e] = res["events"].get(e, 0) + 1
        c = canon(case)
        if not ctx.trivial:
            h = hashlib.sha1(c.encode()).hexdigest()[:12]
            if h not in seen:
                seen.add(h)
                if len(res["samples"]) < 3 and len(c) < 1500:
                    res["samples"].append(case)
        if msg is not None:
            if state["first"] is None:
                state["first"] = time.time()
            if state["best"] is None or len(c) <= len(state["best"][0]):
                state["best"] = (c, msg)
            raise Violation(msg)

    # cases drawn independently: variations of the last case (which repeat its parts) would leave out whole kinds of cases
    from hypothesis.internal.conjecture.engine import ConjectureRunner
    if hasattr(ConjectureRunner, "generate_mutations_from"):
        ConjectureRunner.generate_mutations_from = lambda self, data: None
    hseed = zlib.crc32(f"{seed}/{pid}/{sub.name}/{shard}".encode())
    test = settings(
        max_examples=n, database=None, deadline=None, derandomize=False,
        phases=(Phase.generate, Phase.shrink), suppress_health_check=list(HealthCheck),
        report_multiple_bugs=False, verbosity=Verbosity.quiet, print_blob=False,
    )(given(sub.strategy)(body))
    test = hypothesis.seed(hseed)(test)
    try:
        test()
    except (Violation, Abort):
        pass
    except BaseException as e:
        if state["best"] is None:
            res["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
    if state["best"] is not None:
        c, msg = state["best"]
        res["failure"] = dict(case=json.loads(c), message=msg)
    res["nontrivial"] = sorted(seen)
    res["wall_s"] = time.time() - t0
    with open(out, "w") as f:
        json.dump(res, f)


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    with open(p) as f:
        return json.load(f)


def load(pid):
    import glob
    hit = glob.glob(os.path.join(ROOT, "checks", pid.lower() + "_*.py"))
    if len(hit) != 1:
        raise SystemExit(f"no check module for {pid}")
    sys.path.insert(0, ROOT)
    return importlib.import_module("checks." + os.path.basename(hit[0])[:-3]).check


def write_replay(pid, name, fail):
    if os.environ.get("VERIF_FIRST"):
        return "-"
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    c = canon(fail["case"])
    p = os.path.join(d, f"{pid}-{name}-{hashlib.sha1(c.encode()).hexdigest()[:10]}.json")
    with open(p, "w") as f:
        json.dump(dict(property=pid, sub=name, case=fail["case"], message=fail["message"]), f, indent=1)
    return p


def replay(pid, path):
    chk = load(pid)
    with open(path) as f:
        d = json.load(f)
    msg, _, rejected = decide(chk.subs[d["sub"]], d["case"])
    if msg is None:
        print(f"replay of {path}: {'rejected' if rejected else 'holds'}")
        return 0
    print(msg)
    print(f"VIOLATION property={pid} replay={path}")
    return 1


def main(argv):
    pid = argv[0]
    if "--replay" in argv:
        return replay(pid, argv[argv.index("--replay") + 1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    only = argv[argv.index("--sub") + 1].split(",") if "--sub" in argv else None
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    quick = tier != "thorough"
    t0 = time.time()
    chk = load(pid)
    known = [k for k in load_known()["findings"] if k["property"] == pid]
    workers = int(os.environ.get("VERIF_JOBS", "8"))
    time_budget = 420 if quick else 3 * 3600
    shrink_budget = 45 if quick else 300
    first = bool(os.environ.get("VERIF_FIRST"))  # stop at the first failing case, unshrunk (used to try bugs)
    if first:
        shrink_budget = -1

    for k in known:
        msg, _, _ = decide(chk.subs[k["sub"]], k["case"])
        if msg is not None:
            print(f"KNOWN-FINDING: property={pid} {k['what']}", flush=True)
        else:
            print(f"note: the listed finding '{k['what']}' did not fail this time", flush=True)

    tasks = []
    for s in chk.subs.values():
        if only and s.name not in only:
            continue
        n = max(1, int((s.quick if quick else s.thorough) * scale))
        shards = s.shards if quick else max(s.shards, 2)
        for i in range(shards):
            tasks.append((s, i, max(1, n // shards)))
    tasks.sort(key=lambda t: -t[0].shards)
    tmp = tempfile.mkdtemp(prefix="verif_")
    running, results, errors = {}, [], []
    queue = list(enumerate(tasks))
    try:
        while queue or running:
            while queue and len(running) < workers:
                k, (s, i, n) = queue.pop(0)
                out = os.path.join(tmp, f"{k}.json")
                sys.stdout.flush()
                sys.stderr.flush()
                child = os.fork()
                if child == 0:
                    code = 0
                    try:
                        log = os.open(out + ".log", os.O_CREAT | os.O_WRONLY, 0o600)
                        os.dup2(log, 1)
                        os.dup2(log, 2)
                        campaign(pid, s, seed, i, n, time_budget, shrink_budget, out)
                    except BaseException:
                        traceback.print_exc()
                        code = 5
                    finally:
                        try:
                            sys.stdout.flush()
                            sys.stderr.flush()
                        finally:
                            os._exit(code)
                running[child] = (s, i, out)
            done, status = os.wait()
            if done not in running:
                continue
            s, i, out = running.pop(done)
            if os.path.exists(out):
                with open(out) as f:
                    results.append(json.load(f))
                if first and results[-1]["failure"]:
                    break
                if results[-1]["error"]:
                    errors.append((s.name, results[-1]["error"]))
            else:
                sig = status & 0x7F
                if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE,
                                        signal.SIGBUS) and os.path.exists(out + ".case"):
                    with open(out + ".case") as f:
                        results.append(dict(
                            sub=s.name, shard=i, evaluations=1, rejected=0, nontrivial=[],
                            events={}, samples=[], stopped=None, error=None, wall_s=0,
                            failure=dict(case=json.load(f),
                                         message=f"the process died with signal {sig}")))
                else:
                    log = ""
                    if os.path.exists(out + ".log"):
                        with open(out + ".log", errors="replace") as f:
                            log = f.read()[-2000:]
                    errors.append((s.name, f"child ended with status {status}: {log}"))
    finally:
        for c in running:
            try:
                os.kill(c, signal.SIGKILL)
            except OSError:
                pass
        for name in os.listdir(tmp):
            os.unlink(os.path.join(tmp, name))
        os.rmdir(tmp)

    results.sort(key=lambda r: (r["sub"], r["shard"]))
    fails = [r for r in results if r["failure"]]
    cov, per = dict(), {}
    for r in results:
        d = per.setdefault(r["sub"], dict(evaluations=0, rejected=0, nontrivial=set(), events={},
                                          samples=[], stopped=[], wall_s=0.0))
        d["evaluations"] += r["evaluations"]
        d["rejected"] += r["rejected"]
        d["nontrivial"].update(r["nontrivial"])
        d["wall_s"] = max(d["wall_s"], r["wall_s"])
        for k, v in r["events"].items():
            d["events"][k] = d["events"].get(k, 0) + v
        d["samples"] += r["samples"]
        if r["stopped"]:
            d["stopped"].append(r["stopped"])
    samples = []
    for name, d in per.items():
        for c in d["samples"][:2]:
            samples.append(f"{name}: {canon(c)[:600]}")
    rules = [chk.rule] + [f"{s.name}: {s.rule}" for s in chk.subs.values() if s.rule]
    ev = dict(
        property=pid, tier="quick" if quick else "thorough", seed=seed, level="exploration",
        coverage=dict(
            evaluations=sum(d["evaluations"] for d in per.values()),
            distinct_nontrivial=sum(len(d["nontrivial"]) for d in per.values()),
            rule=" | ".join(rules),
            samples=samples[:24],
            per_sub={name: dict(evaluations=d["evaluations"], rejected=d["rejected"],
                                distinct_nontrivial=len(d["nontrivial"]),
                                events=dict(sorted(d["events"].items())[:60]),
                                stopped_early=len(d["stopped"]), wall_s=round(d["wall_s"], 1))
                     for name, d in per.items()},
        ),
        assumptions=chk.assumptions,
        wall_s=round(time.time() - t0, 1),
    )
    code = 0
    if fails:
        for r in fails:
            print(f"violated: {r['sub']}: {r['failure']['message'][:300]}")
        best = min(fails, key=lambda r: len(canon(r["failure"]["case"])))
        ev["violations"] = len(fails)
        ev["violation_details"] = []
        for r in fails:
            p = write_replay(pid, r["sub"], r["failure"])
            ev["violation_details"].append(dict(replay=p, what=f"{r['sub']}: {r['failure']['message']}"[:500]))
            if r is best:
                bestp = p
        print(f"{best['sub']}: {best['failure']['message']}")
        print(f"case: {canon(best['failure']['case'])[:2000]}")
        print(f"VIOLATION property={pid} replay={bestp}", flush=True)
        code = 1
    elif errors:
        for name, e in errors:
            print(f"harness error in {name}:\n{e}", file=sys.stderr)
        code = 3
    if first:  # neither evidence nor replay files of bugs that are tried
        return code
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if code == 0:
        c = ev["coverage"]
        print(f"{pid} held: {c['evaluations']} cases, {c['distinct_nontrivial']} distinct "
              f"non-trivial, {ev['wall_s']} s")
        for name, d in per.items():
            if d["stopped"]:
                print(f"note: {name} stopped at its time budget after {d['evaluations']} cases")
    return code
