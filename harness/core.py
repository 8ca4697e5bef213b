"""Runner shared by all checks: generated-case search (Hypothesis), evidence, replay files.

A check module (harness/checks/cNN.py) defines PROPERTY, RULE, SUBS, ASSUMPTIONS.  Each Sub has a Hypothesis
strategy of JSON-able cases and a function test(case) which raises Violation when the property is
broken, Discard when the generated case is outside the domain, and otherwise returns True when the
case was non-trivial (by the Sub's stated rule) and False when it was not.
"""
import faulthandler
import hashlib
import json
import math
import os
import resource
import signal
import sys
import tempfile
import time
import traceback
import warnings

_sleep = time.sleep
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    """The property is broken on this case."""


class Discard(Exception):
    """The case is outside the domain of the property (counted, not judged)."""


class ScriptExhausted(BaseException):
    """A scripted random source was asked for far more values than any correct run needs."""


class CpuGuard(BaseException):
    """The code under test used an absurd amount of CPU time on one case."""


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def close(a, b, rtol=1e-9, atol=1e-12):
    a = complex(a)
    b = complex(b)
    if a == b:
        return True
    d = abs(a - b)
    if not math.isfinite(d):
        return False
    return d <= atol + rtol * max(abs(a), abs(b))   # False for NaN


def require_close(a, b, what, rtol=1e-9, atol=1e-12):
    try:
        ok = close(a, b, rtol, atol)
    except TypeError:
        raise Violation(f"{what}: {a!r} is not a number (expected {b!r})")
    if not ok:
        raise Violation(f"{what}: got {a!r}, expected {b!r} (rtol {rtol:g}, atol {atol:g})")


def require_close_seq(a, b, what, rtol=1e-9, atol=1e-12):
    a = list(a)
    b = list(b)
    require(len(a) >= len(b), f"{what}: got {len(a)} values, expected at least {len(b)}")
    for i, (x, y) in enumerate(zip(a, b)):
        require_close(x, y, f"{what}[{i}]", rtol, atol)


class Sub:
    def __init__(self, name, strategy, test, quick, thorough=None, rule="", explicit=(), shards=None,
                 cpu_guard=None):
        self.name = name
        self.strategy = strategy
        self.test = test
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.rule = rule
        self.explicit = list(explicit)
        self.shards = shards
        self.cpu_guard = cpu_guard or 30


def canon(case):
    return json.dumps(case, sort_keys=True, default=str)


_real_out = None
_real_err = None


def say(msg):
    out = _real_out or sys.__stdout__
    out.write(msg + "\n")
    out.flush()


def setup_process():
    """Silence the code under test, keep the real stdout/stderr, put /repo first on sys.path."""
    global _real_out, _real_err
    _real_out = os.fdopen(os.dup(1), "w", encoding="utf-8", errors="replace")
    _real_err = os.fdopen(os.dup(2), "w", encoding="utf-8", errors="replace")
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    from . import stubs
    stubs.install()
    import most_queue
    where = os.path.abspath(most_queue.__file__ or list(most_queue.__path__)[0])
    if not where.startswith(os.path.join(REPO, "most_queue")):
        raise RuntimeError(f"most_queue comes from {where}, not {REPO}")


def derive_seed(*parts):
    return int(hashlib.sha256("|".join(map(str, parts)).encode()).hexdigest()[:12], 16)


def _frames_in_repo(tb):
    root = os.path.join(REPO, "most_queue") + os.sep
    for fr, _ in traceback.walk_tb(tb):
        if os.path.abspath(fr.f_code.co_filename).startswith(root):
            return True
    return False


def run_case(sub, case):
    """Run one case; returns non-triviality; raises Violation / Discard / harness errors."""
    from . import stubs
    stubs.reset_rng(0)
    if sub.cpu_guard:
        signal.setitimer(signal.ITIMER_VIRTUAL, sub.cpu_guard)
    try:
        return bool(sub.test(case))
    except (Violation, Discard):
        raise
    except ScriptExhausted as e:
        raise Violation(f"does not finish: {e}") from None
    except RecursionError as e:
        raise Violation(f"unbounded recursion: {e}") from None
    except Exception as e:
        if _frames_in_repo(e.__traceback__):
            last = [f for f in traceback.extract_tb(e.__traceback__)
                    if os.path.abspath(f.filename).startswith(REPO)][-1]
            raise Violation(f"raised {type(e).__name__}: {e} "
                            f"(at {os.path.relpath(last.filename, REPO)} in {last.name})") from e
        if os.environ.get("VERIF_DEBUG"):
            raise
        # no case of the unchanged tree gets here: the code returned something of an unexpected shape
        raise Violation(f"unusable result: {type(e).__name__}: {e} "
                        f"(in {traceback.extract_tb(e.__traceback__)[-1].name})") from e
    finally:
        if sub.cpu_guard:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def _guard_handler(signum, frame):
    raise CpuGuard()


def run_or_discard(fn, seconds=3):
    """For inputs on which the documented algorithm is not guaranteed to converge: discard the case when it does not."""
    left, _ = signal.setitimer(signal.ITIMER_VIRTUAL, seconds)
    try:
        out = fn()
    except CpuGuard:
        raise Discard("the iteration does not converge on these complex phases") from None
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, left)
    return out


def shard_main(modname, subname, shard, nshards, count, seed, outpath, shrink_s):
    """One worker: run `count` generated cases of a Sub and write a result file."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    signal.signal(signal.SIGVTALRM, _guard_handler)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    mod = sys.modules[modname]
    sub = next(s for s in mod.SUBS if s.name == subname)
    st = {"evaluations": 0, "discarded": 0, "nontrivial": [], "samples": [], "fail": None, "error": None,
          "first_fail": None, "done": False}
    seen = set()
    fails = {}
    t_first = [None]

    def dump():
        with open(outpath + ".tmp", "w") as f:
            json.dump(st, f, default=str)
        os.replace(outpath + ".tmp", outpath)

    def one(case):
        key = canon(case)
        h = hashlib.sha1(key.encode()).hexdigest()[:16]
        if t_first[0] is not None and time.monotonic() - t_first[0] > shrink_s and h not in fails:
            return
        st["evaluations"] += 1
        try:
            nontrivial = run_case(sub, case)
        except Discard:
            st["discarded"] += 1
            return
        except CpuGuard:
            st["fail"] = {"case": case, "message": f"no answer after {sub.cpu_guard} s of CPU time"}
            dump()
            os._exit(0)
        except Violation as e:
            fails[h] = str(e)
            if t_first[0] is None:
                t_first[0] = time.monotonic()
                st["first_fail"] = {"case": case, "message": str(e)}
            if st["fail"] is None or len(key) <= len(canon(st["fail"]["case"])):
                st["fail"] = {"case": case, "message": str(e)}
                dump()
            raise
        if nontrivial and h not in seen:
            seen.add(h)
            st["nontrivial"].append(h)
            if len(st["samples"]) < 2:
                st["samples"].append(case)

    try:
        failed = False
        if shard == 0:
            for case in sub.explicit:
                try:
                    one(case)
                except Violation:
                    failed = True
                    break
        if not failed and count > 0:
            @hypothesis.seed(derive_seed(seed, modname, subname, shard))
            @settings(max_examples=count, deadline=None, database=None, print_blob=False,
                      report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
                      phases=[Phase.generate, Phase.shrink])
            @given(sub.strategy)
            def prop(case):
                one(case)
            try:
                prop()
            except BaseException:
                if st["fail"] is None:
                    raise
        st["done"] = True
    except BaseException as e:  # harness error
        st["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
    dump()
    os._exit(0)


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f).get("findings", [])


def replay_main(mod, path):
    signal.signal(signal.SIGVTALRM, _guard_handler)
    with open(path) as f:
        rep = json.load(f)
    sub = next(s for s in mod.SUBS if s.name == rep["sub"])
    try:
        run_case(sub, rep["case"])
    except Violation as e:
        say(f"VIOLATION property={mod.PROPERTY} replay={path}\n  {e}")
        return 1
    except CpuGuard:
        say(f"VIOLATION property={mod.PROPERTY} replay={path}\n  no answer")
        return 1
    except Discard as e:
        say(f"discarded: {e}")
        return 0
    say("replay passes")
    return 0


def main(mod, argv):
    import argparse
    import multiprocessing as mp
    import shutil
    import tempfile
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--sub")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    if a.replay:
        return replay_main(mod, a.replay)
    deadline = t0 + (780 if tier == "quick" else 6 * 3600)
    shrink_s = 30
    subs = [s for s in mod.SUBS if not a.sub or s.name == a.sub]
    tmp = tempfile.mkdtemp(prefix="verif_")
    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    ctx = mp.get_context("fork")
    jobs = []
    for s in subs:
        total = max(1, int((s.quick if tier == "quick" else s.thorough) * a.scale))
        nsh = min(s.shards or a.jobs, max(1, total // 2)) if total > 1 else 1
        for i in range(nsh):
            cnt = total // nsh + (1 if i < total % nsh else 0)
            jobs.append((s, i, nsh, cnt))
    # interleave: shard 0 of every sub first
    jobs.sort(key=lambda j: j[1])
    try:
        return _drive(mod, a, tier, seed, t0, deadline, shrink_s, subs, tmp, replays, ctx, jobs)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _drive(mod, a, tier, seed, t0, deadline, shrink_s, subs, tmp, replays, ctx, jobs):
    running = []
    pending = list(enumerate(jobs))
    results = {}
    violation = None
    error = None
    inconclusive = 0

    def collect(idx):
        p = os.path.join(tmp, f"r{idx}.json")
        if os.path.exists(p):
            with open(p) as f:
                results[idx] = json.load(f)
            return results[idx]
        return None

    while (pending or running) and violation is None and error is None:
        while pending and len(running) < a.jobs:
            idx, (s, i, nsh, cnt) = pending.pop(0)
            out = os.path.join(tmp, f"r{idx}.json")
            p = ctx.Process(target=shard_main,
                            args=(mod.__name__, s.name, i, nsh, cnt, seed, out, shrink_s))
            p.start()
            running.append((idx, s, p, None))
        _sleep(0.02)
        nxt = []
        for idx, s, p, failing_since in running:
            if p.is_alive():
                path = os.path.join(tmp, f"r{idx}.json")
                if failing_since is None and os.path.exists(path):
                    failing_since = time.time()
                if failing_since is not None and time.time() - failing_since > shrink_s + 20:
                    p.kill()
                    p.join()
                else:
                    nxt.append((idx, s, p, failing_since))
                    continue
            p.join()
            r = collect(idx)
            if r is None:
                error = f"worker for {s.name} died (exit {p.exitcode})"
            elif r["fail"]:
                violation = (s, r["fail"], r.get("first_fail"))
            elif r["error"]:
                error = r["error"]
        running = nxt
        if time.time() > deadline:
            inconclusive = len(running) + len(pending)
            break
    for idx, s, p, _ in running:
        # another shard may already hold a failing case: keep counts, then stop it
        p.kill()
        p.join()
        collect(idx)

    known_lines = []
    signal.signal(signal.SIGVTALRM, _guard_handler)
    if violation is None and error is None:
        for k in load_known():
            if k.get("property") != mod.PROPERTY or k.get("status") != "known":
                continue
            sub = next(s for s in mod.SUBS if s.name == k["sub"])
            try:
                run_case(sub, k["case"])
            except Violation as e:
                if k["signature"] in str(e):
                    known_lines.append(f"KNOWN-FINDING: property={mod.PROPERTY} {k['what']}")
                else:
                    violation = (sub, {"case": k["case"], "message": str(e)}, None)
            except Discard:
                pass

    ev = 0
    disc = 0
    distinct = set()
    samples = []
    per = {}
    for idx, (s, i, nsh, cnt) in enumerate(jobs):
        r = results.get(idx)
        if not r:
            continue
        ev += r["evaluations"]
        disc += r["discarded"]
        for h in r["nontrivial"]:
            distinct.add((s.name, h))
        d = per.setdefault(s.name, {"evaluations": 0, "discarded": 0, "nontrivial": 0})
        d["evaluations"] += r["evaluations"]
        d["discarded"] += r["discarded"]
        if i == 0:
            for c in r["samples"][:1]:
                txt = canon(c)
                samples.append({"sub": s.name, "case": c if len(txt) < 1500 else txt[:1500] + "..."})
    for name in per:
        per[name]["nontrivial"] = sum(1 for n, _ in distinct if n == name)
    evidence = {
        "property": mod.PROPERTY, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": len(distinct),
            "rule": mod.RULE + " || " + "; ".join(f"{s.name}: {s.rule}" for s in subs if s.rule),
            "samples": samples, "discarded": disc, "per_sub": per,
            "inconclusive_shards": inconclusive, "known_findings": len(known_lines),
        },
        "violations": 1 if violation else 0,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
    }
    edir = os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    if not a.sub and not os.environ.get("VERIF_NOEVIDENCE"):
        with open(os.path.join(edir, f"{mod.PROPERTY}.json"), "w") as f:
            json.dump(evidence, f, indent=1, default=str)
    for line in known_lines:
        say(line)
    if violation:
        s, fail, first = violation
        if os.environ.get("VERIF_NOEVIDENCE"):
            replays = tempfile.gettempdir()
        path = os.path.join(replays, f"{mod.PROPERTY}-{s.name}.json")
        with open(path, "w") as f:
            json.dump({"property": mod.PROPERTY, "sub": s.name, "seed": seed, "case": fail["case"],
                       "message": fail["message"], "first_fail": first,
                       "how": f"bash {VERIF}/run.sh {mod.PROPERTY} --replay {path}"}, f, indent=1, default=str)
        say(f"VIOLATION property={mod.PROPERTY} replay={path}")
        say(f"  {s.name}: {fail['message']}")
        say(f"  case: {canon(fail['case'])[:1200]}")
        return 1
    if error:
        say(f"HARNESS ERROR in {mod.PROPERTY}: {error}")
        return 2
    say(f"OK {mod.PROPERTY}: {ev} cases, {len(distinct)} distinct non-trivial, {disc} discarded, "
        f"{inconclusive} inconclusive shards, {evidence['wall_s']} s  {json.dumps(per) if len(per) < 30 else ''}")
    return 0
