"""Runtime-monitoring core: workload scheduling, oracle bookkeeping, verdicts.

A property module (props/Pxx.py) registers *families* of workloads.  A family is
a function ``f(ctx, rng)`` that drives the real pygsp code once, under a seeded
generator, and reports every oracle decision through ``ctx``.  The core runs the
families in forked workers, counts which oracles actually decided something,
writes the evidence file, and turns the outcome into a three-valued verdict.
"""
import collections
import hashlib
import importlib
import json
import logging
import multiprocessing
import multiprocessing.connection
import os
import re
import signal
import sys
import time
import traceback
import warnings
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VERIF_OUT", VERIF)  # where evidence and replays go
FAILFAST = bool(os.environ.get("VERIF_FAILFAST"))
import numpy as np  # noqa: E402
from scipy import sparse  # noqa: E402


_starts = [np.random.default_rng(0)]


def _seed_solver():
    """ARPACK draws its starting vectors from fresh entropy: one start in tens of thousands misses the wanted
    eigenvalue.  The starts are drawn per case from the case's seed instead, so that a verdict is repeatable."""
    import functools
    import inspect
    import scipy.sparse.linalg as sl
    solve = sl.eigsh
    if "rng" not in inspect.signature(solve).parameters:
        return

    @functools.wraps(solve)
    def eigsh(*args, **kwargs):
        kwargs.setdefault("rng", _starts[0])
        return solve(*args, **kwargs)
    sl.eigsh = eigsh


_seed_solver()


class CaseFail(Exception):
    def __init__(self, mech, msg):
        super().__init__(f"{mech}: {msg}")
        self.mech, self.msg = mech, msg


class CaseSkip(Exception):
    """The drawn case lies outside the property's domain."""


class CaseTimeout(BaseException):
    """Too much processor time: the call is considered not to return."""


class CaseStalled(BaseException):
    """Too much wall-clock time: inconclusive."""


Family = collections.namedtuple("Family", "name func quick thorough timeout")


class Registry:
    def __init__(self):
        self.families = []
        self.assumptions = []
        self.rule = ""
        self.factor = 4  # on the quick counts

    def family(self, quick, thorough=None, timeout=60, name=None):
        def deco(f):
            self.families.append(Family(name or f.__name__, f, quick,
                                        thorough or quick * 25, timeout))
            return f
        return deco


def _digest(x):
    if sparse.issparse(x):
        x = x.toarray()
    if isinstance(x, np.ndarray):
        return (x.shape, str(x.dtype), hashlib.sha1(np.ascontiguousarray(x).tobytes()).hexdigest()
                if x.dtype != object else repr(x))
    if isinstance(x, dict):
        return sorted((str(k), _digest(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return [_digest(v) for v in x]
    return repr(x)


def _show(x, limit=400):
    if sparse.issparse(x):
        x = x.toarray()
    if isinstance(x, np.ndarray):
        if x.size <= 400:
            return x.tolist()
        return f"array{x.shape} {x.dtype} sha1={hashlib.sha1(np.ascontiguousarray(x).tobytes()).hexdigest()[:12]}"
    if isinstance(x, (bool, int, float, str)) or x is None:
        return x
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, dict):
        return {str(k): _show(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_show(v) for v in x][:limit]
    return repr(x)[:limit]


def dense(x):
    if sparse.issparse(x):
        return x.toarray()
    return np.asarray(x)


class Ctx:
    """What a workload sees: oracle decisions and case description."""

    def __init__(self):
        self.events = collections.Counter()
        self.reset()

    def reset(self):
        self.desc = {}
        self.nontrivial = True

    # -- description ------------------------------------------------------
    def describe(self, _nontrivial=True, **kw):
        self.desc.update(kw)
        self.nontrivial = self.nontrivial and bool(_nontrivial)

    def skip(self, why=""):
        raise CaseSkip(why)

    # -- oracles ----------------------------------------------------------
    def ok(self, cond, mech, msg=""):
        self.events[mech] += 1
        if not cond:
            raise CaseFail(mech, msg() if callable(msg) else msg)

    def close(self, got, want, mech, tol=1e-9, scale=None, msg=""):
        """got == want up to tol relative to the magnitude (or scale)."""
        self.events[mech] += 1
        try:
            g, w = dense(got), dense(want)
            g = np.asarray(g)
            w = np.asarray(w)
            if g.dtype == object or w.dtype == object:
                raise CaseFail(mech, f"object dtype result {msg}")
        except CaseFail:
            raise
        except Exception as e:
            raise CaseFail(mech, f"not comparable: {type(got)} vs {type(want)} ({e}) {msg}")
        if g.shape != w.shape:
            raise CaseFail(mech, f"shape {g.shape} expected {w.shape} {msg}")
        if g.size == 0:
            return
        if g.dtype.kind not in "biufc" or w.dtype.kind not in "biufc":
            raise CaseFail(mech, f"non numeric result {g.dtype} {w.dtype} {msg}")
        kind = complex if "c" in (g.dtype.kind, w.dtype.kind) else float
        g, w = g.astype(kind), w.astype(kind)
        if not np.array_equal(np.isnan(g), np.isnan(w)):
            raise CaseFail(mech, f"NaN pattern differs: got {np.isnan(g).sum()} NaN, expected {np.isnan(w).sum()} {msg}")
        m = ~np.isnan(w)
        if not m.any():
            return
        g, w = g[m], w[m]
        inf = np.isinf(w) | np.isinf(g)
        if inf.any() and not np.array_equal(g[inf], w[inf]):
            raise CaseFail(mech, f"infinities differ {msg}")
        g, w = g[~inf], w[~inf]
        if g.size == 0:
            return
        s = np.abs(w).max() if scale is None else scale
        s = max(float(s), 1e-300)
        err = np.abs(g - w).max()
        if not err <= tol * s:
            k = int(np.argmax(np.abs(g - w)))
            raise CaseFail(mech, f"max error {err:.3e} > {tol:.1e}*{s:.3e}; at {k}: got {g[k]!r} expected {w[k]!r} {msg}")

    def same(self, got, want, mech, msg=""):
        """Exact equality of arrays / values."""
        self.events[mech] += 1
        g, w = dense(got), dense(want)
        if g.shape != w.shape:
            raise CaseFail(mech, f"shape {g.shape} expected {w.shape} {msg}")
        try:
            eq = np.array_equal(g, w, equal_nan=g.dtype.kind in "fc" and w.dtype.kind in "fc")
        except TypeError:
            eq = np.array_equal(g, w)
        if not eq:
            raise CaseFail(mech, f"got {_show(g)!s:.300} expected {_show(w)!s:.300} {msg}")

    def raises(self, func, exc, mech, msg=""):
        self.events[mech] += 1
        try:
            res = func()
        except exc:
            return
        except Exception as e:
            raise CaseFail(mech, f"raised {type(e).__name__}({e}) instead of {exc} {msg}")
        raise CaseFail(mech, f"accepted, returned {type(res).__name__} {msg}")

    def note(self, name, n=1):
        """Count an observed (non-deciding) event."""
        self.events["obs:" + name] += n


# ---------------------------------------------------------------- known findings
def load_known():
    """Findings listed in known_findings.jsonl: {property, mech, match, what}."""
    out = []
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith("#"):
                continue
            if line.startswith("fixed:"):
                continue
            d = json.loads(line)
            if d.get("status") == "fixed":
                continue
            out.append(d)
    return out


def match_known(known, prop, v):
    for k in known:
        if k["property"] == prop and k["family"] == v["family"] and k["mech"] == v["mech"] \
                and re.search(k.get("match", ""), v["message"]):
            return k
    return None


# ---------------------------------------------------------------- running
def _rng(seed, prop, family, index):
    return np.random.default_rng([int(seed) & 0xFFFFFFFF, zlib.crc32(prop.encode()),
                                  zlib.crc32(family.encode()), index])


def _alarm(signum, *_):
    raise CaseTimeout() if signum == signal.SIGPROF else CaseStalled()


def run_case(ctx, prop, fam, seed, index):
    """Returns (status, violation or None)."""
    ctx.reset()
    rng = _rng(seed, prop, fam.name, index)
    ctx.rng_index = index
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.alarm(3 * fam.timeout)
    signal.setitimer(signal.ITIMER_PROF, fam.timeout)
    try:
        np.random.seed(index % 2**31)
        _starts[0] = _rng(seed, prop, fam.name + "/arpack", index)
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            fam.func(ctx, rng)
        return "ok", None
    except CaseSkip:
        return "skip", None
    except CaseTimeout:
        return "timeout", None
    except CaseStalled:
        return "stalled", None
    except (MemoryError, ModuleNotFoundError) as e:
        return "error", dict(message=repr(e))
    except CaseFail as e:
        mech, msg = e.mech, e.msg
        tb = traceback.format_exc()
    except Exception as e:
        frames = traceback.extract_tb(e.__traceback__)
        where = [f for f in frames if "/pygsp/" in f.filename]
        loc = f"{os.path.basename(where[-1].filename)}:{where[-1].name}" if where else "result unusable"
        mech = "unexpected-exception"
        msg = f"{type(e).__name__} in {loc}: {e}"
        tb = traceback.format_exc()
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)
    return "violation", dict(property=prop, family=fam.name, index=index, seed=seed,
                             mech=mech, message=str(msg)[:2000], traceback=tb[-6000:],
                             case=_show(ctx.desc))


def _worker(args, current=None):
    prop, fams, tasks, seed, deadline = args
    ctx = Ctx()
    status = collections.Counter()
    per_family = collections.Counter()
    hashes, samples, viol, errors = set(), [], [], []
    for k, (fi, index) in enumerate(tasks):
        if time.monotonic() > deadline:
            status["not_run"] += 1
            continue
        fam = fams[fi]
        if current is not None:
            current.value = k
        st, v = run_case(ctx, prop, fam, seed, index)
        if st == "timeout":
            st, v = run_case(ctx, prop, fam, seed, index)
            if st == "timeout":
                st = "violation"
                v = dict(property=prop, family=fam.name, index=index, seed=seed, mech="never-returns",
                         message=f"no result within {fam.timeout} s of processor time, twice", traceback="", case=_show(ctx.desc))
                deadline = 0
        status[st] += 1
        if st == "ok":
            per_family[fam.name] += 1
            h = hashlib.sha1(repr((fam.name, _digest(ctx.desc))).encode()).hexdigest()
            if ctx.nontrivial and ctx.desc:
                if h not in hashes and index == 0 and len(samples) < 3:
                    samples.append(dict(family=fam.name, index=index, case=_show(ctx.desc)))
                hashes.add(h)
        elif st == "violation":
            viol.append(v)
            if FAILFAST and not match_known(load_known(), prop, v):
                break
        elif st in ("error", "stalled", "timeout"):
            errors.append((fam.name, index, st, v))
        try:
            import matplotlib.pyplot as plt
            plt.close("all")
        except Exception:
            pass
    return dict(status=status, per_family=per_family, hashes=hashes, samples=samples,
                viol=viol, errors=errors, events=ctx.events)


def check_import(repo):
    import pygsp
    real = os.path.realpath(pygsp.__file__)
    want = os.path.realpath(os.path.join(repo, "pygsp", "__init__.py"))
    if real != want:
        print(f"ERROR pygsp imported from {real}, expected {want}")
        sys.exit(3)


def main(argv, repo):
    prop = argv[0]
    if prop == "--selftest":
        logging.disable(logging.CRITICAL)
        check_import(repo)
        mods = sorted(f[:-3] for f in os.listdir(os.path.join(VERIF, "harness", "props")) if re.fullmatch(r"P\d+\.py", f))
        n = sum(len(importlib.import_module(f"props.{m}").R.families) for m in mods)
        print(f"selftest: {len(mods)} properties, {n} workload families, {len(load_known())} known findings")
        return 0
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    logging.disable(logging.CRITICAL)
    t0 = time.monotonic()
    try:
        check_import(repo)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print(f"ERROR property={prop} the library does not import")
        return 3
    # Import everything that is lazily imported once, before forking.
    import networkx  # noqa: F401
    mod = importlib.import_module(f"props.{prop}")
    reg = mod.R
    if os.environ.get("VERIF_FAMILIES"):  # For development: some families only.
        reg.families = [f for f in reg.families if f.name in os.environ["VERIF_FAMILIES"].split(",")]

    if len(argv) > 1:
        opts = dict(zip(argv[1::2], argv[2::2]))
        if "--replay" in opts:
            w = json.load(open(opts["--replay"]))
            fam = next(f for f in reg.families if f.name == w["family"])
            st, v = run_case(Ctx(), prop, fam, w["seed"], w["index"])
        else:
            fam = next(f for f in reg.families if f.name == opts["--family"])
            st, v = run_case(Ctx(), prop, fam, seed, int(opts.get("--index", 0)))
        print(st)
        if v:
            print(json.dumps(v.get("case"))[:3000])
            print(v.get("traceback"), v["message"])
        return 1 if st == "violation" else 0

    # Interleave families so a deadline truncates all of them evenly.
    tasks = []
    for fi, f in enumerate(reg.families):
        n = f.quick * reg.factor if tier == "quick" else f.thorough
        for i in range(n):
            tasks.append(((i + 0.5) / n, fi, i))
    tasks.sort()
    tasks = [(fi, i) for _, fi, i in tasks]
    budget = float(os.environ.get("VERIF_BUDGET", 150 if tier == "quick" else 780))
    deadline = t0 + budget
    nproc = int(os.environ.get("VERIF_PROCS", min(8, os.cpu_count() or 1)))
    nproc = max(1, min(nproc, len(tasks)))
    order = np.random.default_rng(0).permutation(nproc)
    chunks = [tasks[k::nproc] for k in order]
    args = [(prop, reg.families, c, seed, deadline) for c in chunks]
    results = _run_all(args, deadline)

    status, per_family, events = collections.Counter(), collections.Counter(), collections.Counter()
    hashes, samples, viol, errors = set(), [], [], []
    for r in results:
        status.update(r["status"])
        per_family.update(r["per_family"])
        events.update(r["events"])
        hashes |= r["hashes"]
        samples += r["samples"]
        viol += r["viol"]
        errors += r["errors"]

    known = load_known()
    fresh, seen_known = [], {}
    for v in sorted(viol, key=lambda v: (v["family"], v["index"])):
        k = match_known(known, prop, v)
        if k is None:
            fresh.append(v)
        else:
            seen_known[k["what"]] = seen_known.get(k["what"], 0) + 1

    for what in seen_known:
        print(f"KNOWN-FINDING: property={prop} {what}")

    rdir = os.path.join(OUT, "replays")
    groups = {}
    for v in fresh:
        groups.setdefault((v["family"], v["mech"]), []).append(v)
    shown = 0
    for (famname, mech), vs in groups.items():
        if shown >= 10:
            break
        os.makedirs(rdir, exist_ok=True)
        v = vs[0]
        slug = re.sub(r"[^A-Za-z0-9]+", "-", f"{famname}-{mech}")[:60]
        path = os.path.join(rdir, f"{prop}-{slug}.json")
        with open(path, "w") as f:
            json.dump(dict(v, tier=tier, count=len(vs)), f, indent=1, default=str)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {famname}[{v['index']}] {mech} (x{len(vs)}): {v['message'][:300]}")
        shown += 1

    wall = time.monotonic() - t0
    decided = {k: n for k, n in sorted(events.items()) if not k.startswith("obs:")}
    observed = {k[4:]: n for k, n in sorted(events.items()) if k.startswith("obs:")}
    n_cases = status["ok"] + status["violation"]
    evidence = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=int(n_cases),
            distinct_nontrivial=len(hashes),
            rule=reg.rule or "seeded random workloads; non-trivial unless the case is flagged degenerate; distinct by content hash of all drawn inputs",
            samples=samples[:8] or [dict(note="no successful sample")],
            oracle_decisions=int(sum(decided.values())),
            decisions_by_oracle=decided,
            observed_events=observed,
            cases_by_family=dict(per_family),
            skipped_out_of_domain=int(status["skip"]),
            not_run_budget=int(status["not_run"]),
            inconclusive=len(errors),
            known_findings_seen=seen_known,
        ),
        assumptions=reg.assumptions,
        wall_s=round(wall, 2), violations=len(fresh))
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)

    print(f"{prop} {tier} seed={seed}: {n_cases} cases, {len(hashes)} distinct, "
          f"{sum(decided.values())} oracle decisions, {status['skip']} skipped, "
          f"{len(errors)} inconclusive, {len(fresh)} violations, {wall:.1f}s")
    if fresh:
        return 1
    if errors:
        for e in errors[:5]:
            print("INCONCLUSIVE", e)
        return 4
    starved = [f.name for f in reg.families if per_family[f.name] == 0
               and not any(v["family"] == f.name for v in viol)]
    if starved:
        print(f"INCONCLUSIVE families never decided anything: {starved}")
        return 5
    return 0


def _child(args, current, conn):
    conn.send(_worker(args, current))
    conn.close()


def _run_all(args, deadline):
    """Workers in processes of their own, as the code under test might kill the interpreter."""
    mp = multiprocessing.get_context("fork")
    results, running = [], []

    def start(arg, crashes):
        current = mp.Value("l", 0, lock=False)
        recv, send = mp.Pipe(False)
        p = mp.Process(target=_child, args=(arg, current, send), daemon=True)
        p.start()
        send.close()
        running.append((p, recv, current, arg, crashes))

    for arg in args:
        start(arg, 0)
    while running:
        multiprocessing.connection.wait([r[1] for r in running], timeout=5)
        for item in list(running):
            p, recv, current, arg, crashes = item
            prop, fams, tasks, seed, _ = arg
            stuck = time.monotonic() > deadline + 3 * max(f.timeout for f in fams)
            if not recv.poll() and p.is_alive() and not stuck:
                continue
            running.remove(item)
            try:
                if stuck and not recv.poll():
                    raise EOFError
                results.append(recv.recv())
                p.join()
                continue
            except EOFError:
                pass
            if p.is_alive() and not stuck:
                p.join(10)
            code = p.exitcode
            p.kill()
            p.join()
            fi, index = tasks[current.value]
            base = dict(status=collections.Counter(), per_family=collections.Counter(), hashes=set(), samples=[],
                        viol=[], errors=[], events=collections.Counter())
            if code in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGFPE, -signal.SIGILL, -signal.SIGBUS):
                base["status"]["violation"] += 1
                base["viol"].append(dict(
                    property=prop, family=fams[fi].name, index=index, seed=seed, mech="interpreter-killed",
                    message=f"the interpreter died with signal {-code}", traceback="", case={}))
                rest = tasks[current.value + 1:]
                if crashes < 3 and rest:
                    start((prop, fams, rest, seed, arg[4]), crashes + 1)
            else:
                base["status"]["error"] += 1
                base["errors"].append((fams[fi].name, index, "worker stuck" if stuck else f"worker exited with {code}", None))
            results.append(base)
    return results
