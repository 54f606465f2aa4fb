"""P38: answers depend on the arguments only, not on the process and what it did before."""
import json
import os
import pickle
import subprocess
import sys
import tempfile

import numpy as np

import gen
import ref
from core import Registry
from isolate import Lost, isolated

R = Registry()
R.factor = 1
TECHNIQUE = ("runtime monitoring of whole processes: the same calls in forked or separate processes in different orders and "
             "environments, differential oracle on all outcomes")
R.rule = ("seeded batches of closely related calls (same matrix pattern, size, name or parameters) x orders and environments; "
          "distinct by content hash")
R.assumptions = ["the environments keep one BLAS thread, as the number of threads changes roundings",
                 "random constructions are seeded; Lanczos estimates and SciPy's sparse eigensolver (multiresolutions), which start from random "
                 "vectors, are not compared"]
EXCLUDED = {"plots", "pyramid", "multiresolution"}
QUERIES = ["bounds", "bounds", "answers", "answers", "n_edges", "d", "dw", "A", "D", "e", "lmax", "coherence", "U"]


# ---------------------------------------------------------------- one call
def matrix(gseed):
    rng = np.random.default_rng([gseed, 0])
    while True:
        W = gen.adjacency(rng, nmin=4, nmax=10, directed=False if rng.uniform() < .7 else None, connected=bool(rng.uniform() < .7),
                          loops=False if rng.uniform() < .8 else None, large=False)
        if not gen.edgeless(W):
            return W, rng


class Near(np.random.Generator):
    """The same discrete draws, and almost the same continuous ones."""

    def __init__(self, seed):
        super().__init__(np.random.PCG64(seed))
        self.by = 1 + 10. ** np.random.default_rng(seed).integers(-9, -1)

    def uniform(self, low=0., high=1., size=None):
        v = super().uniform(low, high, size)
        w = v * self.by
        return np.where(w <= high, w, v) if size is not None else w if w <= high else v

    def normal(self, loc=0., scale=1., size=None):
        return super().normal(loc, scale, size) * self.by


def swapped(rng, W):
    """Another graph where every vertex has the same weighted degrees, if there is one."""
    W = W.copy()
    n = len(W)
    for _ in range(200):
        a, b, c, d = rng.permutation(n)[:4]
        if W[a, b] and W[a, b] == W[c, d] and W[a, b] == W[b, a] and W[c, d] == W[d, c] and not (W[a, d] or W[d, a] or W[c, b] or W[b, c]):
            w = W[a, b]
            W[a, b] = W[b, a] = W[c, d] = W[d, c] = 0
            W[a, d] = W[d, a] = W[c, b] = W[b, c] = w
            return W
    for _ in range(200):
        a, b, c, d = rng.permutation(n)[:4]
        if min(W[a, b], W[c, d], W[a, d], W[c, b]) > 0 and all(W[i, j] == W[j, i] for i, j in ((a, b), (c, d), (a, d), (c, b))):
            w = min(W[a, b], W[c, d]) / 4
            for i, j, s in ((a, b, -1), (c, d, -1), (a, d, 1), (c, b, 1)):
                W[i, j] += s * w
                W[j, i] = W[i, j]
            return W
    return W


def graph(gseed, variant):
    """Variants share the size, most also the pattern, sums or spectrum of the matrix."""
    from pygsp import graphs
    W, rng = matrix(gseed)
    n = len(W)
    lap = str(rng.choice(["combinatorial", "normalized"]))
    xy = rng.normal(size=(n, 2))
    basis = rng.uniform() < .6
    p = rng.permutation(n)
    if variant == 1:
        W = W * 2
    elif variant == 2:
        W = W[p][:, p]
    elif variant == 3:
        lap = "normalized" if lap == "combinatorial" else "combinatorial"
    elif variant == 4:
        xy = xy + 1
    elif variant == 5:
        W = (W != 0) * 1.
    elif variant == 6:
        W = W * (W != 0).sum() / np.abs(W).sum()
    elif variant == 7:
        W = swapped(rng, W)
    elif variant == 8:
        N = rng.uniform(size=W.shape)
        W = W * (1 + (N + N.T) * 10. ** rng.integers(-9, -1))
    G = graphs.Graph(W, lap_type=lap, coords=xy)
    G.set_signal(xy[:, 0].copy(), "s")
    if basis:
        G.compute_fourier_basis()
    else:
        G.estimate_lmax("bounds")
    return G


def models(seed):
    from pygsp import graphs
    rng = np.random.default_rng([seed, 1])
    names = sorted(gen.MODEL_KW)
    name = names[int(rng.integers(len(names)))]
    kw = gen.MODEL_KW[name](rng)
    return getattr(graphs, name)(**kw)


def perform(spec):
    """The frozen outcome of a call."""
    from props.P28 import OPS, freeze
    from props.P31 import BAD
    kind, gseed, variant, name, oseed = spec
    try:
        if kind == "model":
            g = models(oseed)
            return ("value", freeze(g), g.n_edges, type(g).__name__, repr(g) if hasattr(g, "seed") else "")
        G = graph(gseed, variant)
        rng = np.random.default_rng([abs(oseed), 2]) if oseed > 0 else Near([-oseed, 2])
        if kind == "op":
            made = OPS[name](rng, G)
            if made is None:
                return ("none",)
            return ("value", freeze(made[0]()))
        if kind == "file":
            from props.P37 import files, layout  # noqa: F401
            G.set_signal(rng.normal(size=(G.N, 3)), "joined")
            H = files(rng, G, name, ["graphml", "gml"] + (["gexf"] if name == "networkx" else []), whole=True)()
            return ("value", freeze(H), list(H.signals), type(H).__name__)
        if kind == "bad":
            made = BAD[name](rng, G)
            if made is None:
                return ("none",)
            return ("value", freeze(made[0]()))
        if name == "bounds":
            G.estimate_lmax("bounds")
            return ("value", float(G.lmax))
        if name == "answers":
            return ("value", [G.is_directed(), G.is_connected(), G.is_weighted(), G.has_loops()],
                    [freeze(g) for g in (G.extract_components() if not G.is_directed() else [])])
        v = getattr(G, name)
        if name == "U":  # Signs and bases are the solver's choice, the subspaces are not.
            v = (v * np.cos(G.e / max(G.e[-1], 1e-300))) @ v.T
        return ("value", freeze(v))
    except Exception as e:
        return ("error", type(e).__name__, str(e))


def same(a, b, tol):
    from props.P28 import alike
    if a[0] != b[0]:
        return False
    if a[0] == "error":
        return a[1] == b[1]
    return alike(list(a[1:]), list(b[1:]), tol)


def tolerance(spec):
    # The conjugate gradient stops at a relative residual of 1e-5.
    return 1e-3 if spec[3] == "learning" else 1e-7


def cluster(rng, n):
    """Calls that differ by little."""
    from props.P28 import OPS
    from props.P31 import BAD
    specs = []
    ops, bads = sorted(set(OPS) - EXCLUDED), sorted(BAD)
    while len(specs) < n:
        gseed, oseed = int(rng.integers(2**31)), int(rng.integers(2**31))
        kind = str(rng.choice(["op", "op", "op", "op", "query", "bad", "model", "file"]))
        if kind == "model":
            new = [(kind, 0, 0, "model", oseed + i) for i in range(3)]
        else:
            name = {"op": lambda: ops[int(rng.integers(len(ops)))], "bad": lambda: bads[int(rng.integers(len(bads)))],
                    "query": lambda: QUERIES[int(rng.integers(len(QUERIES)))],
                    "file": lambda: str(rng.choice(["networkx", "graph-tool"]))}[kind]()
            how = int(rng.integers(4))
            vs = [int(v) for v in rng.choice(9, 3, replace=False)]
            if rng.uniform() < .5:
                vs[0] = 0
            if how == 0:    # the same operation on related graphs
                new = [(kind, gseed, v, name, oseed) for v in vs]
            elif how == 1:  # other parameters on the same graph
                new = [(kind, gseed, vs[0], name, oseed + i) for i in range(3)]
            elif how == 2:  # almost the same parameters
                new = [(kind, gseed, vs[0], name, oseed), (kind, gseed, vs[0], name, -oseed)]
            else:           # both, and other graphs
                new = [(kind, gseed + i, v, name, oseed + i % 2) for i, v in enumerate(vs)]
        specs += [(k, g, v, m, o) for k, g, v, m, o in new]
    return specs[:n]


def run(specs):
    import warnings
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    return [perform(s) for s in specs]


def compare(ctx, specs, first, second, what):
    decided = 0
    for s, a, b in zip(specs, first, second):
        if a[0] == "none" and b[0] == "none":
            continue
        if any("Arpack" in str(x[1]) for x in (a, b)):
            continue
        decided += 1
        ctx.note(f"{s[0]}:{s[3]}" + (" raised" if a[0] == "error" else ""))
        ctx.ok(same(a, b, tolerance(s)), "same-answer", lambda: f"{what}: {s}: {str(a)[:500]} and {str(b)[:500]}")
    ctx.ok(decided > 0, "observed")


# ---------------------------------------------------------------- history
@R.family(quick=320, thorough=8000, timeout=300)
def history(ctx, rng):
    """The same calls in a new process, in another order."""
    specs = cluster(rng, int(rng.integers(6, 30)))
    order = [int(i) for i in (rng.permutation(len(specs)) if rng.uniform() < .5 else np.arange(len(specs))[::-1])]
    alone = rng.uniform() < .2
    ctx.describe(True, specs=specs, order=order, alone=alone)
    try:
        first = isolated(lambda: run(specs))
        if alone:  # each call in a process that did nothing else
            specs = [specs[i] for i in order[:8]]
            second = [isolated(lambda: run([s])) for s in specs]
            first = ("value", [first[1][i] for i in order[:8]])
            second = ("value", [r[1][0] for r in second])
        else:
            second = isolated(lambda: run([specs[i] for i in order]))
            back = [None] * len(specs)
            for i, r in zip(order, second[1]):
                back[i] = r
            second = ("value", back)
    except Lost as e:
        ctx.ok(False, "interpreter-survives", str(e))
    ctx.note("alone" if alone else "reordered", len(specs))
    compare(ctx, specs, first[1], second[1], "in another order")


# ---------------------------------------------------------------- environment
SCRIPT = r"""
import json, os, pickle, sys
job = json.load(open(sys.argv[1]))
sys.path[:0] = [job["harness"], job["repo"]]
sys.dont_write_bytecode = True
import numpy as np
import locale, logging, gc, threading, random
env = job["env"]
from props import P38
import pygsp
if env.get("state") is not None:
    np.random.seed(env["state"]); random.seed(env["state"])
if env.get("cwd"):
    os.chdir(env["cwd"])
if env.get("setlocale"):
    locale.setlocale(locale.LC_ALL, "")
if env.get("logging"):
    logging.basicConfig(level=getattr(logging, env["logging"]), stream=open(os.devnull, "w"))
if env.get("disable"):
    logging.disable(getattr(logging, env["disable"]))
if env.get("level"):
    for name in list(logging.root.manager.loggerDict):
        logging.getLogger(name).setLevel(env["level"])
if env.get("printoptions"):
    np.set_printoptions(precision=2, threshold=3, suppress=True)
if env.get("gc") == "off":
    gc.disable()
elif env.get("gc") == "always":
    gc.set_threshold(50, 2, 2)
if env.get("errstate"):
    np.seterr(all=env["errstate"])
if env.get("recursion"):
    sys.setrecursionlimit(20000)
out = []
def go():
    for s in job["specs"]:
        out.append(P38.perform(tuple(s)))
if env.get("thread"):
    t = threading.Thread(target=go); t.start(); t.join()
else:
    go()
pickle.dump(out, open(sys.argv[2], "wb"), 4)
"""
PLAIN = dict(errstate="ignore")


def launch(d, specs, env):
    repo = os.path.dirname(os.path.dirname(os.path.abspath(sys.modules["pygsp"].__file__)))
    job, out = os.path.join(d, "job.json"), os.path.join(d, "out.pickle")
    if os.path.exists(out):
        os.remove(out)
    with open(job, "w") as f:
        json.dump(dict(specs=specs, env=env, repo=repo, harness=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), f)
    variables = dict(os.environ, **env.get("variables", {}))
    # Flags, such as -O, which strips assertions.
    p = subprocess.run([sys.executable, "-W", "ignore", *env.get("flags", []), "-c", SCRIPT, job, out], env=variables,
                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=280, cwd=d)
    if p.returncode:
        return None, f"status {p.returncode}: {p.stderr.decode(errors='replace')[-1500:]}"
    with open(out, "rb") as f:
        return pickle.load(f), ""


def environment(rng, d):
    """Something different about the process."""
    env = dict(PLAIN, variables={})
    v = env["variables"]
    if rng.uniform() < .7:
        v["PYTHONHASHSEED"] = str(int(rng.integers(1, 2**32)))
    if rng.uniform() < .4:
        v["LC_ALL"] = v["LANG"] = str(rng.choice(["C", "POSIX", "C.utf8"]))
        env["setlocale"] = bool(rng.integers(2))
    if rng.uniform() < .3:
        v["TZ"] = str(rng.choice(["UTC", "Asia/Kathmandu", "XYZ+11"]))
    if rng.uniform() < .3:
        v["HOME"] = v["TMPDIR"] = d
    if rng.uniform() < .5:
        env["flags"] = [str(rng.choice(["-O", "-O", "-OO", "-Xdev", "-B"]))]
    if rng.uniform() < .5:
        env["state"] = int(rng.integers(2**31))
    if rng.uniform() < .4:
        env["cwd"] = d if rng.uniform() < .5 else "/"
    if rng.uniform() < .3:
        env["logging"] = str(rng.choice(["DEBUG", "INFO", "CRITICAL"]))
    if rng.uniform() < .4:
        env[str(rng.choice(["disable", "level"]))] = str(rng.choice(["CRITICAL", "ERROR", "INFO"]))
    if rng.uniform() < .3:
        env["printoptions"] = True
    if rng.uniform() < .4:
        env["gc"] = str(rng.choice(["off", "always"]))
    if rng.uniform() < .3:
        env["thread"] = True
    if rng.uniform() < .2:
        env["errstate"] = "warn"
    return env


@R.family(quick=50, thorough=600, timeout=580)
def environments(ctx, rng):
    specs = [s for _ in range(4) for s in cluster(rng, 25)]
    with tempfile.TemporaryDirectory() as d:
        env = environment(rng, d)
        show = json.loads(json.dumps(env).replace(d, "DIR"))
        ctx.describe(True, specs=specs[:3], env=show)
        first, err = launch(d, specs, PLAIN)
        ctx.ok(first is not None, "process-completes", err)
        second, err = launch(d, specs, env)
        ctx.ok(second is not None, "process-completes", lambda: f"{show}: {err}")
    for k in sorted(env) + sorted(env["variables"]):
        ctx.note(f"with {k} {env[k]}" if k in ("flags", "gc", "logging") else f"with {k}")
    compare(ctx, specs, first, second, f"with {show}")
