"""P22: seeded randomness is reproducible and isolated from the global state."""
import hashlib
import json
import os
import random
import subprocess
import sys
import warnings

import numpy as np
from scipy import sparse

import gen
import ref
from core import Registry, _digest

R = Registry()
TECHNIQUE = "runtime monitoring: twin-run oracle with perturbed global random state, watching the process-wide generators"
R.rule = "seeded random constructions and operations; distinct by content hash of constructor, arguments and seed"
R.assumptions = [
    "seeds are integers in [0, 2**32)",
    "operations without a seed are only required not to touch the global generators when they are deterministic or "
    "have a documented local generator (sparsification without a seed follows SciPy's convention)",
    "results are compared bitwise on the same machine"]


def seed_of(rng):
    return int(rng.choice([0, 1, 42, 2**31, 2**32 - 1, int(rng.integers(0, 2**32))], p=[.2, .1, .1, .05, .05, .5]))


def pick(r, **kw):
    return {k: f for k, f in kw.items()}


# name -> (parameters, seed-sensitive)
MODELS = {
    "RandomRing": lambda r: dict(N=int(r.integers(8, 30))),
    "RandomRegular": lambda r: dict(N=int(r.integers(10, 24)), k=int(r.choice([2, 4]))),
    "BarabasiAlbert": lambda r: dict(N=int(r.integers(15, 40)), m0=3, m=int(r.integers(1, 3))),
    "ErdosRenyi": lambda r: dict(N=int(r.integers(12, 24)), p=float(r.uniform(.3, .7)), directed=bool(r.integers(2)),
                                 self_loops=bool(r.integers(2)), connected=bool(r.integers(2))),
    "StochasticBlockModel": lambda r: dict(N=int(r.integers(12, 24)), k=int(r.integers(1, 4)), p=.7, q=.3,
                                           directed=bool(r.integers(2)), self_loops=bool(r.integers(2)),
                                           connected=bool(r.integers(2))),
    "Community": lambda r: dict(N=int(r.integers(30, 60)), Nc=int(r.integers(2, 4)),
                                **[{}, dict(k_neigh=3), dict(comm_density=.5), dict(epsilon=1.), dict(size_ratio=2.)][int(r.integers(5))]),
    "Sensor": lambda r: dict(N=int(r.choice([16, 25, 36])), k=int(r.integers(2, 6)), distributed=bool(r.integers(2))),
    "DavidSensorNet": lambda r: dict(N=int(r.choice([20, 33, 64, 500]))),
    "SwissRoll": lambda r: dict(N=int(r.integers(10, 30)), dim=int(r.choice([2, 3])), noise=bool(r.integers(2)),
                                srtype=str(r.choice(["uniform", "classic"]))),
    "TwoMoons": lambda r: dict(moontype="synthesized", N=int(r.integers(12, 30))),
    "Sphere": lambda r: dict(nb_pts=int(r.integers(15, 30)), nb_dim=int(r.integers(2, 4))),
    "Cube": lambda r: dict(nb_pts=int(r.integers(18, 40)), nb_dim=int(r.choice([2, 3]))),
}
LARGE = {
    "RandomRing": lambda r: dict(N=int(r.integers(200, 2000))),
    "RandomRegular": lambda r: dict(N=int(r.integers(100, 250)) // 2 * 2, k=int(r.choice([2, 5]))),
    "BarabasiAlbert": lambda r: dict(N=int(r.integers(150, 400)), m0=3, m=int(r.integers(1, 3))),
    "ErdosRenyi": lambda r: dict(N=int(r.integers(80, 200)), p=float(r.uniform(.1, .3)), directed=bool(r.integers(2))),
    "StochasticBlockModel": lambda r: dict(N=int(r.integers(80, 200)), k=int(r.integers(4, 30)), p=.7, q=.3, directed=bool(r.integers(2))),
    "Community": lambda r: dict(N=int(r.integers(200, 600)), Nc=int(r.integers(4, 20)),
                                **[{}, dict(k_neigh=3), dict(comm_density=.5), dict(epsilon=1.), dict(world_density=.4)][int(r.integers(5))]),
    "Sensor": lambda r: dict(N=int(r.choice([225, 400, 625])), k=int(r.integers(2, 9)), distributed=bool(r.integers(2))),
    "DavidSensorNet": lambda r: dict(N=int(r.integers(150, 450))),
    "SwissRoll": lambda r: dict(N=int(r.integers(150, 500)), dim=int(r.choice([2, 3])), noise=bool(r.integers(2))),
    "TwoMoons": lambda r: dict(moontype="synthesized", N=int(r.integers(150, 600))),
    "Sphere": lambda r: dict(nb_pts=int(r.integers(200, 800)), nb_dim=int(r.integers(2, 6))),
    "Cube": lambda r: dict(nb_pts=int(r.integers(200, 800)), nb_dim=int(r.choice([2, 3]))),
}
FIXED = {("DavidSensorNet", 64), ("DavidSensorNet", 500)}  # Those are data sets.


def content(g):
    out = dict(W=g.W.toarray(), coords=np.array(getattr(g, "coords", [])), signals=dict(g.signals))
    for a in ("z", "angles", "labels", "info", "x"):
        if hasattr(g, a):
            out[a] = getattr(g, a)
    return out


def digest(x):
    return hashlib.sha1(repr(_digest(x)).encode()).hexdigest()


class Isolated:
    """The global generators are neither changed nor (being re-seeded between twins) read."""

    def __init__(self, ctx, what):
        self.ctx, self.what = ctx, what

    def __enter__(self):
        self.np, self.py = np.random.get_state(), random.getstate()

    def __exit__(self, exc, *a):
        if exc is None:
            s = np.random.get_state()
            same = all(np.array_equal(a, b) for a, b in zip(s, self.np))
            self.ctx.ok(same, "numpy-global-state-unchanged", self.what)
            self.ctx.ok(random.getstate() == self.py, "python-global-state-unchanged", self.what)


def perturb(rng):
    np.random.seed(int(rng.integers(0, 2**32)))
    random.seed(int(rng.integers(0, 2**32)))
    np.random.uniform(size=int(rng.integers(0, 9)))
    np.random.normal(size=int(rng.integers(0, 4)))


def twins(ctx, rng, make, what, noise=None):
    """The construction, twice, with unrelated draws in between."""
    perturb(rng)
    with Isolated(ctx, what):
        a = make()
    da = digest(a)
    perturb(rng)
    if noise is not None:
        noise()
    with Isolated(ctx, what):
        b = make()
    ctx.ok(digest(b) == da, "reproducible", lambda: f"{what}: two runs differ")
    ctx.ok(digest(a) == da, "first-result-unchanged", what)
    return a, da


@R.family(quick=600, thorough=12000)
def models(ctx, rng):
    compare_models(ctx, rng, MODELS)


@R.family(quick=12, thorough=1000, timeout=120)
def large(ctx, rng):
    """Graphs of hundreds of vertices."""
    compare_models(ctx, rng, LARGE)


def compare_models(ctx, rng, sizes):
    from pygsp import graphs
    name = sorted(sizes)[ctx.rng_index % len(sizes)] if sizes is LARGE else str(rng.choice(sorted(sizes)))
    kw = sizes[name](rng)
    seed = seed_of(rng)
    ctx.describe(True, name=name, kw=kw, seed=seed)

    def make(s=seed):
        return content(getattr(graphs, name)(seed=s, **kw))

    other = str(rng.choice(sorted(MODELS)))
    a, da = twins(ctx, rng, make, name,
                  lambda: getattr(graphs, other)(seed=int(rng.choice([seed, 7])), **MODELS[other](rng)))
    ctx.note(name)
    if kw.get("connected") and kw.get("k", 1) > 1:
        return
    if (name, kw["N" if "N" in kw else "nb_pts"]) in FIXED:
        return
    # Other seeds (and no seed) give other draws.
    for s in ((seed + 1) % 2**32, None):
        b = make(s)
        if digest(b) == da:
            b = make(None if s is None else (seed + 2) % 2**32)
        ctx.ok(digest(b) != da, "other-seed-differs", lambda: f"{name} with seeds {seed} and {s}")
    u, v = make(None), make(None)
    if digest(u) == digest(v):
        v = make(None)
    ctx.ok(digest(u) != digest(v), "no-seed-differs", name)


@R.family(quick=250, thorough=4000)
def layouts(ctx, rng):
    from pygsp import graphs
    g, W, d = gen.spectral_graph(rng, nmin=3, nmax=14)
    kind = str(rng.choice(["random2D", "random3D", "spring", "spring3D", "springpos", "community2D"]))
    seed = seed_of(rng)
    ctx.describe(True, kind=kind, seed=seed, **d)
    kw = {}
    if kind == "spring3D":
        kw = dict(dim=3)
    if kind == "springpos":
        kw = dict(pos=rng.uniform(size=(g.N, 2)), iterations=5)
    if kind == "community2D":
        g = graphs.Community(N=40, Nc=3, seed=3)
    name = "spring" if kind.startswith("spring") else kind

    def make(s=seed):
        h = g.copy() if hasattr(g, "copy") else g
        h.set_coordinates(name, seed=s, **{k: (v.copy() if hasattr(v, "copy") else v) for k, v in kw.items()})
        return h.coords.copy()

    a, da = twins(ctx, rng, make, kind, lambda: g.set_coordinates("random2D", seed=1))
    ctx.note(kind)
    if kind == "springpos":
        return
    for s in ((seed + 1) % 2**32, None):
        ctx.ok(digest(make(s)) != da, "other-seed-differs", lambda: f"{kind} with seeds {seed} and {s}")


@R.family(quick=120, thorough=2000)
def sparsification(ctx, rng):
    from pygsp import graphs, reduction
    n = int(rng.integers(12, 30))
    W = gen.adjacency(rng, n=n, kind="dense", directed=False, weighted="float", loops=False, connected=True)
    g = graphs.Graph(W)
    M = g if rng.uniform() < .6 else g.L
    eps = float(rng.uniform(max(.4, 1 / np.sqrt(n)), .9))
    seed = seed_of(rng)
    ctx.describe(True, W=W, eps=eps, seed=seed, laplacian=M is not g)

    def make(s=seed):
        out = reduction.graph_sparsify(M, eps, seed=s)
        return out.W.toarray() if M is g else out.toarray()

    a, da = twins(ctx, rng, make, "graph_sparsify")
    ctx.ok(digest(make((seed + 1) % 2**32)) != da or digest(make((seed + 2) % 2**32)) != da, "other-seed-differs", "graph_sparsify")
    s1 = np.random.default_rng(seed)
    s2 = np.random.default_rng(seed)
    ctx.ok(digest(make(s1)) == digest(make(s2)), "generator-seed-reproducible")


@R.family(quick=250, thorough=5000)
def operations(ctx, rng):
    """Deterministic operations leave the global generators alone and repeat exactly."""
    from pygsp import graphs, learning, reduction, features
    g, W, d = gen.spectral_graph(rng, nmin=4, nmax=14, lap="combinatorial", connected=True, directed=False)
    s = rng.normal(size=(g.N, 2))
    name, kw, bank = gen.filterbank(rng, g)
    op = str(rng.choice(["exact", "chebyshev", "fourier", "frame", "bounds", "regression", "kron", "pyramid",
                         "components", "unseeded-models", "unseeded-layout", "lmax", "features", "localize", "saveio"]))
    ctx.describe(True, op=op, filter=name, kw=kw, s=s, **d)
    stable = True

    def run():
        if op == "exact":
            return bank.filter(s, method="exact")
        if op == "chebyshev":
            return bank.filter(s, method="chebyshev", order=12)
        if op == "fourier":
            h = graphs.Graph(W)
            h.compute_fourier_basis()
            return h.e, h.gft(s)
        if op == "frame":
            return bank.compute_frame(method="exact")
        if op == "bounds":
            return bank.estimate_frame_bounds()
        if op == "regression":
            return learning.regression_tikhonov(g, s[:, 0], np.arange(g.N) < 2, tau=.3)
        if op == "kron":
            return reduction.kron_reduction(g, [0, 1]).W.toarray()
        if op == "pyramid":
            h = graphs.Graph(W)
            h.compute_fourier_basis()
            Gs = reduction.graph_multiresolution(h, 1, sparsify=False)
            return reduction.pyramid_analysis(Gs, s, method="exact")
        if op == "components":
            return [x.W.toarray() for x in graphs.Graph(W).extract_components()]
        if op == "unseeded-models":
            for n in sorted(MODELS):
                getattr(graphs, n)(**MODELS[n](np.random.default_rng(3)))
            return None
        if op == "unseeded-layout":
            for k in ("random2D", "random3D", "spring"):
                g.set_coordinates(k)
            return None
        if op == "lmax":
            h = graphs.Graph(W)
            h.estimate_lmax("lanczos" if h.N > 6 else "bounds")
            return None
        if op == "features":
            return features.compute_avg_adj_deg(g), features.compute_norm_tig(bank, method="exact")
        if op == "localize":
            return bank.localize(1, method="exact")
        return g.to_networkx().number_of_edges()

    try:
        twins(ctx, rng, run, op)
    except ValueError as e:
        # Filters whose parameters cannot be used on this graph.
        if "pygsp" not in str(e):
            raise
    ctx.note(op)


CHILD = r"""
import json, os, sys
sys.path[:0] = [os.environ["VERIF_HARNESS"], os.environ["VERIF_REPO"]]
import logging; logging.disable(50)
import warnings; warnings.simplefilter("ignore")
import numpy as np
from props import P22
from pygsp import graphs
out = []
for name, kw, seed in json.loads(sys.argv[1]):
    out.append(P22.digest(P22.content(getattr(graphs, name)(seed=seed, **kw))))
print(json.dumps(out))
"""


@R.family(quick=3, thorough=40, timeout=300)
def other_process(ctx, rng):
    """The same seeds give the same graphs in a process with another hash seed."""
    import pygsp
    from pygsp import graphs
    cases = [[n, MODELS[n](rng), seed_of(rng)] for n in sorted(MODELS)]
    ctx.describe(True, cases=cases)
    env = dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(1, 10000))),
               VERIF_HARNESS=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
               VERIF_REPO=os.path.dirname(os.path.dirname(os.path.abspath(pygsp.__file__))))
    p = subprocess.run([sys.executable, "-c", CHILD, json.dumps(cases)], env=env, capture_output=True, text=True)
    if p.returncode:
        raise ModuleNotFoundError(p.stderr[-500:])  # Inconclusive.
    got = json.loads(p.stdout.splitlines()[-1])
    for (name, kw, seed), h in zip(cases, got):
        ctx.ok(digest(content(getattr(graphs, name)(seed=seed, **kw))) == h, "same-in-other-process", lambda: f"{name} {kw} {seed}")
