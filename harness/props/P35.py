"""P35: copied and pickled graphs and filters are equal to the original and independent of it."""
import copy
import pickle

import numpy as np
from scipy import sparse

import gen
import ref
from core import Registry
from props.P28 import alike, freeze, raw, scribble

R = Registry()
TECHNIQUE = ("runtime monitoring: every graph model copied, deep-copied and pickled in random cache states, bit-exact snapshots of "
             "both sides, then random histories on one side with the other watched")
R.rule = "graph model or random graph x cache state x way of copying x seeded history; distinct by content hash"
R.assumptions = ["a shallow copy shares arrays and dictionaries with the original, as copy.copy does everywhere; only "
                 "rebinding operations are watched on it", "filters hold user functions, which cannot be pickled"]

WAYS = {
    "copy": copy.copy,
    "deepcopy": copy.deepcopy,
    "pickle2": lambda g: pickle.loads(pickle.dumps(g, 2)),
    "pickle5": lambda g: pickle.loads(pickle.dumps(g, 5)),
}


def everything(G):
    """All attributes, by value."""
    out = {}
    for k, v in vars(G).items():
        if k == "logger":
            continue
        if sparse.issparse(v):
            out[k] = (v.shape, str(v.dtype), v.toarray().tobytes())
        else:
            r = raw(v)
            out[k] = r[:1] if r[0] in ("callable", "obj") and "0x" in str(r) else r
    return out


def answers(G, rng_seed, light=False):
    """What a user can ask a graph."""
    from pygsp import filters, learning
    rng = np.random.default_rng(rng_seed)
    s = rng.normal(size=G.N)
    out = [repr(G), G.N, G.Ne, G.n_edges, G.W, G.L, G.A, G.d, G.dw, G.lap_type, G.is_directed(), G.is_connected(), G.is_weighted(),
           G.has_loops(), list(G.get_edge_list()), type(G).__name__, sorted(G.signals), G.signals, getattr(G, "coords", None)]
    if light:
        return freeze(out)
    G.compute_differential_operator()
    G.compute_fourier_basis()
    out += [G.D, np.abs(G.e), G.coherence, G.lmax, G.igft(G.gft(s)), G.div(G.grad(s)), G.dirichlet_energy(s)]
    if np.abs(G.L).max() > 1e-9 * np.abs(G.W).max():
        out += [filters.Heat(G, 3).filter(s, method="exact"), filters.MexicanHat(G, 4).filter(s, order=20)]
    out += [G.subgraph(np.arange(G.N // 2 + 1)), G.to_networkx().number_of_edges()]
    return freeze(out)


def graph(ctx, rng):
    from pygsp import graphs
    if rng.uniform() < .5:
        name = str(rng.choice(sorted(gen.MODEL_KW)))
        kw = gen.MODEL_KW[name](rng)
        G = getattr(graphs, name)(**kw)
        d = f"{name} {kw}"
        if G.N > 80:
            ctx.skip("large")
    else:
        G, W, d = gen.spectral_graph(rng, nmin=2, nmax=14, models=0, scaled=rng.uniform() < .3)
        d = repr(d)
    if G.W.nnz == 0 or G.W.min() < 0:
        ctx.skip("edgeless")
    if not hasattr(G, "coords") and rng.uniform() < .5:
        G.set_coordinates(rng.normal(size=(G.N, 2)))
    for k in range(int(rng.integers(0, 3))):
        G.set_signal(rng.normal(size=G.N), f"s{k}")
    done = []
    for step in rng.permutation(["lmax", "basis", "D", "queries", "normalized", "none", "none"])[:3]:
        done.append(str(step))
        if step == "lmax":
            G.estimate_lmax(str(rng.choice(["lanczos", "bounds"])))
        elif step == "basis":
            G.compute_fourier_basis()
        elif step == "D":
            G.compute_differential_operator()
        elif step == "queries":
            G.A, G.d, G.dw, G.is_connected(), G.is_directed()
        elif step == "normalized":
            G.compute_laplacian("normalized")
    return G, d, done


def disturb(G, rng, rebind_only=False):
    """Changes a user may make to a graph."""
    if getattr(G, "spoiled", False):
        return "nothing"
    k = str(rng.choice(["laplacian", "coords", "lmax", "basis", "signal", "scribble", "plotting", "caches"]))
    if rebind_only and k in ("signal", "scribble", "plotting", "caches"):
        k = "laplacian"
    if k == "laplacian":
        G.compute_laplacian("normalized" if G.lap_type == "combinatorial" else "combinatorial")
    elif k == "coords":
        G.set_coordinates(rng.normal(size=(G.N, 3)))
    elif k == "lmax":
        G.estimate_lmax("bounds" if G._lmax_method != "bounds" else "lanczos")
    elif k == "basis":
        G.compute_fourier_basis()
    elif k == "signal":
        G.set_signal(np.zeros(G.N), "new")
        for v in list(G.signals)[:1]:
            G.signals[v] = np.ones(G.N)
    elif k == "scribble":
        scribble(G)
        G.spoiled = True
    elif k == "plotting":
        G.plotting["vertex_color"] = (.1, .2, .3)
    else:
        for v in (G.A, G.d, G.dw, G.D, G.U, G.e):
            v = v.data if sparse.issparse(v) else v
            if isinstance(v, np.ndarray) and v.flags.writeable:
                v[...] = 0
        G.spoiled = True
    return k


@R.family(quick=800, thorough=8000)
def copies(ctx, rng):
    G, d, done = graph(ctx, rng)
    way = str(rng.choice(sorted(WAYS)))
    ctx.describe(graph=d, done=done, way=way, W=G.W)
    before = everything(G)
    H = WAYS[way](G)
    what = lambda: f"{way} of {d} after {done}"
    ctx.note(way)
    ctx.ok(everything(G) == before, "original-unchanged", what)
    ctx.ok(H is not G and type(H) is type(G), "same-type", what)
    mine, theirs = before, everything(H)
    ctx.ok(set(mine) == set(theirs), "same-attributes", lambda: f"{what()}: {set(mine) ^ set(theirs)}")
    for k in mine:
        ctx.ok(mine[k] == theirs[k], "equal-attributes", lambda: f"{what()}: {k} {str(mine[k])[:100]} became {str(theirs[k])[:100]}")
    # independence
    if way == "copy":
        moves = [disturb(H, rng, True) for _ in range(3)]
        changed = {k for k, v in everything(G).items() if v != before[k]}
        ctx.ok(not changed, "original-independent", lambda: f"{what()}: {moves} on the copy changed {changed}")
        return
    seed = int(rng.integers(1 << 30))
    if rng.uniform() < .5:
        watch, other, name = G, H, "copy"
    else:
        watch, other, name = H, G, "original"
    before = everything(watch)
    moves = [disturb(other, rng) for _ in range(int(rng.integers(1, 5)))]
    now = everything(watch)
    changed = {k for k in set(before) | set(now) if now.get(k) != before.get(k)}
    ctx.ok(not changed, "independent", lambda: f"{what()}: {moves} on the {name} changed {changed} of the other")
    # the untouched one still answers like a graph built from scratch
    from pygsp import graphs
    W = watch.W.copy()
    fresh = graphs.Graph(W, lap_type=watch.lap_type)
    a, b = answers(watch, seed, light=True), answers(fresh, seed, light=True)
    for i in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14):
        ctx.ok(alike(a[i], b[i], 1e-9), "answers", lambda: f"{what()}: answer {i}: {a[i]} vs {b[i]}")


@R.family(quick=400, thorough=5000)
def behaviour(ctx, rng):
    """A copy answers every question as the original does."""
    G, d, done = graph(ctx, rng)
    way = str(rng.choice(sorted(WAYS)))
    ctx.describe(graph=d, done=done, way=way, W=G.W)
    H = WAYS[way](G)
    if rng.uniform() < .4:  # a copy of a copy
        H = WAYS[str(rng.choice(sorted(WAYS)))](H)
    if way == "copy" or rng.uniform() < .5:
        G.signals, G.plotting = dict(G.signals), dict(G.plotting)
    seed = int(rng.integers(1 << 30))
    order = [G, H] if rng.uniform() < .5 else [H, G]
    a = answers(order[0], seed)
    b = answers(order[1], seed)
    for i, (x, y) in enumerate(zip(a, b)):
        if way == "copy" and i == 17:
            continue
        sc = 1e-7
        ctx.ok(alike(x, y, sc), "same-answers", lambda: f"{way} of {d} after {done}: answer {i}: {str(x)[:300]} vs {str(y)[:300]}")


@R.family(quick=350, thorough=4000)
def banks(ctx, rng):
    """Copied filters, alone or together with their graph."""
    from pygsp import filters
    G, d, done = graph(ctx, rng)
    if np.abs(G.L).max() <= 1e-9 * np.abs(G.W).max():
        ctx.skip("no frequency")
    exact = rng.uniform() < .5
    G.compute_fourier_basis() if exact else G.estimate_lmax("bounds")
    exact = exact or G._lmax_method == "fourier"
    name, kw, f = gen.filterbank(rng, G)
    way = str(rng.choice(["copy", "deepcopy"]))
    ctx.describe(graph=d, bank=name, kw=repr(kw), way=way, W=G.W)
    x = np.linspace(0, G.lmax, 11)
    s = rng.normal(size=G.N)
    want = [f.evaluate(x), f.filter(s, order=15), f.filter(s, method="exact") if exact else 0, f.Nf, f.n_filters, f.n_features_in,
            f.n_features_out, repr(f), f.estimate_frame_bounds(x)]
    want = freeze(want)
    h = WAYS[way](f)
    what = lambda: f"{way} of {name} {kw} on {d}"
    ctx.ok(type(h) is type(f) and h is not f, "same-type", what)
    ctx.ok(h.G.N == G.N and (h.G.W != G.W).nnz == 0, "same-graph", what)
    got = freeze([h.evaluate(x), h.filter(s, order=15), h.filter(s, method="exact") if exact else 0, h.Nf, h.n_filters, h.n_features_in,
                  h.n_features_out, repr(h), h.estimate_frame_bounds(x)])
    for i, (a, b) in enumerate(zip(want, got)):
        ctx.ok(alike(a, b, 1e-7), "same-answers", lambda: f"{what()}: answer {i}: {str(a)[:300]} vs {str(b)[:300]}")
    # growing one does not grow the other
    (f + h), f[0] if hasattr(f, "__getitem__") else None
    ctx.ok(alike(want[0], freeze(h.evaluate(x)), 1e-12) and alike(want[0], freeze(f.evaluate(x)), 1e-12), "independent", what)
    if way == "deepcopy":
        ctx.ok(h.G is not G, "independent", what)
        h.G.compute_laplacian("normalized" if G.lap_type == "combinatorial" else "combinatorial")
        h.G.set_coordinates(np.zeros((G.N, 2)))
        got = freeze([f.evaluate(x), f.filter(s, order=15), f.filter(s, method="exact") if exact else 0])
        for i, (a, b) in enumerate(zip(want, got)):
            ctx.ok(alike(a, b, 1e-7), "independent", lambda: f"{what()}: answer {i} of the original changed")
