"""P23: Kron reduction, sparsification and resistances respect the electrical structure."""
import numpy as np
from scipy import sparse

import gen
import ref
from core import Registry
from props.P20 import Warned

R = Registry()
TECHNIQUE = "runtime monitoring: Schur-complement, effective-resistance and leverage-conservation oracles"
R.rule = "seeded weighted graphs, kept vertex sets and sparsification parameters; distinct by content hash"
R.assumptions = [
    "non-negative weights above 1e-9 relative to the largest",
    "every component keeps at least one vertex (otherwise the complement is singular)",
    "sparsified graphs are undirected and connected; the existence of a spectral guarantee is replaced by exact "
    "conservation of the total leverage and unbiasedness of the weights"]


def resistances(W):
    """By grounding one vertex per component and solving for unit currents."""
    n = len(W)
    L = ref.laplacian(W, "combinatorial")
    out = np.full((n, n), np.nan)
    for c in ref.components(W):
        c = np.array(c)
        K = L[np.ix_(c, c)]
        G = np.zeros((len(c), len(c)))
        if len(c) > 1:
            G[1:, 1:] = np.linalg.inv(K[1:, 1:])
        d = np.diag(G)
        out[np.ix_(c, c)] = d[:, None] + d[None] - 2 * G
    return out


def weights(rng, nmin=2, nmax=14, **kw):
    sc = float(rng.choice([1, 1, 1e-12, 1e-3, 50, 1e4, 1e12]))
    return gen.adjacency(rng, nmin=nmin, nmax=nmax, directed=False, scale=sc, **kw)


def kept(rng, W):
    """At least one vertex of every component, in any order."""
    n = len(W)
    keep = {int(rng.choice(c)) for c in ref.components(W)}
    p = rng.choice([.2, .5, .8, 1.])
    keep |= {i for i in range(n) if rng.uniform() < p}
    keep = np.array(sorted(keep))
    if rng.uniform() < .3:
        keep = rng.permutation(keep)
    return keep


def indices(rng, keep):
    how = str(rng.choice(["array", "list", "int32"]))
    return keep if how == "array" else keep.tolist() if how == "list" else keep.astype(np.int32)


def schur(L, keep):
    out = np.setdiff1d(np.arange(len(L)), keep)
    S = L[np.ix_(keep, keep)].astype(float)
    if len(out):
        S = S - L[np.ix_(keep, out)] @ np.linalg.solve(L[np.ix_(out, out)], L[np.ix_(out, keep)])
    return S


@R.family(quick=500, thorough=12000)
def kron_graph(ctx, rng):
    from pygsp import graphs, reduction
    loops = bool(rng.uniform() < .2)
    W = weights(rng, nmin=1, loops=loops)
    n = len(W)
    keep = kept(rng, W)
    g = graphs.Graph(W)
    coords = None
    if rng.uniform() < .6:
        coords = rng.normal(size=(n, int(rng.choice([2, 3]))))
        if rng.uniform() < .2:
            coords = coords[:, 0]
        g.set_coordinates(coords)
    ctx.describe(0 < len(keep) < n, W=W, keep=keep, coords=coords is not None)
    h = reduction.kron_reduction(g, indices(rng, keep))
    L = ref.laplacian(W, "combinatorial")
    S = schur(L, keep)
    top = max(np.abs(L).max(), 1e-300)
    ctx.ok(isinstance(h, graphs.Graph), "graph-in-graph-out")
    ctx.same(h.n_vertices, len(keep), "n-vertices")
    ctx.close(h.L.toarray(), S, "schur-complement", 1e-9, top)
    V = h.W.toarray()
    ctx.same(V, V.T, "symmetric")
    ctx.ok(not h.is_directed(), "undirected")
    ctx.same(np.diag(V), np.zeros(len(keep)), "no-self-loops")
    ctx.ok(V.min(initial=0) >= 0, "non-negative-weights")
    ctx.close(h.L.toarray().sum(1), np.zeros(len(keep)), "zero-row-sums", 1e-9, top)
    ctx.same(h.lap_type, "combinatorial", "lap-type")
    if coords is not None:
        ctx.same(h.coords, coords[keep], "coordinates")
    ctx.same(g.W.toarray(), W, "input-unchanged")
    # Electrical equivalence and connectedness.
    R0 = resistances(W)[np.ix_(keep, keep)]
    ok = ~np.isnan(R0)
    clean = np.where(V > 1e-12 * top, V, 0)
    a = [frozenset(int(keep[i]) for i in c) for c in ref.components(clean)]
    b = [frozenset(set(c) & set(keep.tolist())) for c in ref.components(W)]
    ctx.ok(set(a) == set(b), "connectedness", lambda: f"{a} {b}")
    if set(a) == set(b):
        R1 = resistances(clean)
        ctx.close(R1[ok], R0[ok], "effective-resistances", 1e-7)
    if n > 1 and W.any():
        ctx.ok(h.is_connected() == (len(a) <= 1) or len(keep) == 0, "is-connected")


@R.family(quick=250, thorough=6000)
def kron_nested(ctx, rng):
    """Eliminating in two steps is eliminating at once."""
    from pygsp import graphs, reduction
    W = weights(rng, nmin=3, connected=True, loops=False)
    n = len(W)
    keep = kept(rng, W)
    sub = rng.permutation(len(keep))[:int(rng.integers(1, len(keep) + 1))]
    ctx.describe(len(sub) < len(keep) < n, W=W, keep=keep, sub=sub)
    g = graphs.Graph(W)
    once = reduction.kron_reduction(g, keep[sub])
    twice = reduction.kron_reduction(reduction.kron_reduction(g, keep), sub)
    top = np.abs(W).max()
    ctx.close(twice.W.toarray(), once.W.toarray(), "nested", 1e-8, top)
    p = rng.permutation(len(keep))
    a = reduction.kron_reduction(g, keep).W.toarray()
    b = reduction.kron_reduction(g, keep[p]).W.toarray()
    ctx.close(b, a[np.ix_(p, p)], "order-of-kept", 1e-9, top)


@R.family(quick=300, thorough=7000)
def kron_matrix(ctx, rng):
    from pygsp import reduction
    W = weights(rng, loops=False)
    n = len(W)
    L = ref.laplacian(W, "combinatorial")
    kind = str(rng.choice(["laplacian", "regularized", "spd", "asymmetric"]))
    keep = kept(rng, W)
    if kind == "regularized":
        L = L + float(10. ** rng.uniform(-3, 1)) * np.eye(n) * max(1, np.abs(L).max())
    elif kind == "spd":
        B = rng.normal(size=(n, n))
        L = B @ B.T + np.eye(n)
    elif kind == "asymmetric":
        L = rng.normal(size=(n, n)) + 2 * n * np.eye(n)
    if kind not in ("laplacian",):
        keep = np.sort(rng.permutation(n)[:int(rng.integers(1, n + 1))])
    fmt = str(rng.choice(["csr", "csc", "lil"]))
    M = getattr(sparse, fmt + "_matrix")(L)
    ctx.describe(len(keep) < n, L=L, keep=keep, kind=kind, fmt=fmt)
    before = ref.snapshot(M)
    S = reduction.kron_reduction(M, indices(rng, keep))
    ctx.ok(sparse.issparse(S), "matrix-in-matrix-out", lambda: str(type(S)))
    ctx.close(S.toarray(), schur(L, keep), "schur-complement-of-matrix", 1e-9, np.abs(L).max())
    ctx.ok(ref.snapshot(M) == before, "matrix-unchanged")
    ctx.note(kind)


@R.family(quick=120, thorough=2000)
def kron_rejected(ctx, rng):
    from pygsp import graphs, reduction
    W = weights(rng, nmin=4, connected=True, loops=False)
    keep = kept(rng, W)
    ctx.describe(True, W=W, keep=keep)
    ctx.raises(lambda: reduction.kron_reduction(graphs.Graph(W, lap_type="normalized"), keep),
               NotImplementedError, "normalized-rejected")
    V = W * np.triu(np.ones_like(W))
    if (V != V.T).any():
        ctx.raises(lambda: reduction.kron_reduction(graphs.Graph(V), keep), NotImplementedError, "directed-rejected")


@R.family(quick=400, thorough=10000)
def resistance(ctx, rng):
    from pygsp import graphs, utils
    if rng.uniform() < .4:
        # Dense graphs of equal weights, whose null eigenvalue is rounded the most.
        n = int(rng.integers(2, 25))
        W = np.triu(rng.uniform(size=(n, n)) < rng.choice([.5, .8, .95]), 1) * float(rng.choice([1, 1, 3, .1]))
        W = W + W.T
    else:
        W = weights(rng, nmin=2, nmax=20, connected=bool(rng.uniform() < .7))
    ctx.describe(bool(W.any()), W=W)
    g = graphs.Graph(W)
    how = str(rng.choice(["graph", "csr", "csc", "lil", "coo"]))
    L = g.L
    arg = g if how == "graph" else L.asformat(how)
    before = ref.snapshot(arg) if how != "graph" else ref.snapshot(g.L)
    rd = utils.resistance_distance(arg)
    rd = np.asarray(rd.todense()) if sparse.issparse(rd) else np.asarray(rd)
    want = resistances(W)
    same = ~np.isnan(want)
    ctx.same(rd.shape, W.shape, "shape")
    ctx.close(rd[same], want[same], "effective-resistance", 1e-7)
    ctx.ok((ref.snapshot(arg) if how != "graph" else ref.snapshot(g.L)) == before, "argument-unchanged")
    if same.all():
        # A metric, bounded by the resistance of the edge.
        ctx.close(rd, rd.T, "symmetric-resistance", 1e-9)
        m = W > 0
        np.fill_diagonal(m, False)
        ctx.ok((rd[m] * W[m] <= 1 + 1e-7).all(), "at-most-edge-resistance")
        ctx.close((rd * W).sum() / 2, len(W) - 1, "foster", 1e-6)
    if how == "graph":
        ctx.raises(lambda: utils.resistance_distance(graphs.Graph(W, lap_type="normalized")), ValueError, "normalized-rejected")


def big(rng, lo=10, hi=26):
    n = int(rng.integers(lo, hi))
    kind = str(rng.choice(["dense", "er", "complete", "barbell", "grid", "lollipop"]))
    W = gen.adjacency(rng, n=n, kind=kind, directed=False, weighted=str(rng.choice(["unit", "float", "int"])),
                      loops=bool(rng.uniform() < .15), connected=True)
    if rng.uniform() < .3:
        # Weights of very different magnitudes, hence bridges of all weights.
        S = np.triu(10. ** rng.uniform(-6, 0, W.shape))
        W = W * (S + np.triu(S, 1).T)
    return W * float(rng.choice([1, 1, 100, 1e-3, 1e-12, 1e12]))


@R.family(quick=250, thorough=6000, timeout=60)
def sparsify(ctx, rng):
    check_sparsified(ctx, rng, big(rng))


@R.family(quick=4, thorough=200, timeout=120)
def sparsify_large(ctx, rng):
    """Hundreds of vertices, tens to hundreds of thousands of draws."""
    check_sparsified(ctx, rng, big(rng, 100, 400))


def check_sparsified(ctx, rng, W):
    from pygsp import graphs, reduction
    n = len(W)
    eps = float(rng.uniform(1 / np.sqrt(n), .99)) if n < 100 else float(n ** -.5 * (.99 * n ** .5) ** rng.uniform() ** 2)
    seed = gen._s(rng)
    lap = bool(rng.uniform() < .4)
    ctx.describe(True, W=W, eps=eps, seed=seed, laplacian=lap)
    g = graphs.Graph(W)
    M = g.L.asformat(str(rng.choice(["csr", "csc"]))) if lap else g
    before = ref.snapshot(g.L), ref.snapshot(g.W)
    maxiter = int(rng.integers(1, 12))
    with Warned() as w:
        out = reduction.graph_sparsify(M, eps, maxiter=maxiter, seed=seed)
    ctx.ok((ref.snapshot(g.L), ref.snapshot(g.W)) == before, "input-unchanged")
    if lap:
        ctx.ok(sparse.issparse(out), "laplacian-in-laplacian-out")
        L = out.toarray()
        V = np.diag(np.diag(L)) - L
        top = np.abs(L).max()
        ctx.close(L, L.T, "laplacian-symmetric", 1e-12)
        ctx.close(L.sum(1), np.zeros(n), "laplacian-zero-row-sums", 1e-10, top)
    else:
        ctx.ok(isinstance(out, graphs.Graph), "graph-in-graph-out")
        V = out.W.toarray()
        ctx.same(V, V.T, "symmetric")
        ctx.ok(not out.is_directed(), "undirected")
        top = np.abs(V).max()
    ctx.same(V.shape, W.shape, "vertex-set")
    ctx.ok((V >= -1e-12 * top).all(), "non-negative-weights")
    off = ~np.eye(n, dtype=bool)
    used = (np.abs(V) > 1e-12 * top) & off
    ctx.ok(not (used & (W == 0)).any(), "existing-edges-only")
    # Every sample adds the same leverage: the total is conserved exactly.
    Rd = resistances(W)
    lev = W * Rd * off
    total = lev.sum() / 2
    ctx.close((V * Rd * off).sum() / 2, total, "leverage-conserved", 1e-7)
    # Each edge was drawn a whole number of times out of q.
    iu = np.nonzero(np.triu(used))
    q, e, best = None, eps, None
    share = V[iu] * Rd[iu] / total
    for i in range(maxiter):
        q = int(round(n * np.log(n) * 9 * (4 / 30) ** 2 / e ** 2))
        err = np.abs(share * q - np.round(share * q)).max() if q else np.inf
        best = err if best is None else min(best, err)
        e -= (e - 1 / np.sqrt(n)) / 2
    ctx.ok(best < 1e-4, "whole-draws", lambda: f"smallest fraction {best}")
    connected = len(ref.components(np.where(used, V, 0))) == 1
    ctx.ok(connected or w.messages, "disconnection-reported")
    ctx.ok(not (connected and w.messages), "no-spurious-report", lambda: str(w.messages))
    ctx.note("connected" if connected else "disconnected")
    ctx.note("edges dropped", int((np.triu(W, 1) > 0).sum() - len(iu[0])))


@R.family(quick=16, thorough=150, timeout=200)
def sparsify_unbiased(ctx, rng):
    from pygsp import graphs, reduction
    W = big(rng, 10, 16)
    np.fill_diagonal(W, 0)
    n = len(W)
    # A small enough epsilon for the first draw to be connected (no selection).
    eps = 1 / np.sqrt(n)
    g = graphs.Graph(W)
    ctx.describe(True, W=W, eps=eps)
    Rd = resistances(W)
    P = W * Rd
    P /= P.sum() / 2
    q = int(round(n * np.log(n) * 9 * (4 / 30) ** 2 / eps ** 2))
    reps = 60
    mean = np.zeros_like(W)
    s0 = gen._s(rng)
    for k in range(reps):
        mean += reduction.graph_sparsify(g, eps, maxiter=1, seed=(s0 + k) % 2**32).W.toarray() / reps
    m = W > 0
    # The number of draws of each edge is binomial.
    from scipy import stats
    draws = np.round(mean[m] * reps * q * P[m] / W[m])
    p = np.minimum(stats.binom.cdf(draws, q * reps, P[m]), stats.binom.sf(draws - 1, q * reps, P[m])).min()
    ctx.ok(p > 1e-13, "unbiased", lambda: f"probability {p:.1e}")
    ctx.note("draws", q * reps)


@R.family(quick=100, thorough=1500)
def sparsify_rejected(ctx, rng):
    from pygsp import graphs, reduction
    W = big(rng)
    n = len(W)
    g = graphs.Graph(W)
    bad = float(rng.choice([0, -.1, 1 / np.sqrt(n) * .99, 1, 1.5]))
    ctx.describe(True, W=W, bad=bad)
    ctx.raises(lambda: reduction.graph_sparsify(g, bad, seed=1), ValueError, "epsilon-rejected")
    ctx.raises(lambda: reduction.graph_sparsify(g.L, bad, seed=1), ValueError, "epsilon-rejected")
    ctx.raises(lambda: reduction.graph_sparsify(graphs.Graph(W, lap_type="normalized"), .5, seed=1),
               NotImplementedError, "normalized-rejected")


@R.family(quick=6, thorough=400, timeout=120)
def large(ctx, rng):
    """Hundreds of vertices, possibly of long diameters: resistances and Kron reduction."""
    from pygsp import graphs, reduction, utils
    d, S = gen.large(rng, 150, 500, directed=False, loops=False)
    W = S.toarray()
    n = len(W)
    ctx.describe(**d)
    g = graphs.Graph(S)
    rd = utils.resistance_distance(g if rng.uniform() < .5 else g.L)
    rd = np.asarray(rd.todense()) if sparse.issparse(rd) else np.asarray(rd)
    want = resistances(W)
    same = ~np.isnan(want)
    ctx.close(rd[same], want[same], "effective-resistance", 1e-7)
    keep = kept(rng, W)
    h = reduction.kron_reduction(g, keep)
    L = ref.laplacian(W, "combinatorial")
    ctx.close(h.L.toarray(), schur(L, keep), "schur-complement", 1e-9, np.abs(L).max())
    ctx.note(d["kind"])
