"""P29: results are equivariant to vertex relabelling and weight scaling."""
import numpy as np

import gen
import ref
from core import Registry

R = Registry()
TECHNIQUE = "runtime monitoring: metamorphic oracles relating two real runs (vertices relabelled, weights scaled)"
R.rule = "seeded graphs, permutations, scale factors, filters and signals; distinct by content hash"
R.assumptions = ["largest frequencies from the Fourier basis or the bounds (the iterative estimate is random)",
                 "per-vertex spectral quantities built on single eigenvectors need distinct eigenvalues and are not compared",
                 "scaling by factors between 1e-12 and 1e12"]

BANKS = [f for f in gen.FILTERS if f not in ("poly", "lambda", "lambdas")]


def pair(rng, W, lap, p):
    from pygsp import graphs
    return graphs.Graph(W, lap_type=lap), graphs.Graph(W[np.ix_(p, p)], lap_type=lap)


def frequencies(rng, *gs):
    how = str(rng.choice(["basis", "bounds"]))
    for g in gs:
        if how == "basis":
            g.compute_fourier_basis()
        else:
            g.estimate_lmax("bounds")
    return how


def same_bank(rng, gs, names=BANKS):
    """The same design on each graph."""
    name = str(rng.choice(names))
    state = rng.bit_generator.state
    out = []
    for g in gs:
        rng.bit_generator.state = state
        out.append(gen.filterbank(rng, g, name))
    return out[0][0], out[0][1], [o[2] for o in out]


def norm(x):
    return max(np.abs(x).max(initial=0), 1e-300)


@R.family(quick=500, thorough=12000)
def structure(ctx, rng):
    """Everything about the graph itself."""
    lap = str(rng.choice(["combinatorial", "normalized"]))
    W = gen.adjacency(rng, nmin=2, nmax=18, scale=gen.scale(rng) if rng.uniform() < .3 else None)
    n = len(W)
    p = rng.permutation(n)
    inv = np.argsort(p)
    ctx.describe(bool(W.any()), W=W, p=p, lap=lap)
    g, h = pair(rng, W, lap, p)
    for name in ("n_vertices", "n_edges"):
        ctx.same(getattr(h, name), getattr(g, name), "counts")
    for name in ("is_directed", "is_connected", "is_weighted", "has_loops"):
        ctx.ok(getattr(h, name)() == getattr(g, name)(), "predicates", name)
    ctx.same(h.A.toarray(), g.A.toarray()[np.ix_(p, p)], "adjacency-permuted")
    ctx.same(h.d, g.d[p], "degrees-permuted")
    ctx.close(h.dw, g.dw[p], "degrees-permuted", 1e-12)
    L = g.L.toarray()
    nl = norm(L) if lap == "combinatorial" else max(1, norm(L))
    ctx.close(h.L.toarray(), L[np.ix_(p, p)], "laplacian-permuted", 1e-12, nl)
    ctx.close(h._get_upper_bound(), g._get_upper_bound(), "bound-unchanged", 1e-12)
    g.estimate_lmax("bounds"), h.estimate_lmax("bounds")
    ctx.close(h.lmax, g.lmax, "bound-unchanged", 1e-12)
    ctx.close(h.e, g.e, "spectrum-unchanged", 1e-9, nl)
    ctx.close(h.lmax, g.lmax, "spectrum-unchanged", 1e-9, nl)
    # Edges.
    s, t, w = g.get_edge_list()
    s2, t2, w2 = h.get_edge_list()
    if g.is_directed():
        a = sorted(zip(inv[s], inv[t], w))
        b = sorted(zip(s2, t2, w2))
    else:
        a = sorted(zip(np.minimum(inv[s], inv[t]), np.maximum(inv[s], inv[t]), w))
        b = sorted(zip(np.minimum(s2, t2), np.maximum(s2, t2), w2))
        ca = {frozenset(inv[list(c.info["orig_idx"])].tolist()) for c in g.extract_components()}
        cb = {frozenset(np.asarray(c.info["orig_idx"]).tolist()) for c in h.extract_components()}
        ctx.ok(ca == cb, "components-mapped", lambda: f"{ca} {cb}")
    ctx.same(np.array(b, float), np.array(a, float), "edges-mapped")
    # Differences.
    x = gen.signal(rng, n)
    ctx.close(h.dirichlet_energy(x[p]), g.dirichlet_energy(x), "energy-unchanged", 1e-9, nl * norm(x)**2 * n)
    ga, gb = g.grad(x), h.grad(x[p])
    sc = np.sqrt(nl) * norm(x)
    ctx.close(np.sort(np.abs(gb)), np.sort(np.abs(ga)), "gradients-mapped", 1e-9, sc)
    ctx.close(h.div(gb), g.div(ga)[p], "divergence-permuted", 1e-9, nl * norm(x) * n)
    ctx.note(f"{lap} directed={g.is_directed()}")
    # Subgraphs of the same vertices.
    k = int(rng.integers(1, n + 1))
    v = rng.permutation(n)[:k]
    ctx.same(h.subgraph(inv[v]).W.toarray(), g.subgraph(v).W.toarray(), "subgraph-same")


@R.family(quick=400, thorough=9000)
def filtering(ctx, rng):
    lap = str(rng.choice(["combinatorial", "normalized"]))
    W = gen.adjacency(rng, nmin=3, nmax=16)
    L = ref.laplacian(W, lap)
    if not norm(L) > 1e-9:
        ctx.skip("no edge")
    n = len(W)
    p = rng.permutation(n)
    inv = np.argsort(p)
    g, h = pair(rng, W, lap, p)
    how = frequencies(rng, g, h)
    name, kw, (f, f2) = same_bank(rng, (g, h), gen.FILTERS)
    if how == "basis":
        h._lmax = g.lmax  # rounding may move a band edge across an eigenvalue
        name, kw, (f, f2) = same_bank(rng, (g, h), gen.FILTERS)
    method = str(rng.choice(["exact", "chebyshev"]))
    shape = [(), (3,)][int(rng.integers(2))]
    x = gen.signal(rng, n, shape)
    ctx.describe(True, W=W, p=p, lap=lap, filter=name, kw=kw, x=x, method=method)
    ctx.note(f"{name} {method}")
    X = np.linspace(0, g.lmax, 23)
    y = f.evaluate(X)
    ctx.close(f2.evaluate(X), y, "same-design", 1e-9, norm(y))
    if method == "exact" and name in ("Rectangular", "Expwin", "Papadakis", "Simoncelli", "Held", "HalfCosine"):
        # discontinuous, or continuous but not smooth at band edges
        e = ref.eig(L)[0]
        d = 1e-7 * e[-1]
        jump = np.abs(f.evaluate(np.maximum(e + d, 0)) - f.evaluate(np.clip(e - d, 0, g.lmax))).max()
        if not jump < 1e-3:
            ctx.skip("band edge on an eigenvalue")
    tol = 1e-6 if method == "exact" else 1e-9
    sc = norm(x) * norm(y) * n
    a, b = f.filter(x, method=method), f2.filter(x[p], method=method)
    ctx.close(b, a[p], "filtered-permuted", tol, sc)
    if shape == ():
        i = int(rng.integers(n))
        ctx.close(f2.localize(int(inv[i]), method=method), f.localize(i, method=method)[p], "atoms-permuted", tol, norm(y) * n)
        F, F2 = f.compute_frame(method=method), f2.compute_frame(method=method)
        k = f.Nf
        F, F2 = F.reshape(k, n, n), F2.reshape(k, n, n)
        ctx.close(F2, F[:, p][:, :, p], "frame-permuted", tol, norm(y) * n)
        if f.Nf > 1:
            c = gen.signal(rng, n, (1, f.Nf))
            ctx.close(f2.filter(c[p], method=method), f.filter(c, method=method)[p], "synthesis-permuted", tol,
                      norm(c) * norm(y) * n * f.Nf)
    ctx.close(f2.estimate_frame_bounds(X), f.estimate_frame_bounds(X), "bounds-unchanged", 1e-9, norm(y)**2 * f.Nf)


@R.family(quick=250, thorough=6000)
def features(ctx, rng):
    from pygsp import features as ft
    from pygsp import filters
    W = gen.adjacency(rng, nmin=3, nmax=14, directed=False)
    if not ref.laplacian(W, "combinatorial").any():
        ctx.skip("no edge")
    n = len(W)
    p = rng.permutation(n)
    ctx.describe(True, W=W, p=p)
    g, h = pair(rng, W, "combinatorial", p)
    ctx.close(ft.compute_avg_adj_deg(h).ravel(), ft.compute_avg_adj_deg(g).ravel()[p], "neighbour-degrees-permuted", 1e-12)
    g.compute_fourier_basis(), h.compute_fourier_basis()
    ctx.close(ft.compute_spectrogram(h, M=5), ft.compute_spectrogram(g, M=5)[p], "spectrogram-permuted", 1e-8)
    f, f2 = [filters.Heat(v, [1, 8]) for v in (g, h)]
    for a, b in zip(ft.compute_norm_tig(f, method="exact"), ft.compute_norm_tig(f2, method="exact")):
        ctx.close(b, a[p], "norms-permuted", 1e-8)


@R.family(quick=400, thorough=9000)
def solvers(ctx, rng):
    """Regressions, classifications, reductions and resistances of a relabelled graph."""
    from pygsp import learning, reduction, utils
    W = gen.adjacency(rng, nmin=4, nmax=14, directed=False, loops=False, connected=True)
    n = len(W)
    p = rng.permutation(n)
    inv = np.argsort(p)
    g, h = pair(rng, W, "combinatorial", p)
    M = rng.uniform(size=n) < .5
    M[rng.integers(n)] = True
    y = gen.signal(rng, n)
    z = rng.integers(0, 3, n)
    tau = float(rng.choice([.1, 1, 10]))
    ctx.describe(True, W=W, p=p, M=M, y=y, z=z, tau=tau)
    L = ref.laplacian(W, "combinatorial")
    cond = np.linalg.cond(L[np.ix_(~M, ~M)]) if not M.all() else 1
    a, b = learning.regression_tikhonov(g, y, M), learning.regression_tikhonov(h, y[p], M[p])
    ctx.close(b, a[p], "interpolation-permuted", 1e-12 * max(cond, 1e3), norm(y))
    a, b = learning.regression_tikhonov(g, y, M, tau), learning.regression_tikhonov(h, y[p], M[p], tau)
    A = np.diag(M.astype(float)) + tau * L
    ctx.close(b, a[p], "regression-permuted", 5e-5 * np.linalg.cond(A), norm(y))
    a, b = learning.classification_tikhonov(g, z, M), learning.classification_tikhonov(h, z[p], M[p])
    ctx.close(b, a[p], "classification-permuted", 1e-12 * max(cond, 1e3), 1)
    res = ref.resistance(W)
    tol = 1e-9
    ctx.close(utils.resistance_distance(g).toarray(), res, "resistances", 1e-7)
    ctx.close(utils.resistance_distance(h).toarray(), utils.resistance_distance(g).toarray()[np.ix_(p, p)],
              "resistances-permuted", 1e-7)
    k = int(rng.integers(1, n))
    ind = np.sort(rng.permutation(n)[:k])
    a, b = reduction.kron_reduction(g, ind), reduction.kron_reduction(h, inv[ind])
    ctx.close(b.W.toarray(), a.W.toarray(), "kron-same", 1e-9, norm(W))
    g.estimate_lmax("bounds"), h.estimate_lmax("bounds")
    s = rng.normal(size=k)
    a, b = reduction.interpolate(g, s, ind), reduction.interpolate(h, s, inv[ind])
    ctx.close(b, a[p], "reduction-interpolation-permuted", 1e-6, norm(s) * 10)
    ctx.note("solved")


@R.family(quick=200, thorough=4000)
def simplex(ctx, rng):
    from pygsp import learning
    W = gen.adjacency(rng, nmin=4, nmax=10, directed=False, loops=False, connected=True)
    n = len(W)
    p = rng.permutation(n)
    g, h = pair(rng, W, "combinatorial", p)
    g.estimate_lmax("bounds"), h.estimate_lmax("bounds")
    M = rng.uniform(size=n) < .6
    M[0] = True
    z = rng.integers(0, 3, n)
    k = int(rng.integers(1, 60))
    ctx.describe(True, W=W, p=p, M=M, z=z, k=k)
    kw = dict(tau=.5, maxit=k, verbosity="NONE")
    a, b = learning.classification_tikhonov_simplex(g, z, M, **kw), learning.classification_tikhonov_simplex(h, z[p], M[p], **kw)
    ctx.close(b, a[p], "simplex-permuted", 1e-6, 1)


@R.family(quick=400, thorough=9000)
def scaling(ctx, rng):
    from pygsp import graphs, learning, reduction, utils
    lap = str(rng.choice(["combinatorial", "normalized"]))
    W = gen.adjacency(rng, nmin=3, nmax=16)
    if not norm(ref.laplacian(W, lap)) > 1e-9:  # rounding errors of isolated self-loops
        ctx.skip("no edge")
    n = len(W)
    c = float(rng.choice([1e-12, 1e-9, 1e-4, .01, .5, 2, 3, 1000, 1e4, 1e9, 1e12])) if rng.uniform() < .5 else float(10**rng.uniform(-9, 9))
    g, h = graphs.Graph(W, lap_type=lap), graphs.Graph(c * W, lap_type=lap)
    k = c if lap == "combinatorial" else 1.
    ctx.describe(True, W=W, c=c, lap=lap)
    L = g.L.toarray()
    ctx.note(f"{lap} scaled {'up' if c > 1 else 'down'}")
    ctx.close(h.L.toarray(), k * L, "laplacian-scaled", 1e-12, k * norm(L))
    ctx.same(h.d, g.d, "degrees-unchanged")
    ctx.close(h.dw, c * g.dw, "weighted-degrees-scaled", 1e-12)
    ctx.ok(h.n_edges == g.n_edges and h.is_connected() == g.is_connected() and h.is_directed() == g.is_directed(),
           "structure-unchanged")
    ctx.close(h._get_upper_bound(), k * g._get_upper_bound(), "bound-scaled", 1e-12)
    x = gen.signal(rng, n)
    ctx.close(h.dirichlet_energy(x), k * g.dirichlet_energy(x), "energy-scaled", 1e-9, k * norm(L) * norm(x)**2 * n)
    ctx.close(h.grad(x), np.sqrt(k) * g.grad(x), "gradient-scaled", 1e-9, np.sqrt(k * norm(L)) * norm(x))
    how = str(rng.choice(["basis", "bounds"]))
    for v in (g, h):
        v.estimate_lmax("bounds") if how == "bounds" else v.compute_fourier_basis()
    ctx.close(h.lmax, k * g.lmax, "maximum-scaled", 1e-9)
    if how == "basis":
        ctx.close(h.e, k * g.e, "spectrum-scaled", 1e-9, k * norm(L))
    # Relative frequencies.
    if how == "basis":
        h._lmax = k * g.lmax
    name, kw, (f, f2) = same_bank(rng, (g, h))
    ctx.describe(True, filter=name, kw=kw)
    ctx.note("filter " + name)
    X = np.linspace(0, 1, 21)[:-1] + rng.uniform(0, .01)
    X = X[[all(b is None or abs(x - b) > 1e-9 for b in (kw.get("band_min"), kw.get("band_max"))) for x in X]]
    y = f.evaluate(X * g.lmax)
    y2 = f2.evaluate(X * h.lmax)
    ctx.close(y2, y, "design-relative", 1e-6, norm(y))
    sc = norm(x) * norm(y) * n
    a, b = f.filter(x, method="chebyshev"), f2.filter(x, method="chebyshev")
    if name != "Rectangular":
        ctx.close(b, a, "filtered-unchanged", 1e-6, sc)
    e = ref.eig(L)[0]
    d = 1e-7 * e[-1]
    jump = np.abs(f.evaluate(np.maximum(e + d, 0)) - f.evaluate(np.clip(e - d, 0, g.lmax))).max()
    if jump < 1e-3:
        ctx.close(f2.filter(x, method="exact"), f.filter(x, method="exact"), "filtered-unchanged", 1e-6, sc)
    # Solvers.
    if lap == "combinatorial" and len(ref.components(W)) == 1 and not ref.directed(W):
        M = rng.uniform(size=n) < .5
        M[0] = True
        cond = np.linalg.cond(L[np.ix_(~M, ~M)]) if not M.all() else 1
        ctx.close(learning.regression_tikhonov(h, x, M), learning.regression_tikhonov(g, x, M), "interpolation-unchanged",
                  1e-12 * max(cond, 1e3), norm(x))
        if not g.has_loops() and 1e-3 <= c <= 1e3:
            ctx.close(utils.resistance_distance(h).toarray() * c, utils.resistance_distance(g).toarray(), "resistances-scaled", 1e-7)
            ind = np.sort(rng.permutation(n)[:int(rng.integers(1, n))])
            ctx.close(reduction.kron_reduction(h, ind).W.toarray(), c * reduction.kron_reduction(g, ind).W.toarray(),
                      "kron-scaled", 1e-8, c * norm(W))


@R.family(quick=200, thorough=4000)
def neighbours(ctx, rng):
    """Graphs of points are permuted with the points, and kept by rigid motions."""
    from pygsp import graphs
    n, d = int(rng.integers(6, 24)), int(rng.integers(2, 4))
    X = rng.normal(size=(n, d))
    p = rng.permutation(n)
    kw = dict(NNtype="knn", k=int(rng.integers(2, 5))) if rng.uniform() < .6 else dict(NNtype="radius", epsilon=1.)
    kw.update(center=bool(rng.integers(2)), rescale=bool(rng.integers(2)), sigma=float(rng.choice([.1, 1])))
    D = ref.distances(X)
    if kw["NNtype"] == "radius":
        kw["epsilon"] = float(rng.uniform(.5, 1.)) if not kw["rescale"] else .8
    ctx.describe(True, X=X, p=p, kw=kw)
    try:
        a = graphs.NNGraph(X, **kw)
    except ValueError as e:
        if "neighbors" in str(e):
            ctx.skip("no neighbours")
        raise
    b = graphs.NNGraph(X[p], **kw)
    ctx.close(b.W.toarray(), a.W.toarray()[np.ix_(p, p)], "neighbours-permuted", 1e-9)
    Q = np.linalg.qr(rng.normal(size=(d, d)))[0]
    kw["rescale"] = False
    if kw["NNtype"] == "radius":
        e = kw["epsilon"]
        if np.abs(D - e).min() < 1e-6 or not (D[~np.eye(n, dtype=bool)] < e).any():
            ctx.skip("points on the sphere")
    kw["center"] = False
    a = graphs.NNGraph(X, **kw)
    c = graphs.NNGraph(X @ Q + rng.normal(size=d), **kw)
    ctx.close(c.W.toarray(), a.W.toarray(), "rigid-motion", 1e-7)
    ctx.note(kw["NNtype"])
