"""P24: graph pyramids reconstruct signals perfectly."""
import numpy as np
from scipy import sparse

import gen
import ref
from core import Registry
from props.P23 import resistances, schur

R = Registry()
TECHNIQUE = "runtime monitoring: dense reference pyramid, perfect-reconstruction and index-map oracles"
R.rule = "seeded graphs, signals, filters, options and levels; distinct by content hash"
R.assumptions = [
    "undirected connected graphs with the combinatorial Laplacian",
    "the polarity is compared when the largest eigenvalue is simple (relative gap 1e-6) and the entries of its "
    "eigenvector are above 1e-6; otherwise the kept set is only checked to be a valid subset",
    "sparsified multiresolutions are random (no seed): only their structure is checked",
    "Chebyshev approximations are compared with the exact pyramid only in their perfect reconstruction"]


def graph(rng, nmin=2, nmax=26, seed=None):
    from pygsp import graphs
    if rng.uniform() < .3:
        name = str(rng.choice(["Ring", "Path", "Grid2d", "Comet", "Star", "Sensor", "BarabasiAlbert"]))
        kw = gen.MODEL_KW[name](rng)
        if name == "Path":
            kw["directed"] = False
        if name == "BarabasiAlbert":
            kw["m0"] = kw["m"] = 1
        g = getattr(graphs, name)(**kw)
        if len(ref.components(g.W.toarray())) == 1:
            return g, g.W.toarray().astype(float), dict(model=name, kw=kw)
    if nmax > 50:
        W = gen.large(rng, nmin, nmax, directed=False, connected=True, loops=False)[1].toarray()
        W *= float(rng.choice([1, 1, 1, .1, 20]))
    else:
        W = gen.adjacency(rng, nmin=nmin, nmax=nmax, directed=False, connected=True, loops=False,
                          scale=float(rng.choice([1, 1, 1, .1, 20])))
    g = graphs.Graph(W)
    if rng.uniform() < .4:
        g.set_coordinates(rng.normal(size=(g.N, 2)))
    return g, W, dict(W=W)


def polarity(L):
    """(kept vertices, whether they are well defined)."""
    if len(L) == 1:
        return np.array([0]), True
    e, U = ref.eig(L)
    v = U[:, -1] * np.sign(U[0, -1])
    clear = e[-1] - e[-2] > 1e-6 * e[-1] and np.abs(v).min() > 1e-6
    return np.nonzero(v >= 0)[0], clear


def basis(ctx, rng, g):
    how = str(rng.choice(["none", "none", "full", "lmax", "partial"]))
    if how == "full":
        g.compute_fourier_basis()
    elif how == "lmax":
        g.estimate_lmax("bounds")
    elif how == "partial" and g.N >= 8:
        try:
            g.compute_fourier_basis(3)
        except Exception as e:
            if "Arpack" not in type(e).__name__:
                raise
    ctx.note("basis:" + how)
    return how


@R.family(quick=350, thorough=8000)
def multiresolution(ctx, rng):
    check_multiresolution(ctx, rng, graph(rng), int(rng.integers(0, 5)))


@R.family(quick=40, thorough=1200, timeout=120)
def multiresolution_deep(ctx, rng):
    """Up to nine levels."""
    check_multiresolution(ctx, rng, graph(rng, nmin=20, nmax=160), int(rng.integers(4, 10)))


def check_multiresolution(ctx, rng, drawn, levels):
    from pygsp import graphs, reduction
    g, W, d = drawn
    kw = {}
    if rng.uniform() < .4:
        kw["compute_full_eigen"] = bool(rng.integers(2))
    if rng.uniform() < .3:
        kw["reg_eps"] = float(rng.choice([.001, .1, 1]))
    ctx.describe(levels > 0, levels=levels, **d, **kw)
    how = basis(ctx, rng, g)
    before = (ref.snapshot(g.W), ref.snapshot(g.L),
              None if g._U is None else (g._U.copy(), g._e.copy()))
    Gs = reduction.graph_multiresolution(g, levels, sparsify=False, **kw)
    ctx.same(len(Gs), levels + 1, "number-of-levels")
    ctx.ok(Gs[0] is g, "first-level-is-graph")
    # Spectral data of the input.
    ctx.ok((ref.snapshot(g.W), ref.snapshot(g.L)) == before[:2], "graph-unchanged")
    if before[2] is not None and not kw.get("compute_full_eigen"):
        ctx.same(g._U, before[2][0], "basis-unchanged")
        ctx.same(g._e, before[2][1], "spectrum-unchanged")
    if how == "full":
        ctx.same(g.U, before[2][0], "basis-unchanged")
    L0 = ref.laplacian(W, "combinatorial")
    if g._U is not None and len(g._e) == g.N:
        ctx.close(g.U * g.e @ g.U.T, L0, "basis-valid", 1e-8, max(np.abs(L0).max(), 1e-300))
    orig = np.arange(g.N)
    ctx.same(Gs[0].mr["orig_idx"], orig, "original-indices")
    L = L0
    Rd = resistances(W)
    for i in range(1, levels + 1):
        h = Gs[i]
        idx = np.asarray(h.mr["idx"])
        ctx.ok(len(idx) == h.N >= 1 and len(set(idx.tolist())) == h.N and idx.min() >= 0 and idx.max() < len(L)
               and (np.diff(idx) > 0).all(), "valid-subset", lambda: str(idx))
        ctx.ok(0 in idx, "first-vertex-kept")
        want, clear = polarity(L)
        if clear:
            ctx.same(idx, want, "polarity", f"level {i}")
            ctx.note("polarity levels")
        if len(L) > 1:  # An eigenvector has positive and negative entries.
            ctx.ok(h.N < len(L), "reduced", lambda: f"{len(L)} to {h.N} vertices at level {i}")
        orig = orig[idx]
        ctx.same(h.mr["orig_idx"], orig, "original-indices")
        L = schur(L, idx)
        ctx.close(h.L.toarray(), L, "kron-reduced", 1e-8, np.abs(L0).max())
        ctx.ok(not h.is_directed() and not h.W.diagonal().any(), "undirected-loopless")
        ctx.close(resistances(np.where(h.W.toarray() > 1e-12 * W.max(), h.W.toarray(), 0)),
                  Rd[np.ix_(orig, orig)], "effective-resistances", 1e-6)
        if hasattr(g, "coords"):
            ctx.same(h.coords, g.coords[orig], "coordinates")
        if kw.get("compute_full_eigen"):
            ctx.ok(h._U is not None and len(h._e) == h.N, "full-eigen-computed")
            ctx.close(h.U * h.e @ h.U.T, L, "full-eigen-valid", 1e-7, np.abs(L0).max())
        L = h.L.toarray()
    # What the levels store to interpolate.
    eps = kw.get("reg_eps", .005)
    for i in range(levels):
        mr, h, idx = Gs[i].mr, Gs[i], np.asarray(Gs[i + 1].mr["idx"])
        x = rng.uniform(0, 10, 5) * max(np.abs(L0).max(), 1e-300)
        ctx.close(mr["green_kernel"].evaluate(x)[0], 1 / (eps + x), "green-kernel", 1e-9)
        ctx.ok(mr["green_kernel"].G is h, "green-kernel-graph")
        R = h.L.toarray() + eps * np.eye(h.N)
        K = mr["K_reg"]
        K = K.toarray() if sparse.issparse(K) else np.asarray(K)
        ctx.close(K, schur(R, idx), "regularized-reduction", 1e-7, np.abs(R).max())
    # Again on the same graph.
    Hs = reduction.graph_multiresolution(g, min(levels, 1), sparsify=False)
    if levels and polarity(L0)[1]:
        ctx.same(Hs[1].mr["orig_idx"], Gs[1].mr["orig_idx"], "repeatable")


@R.family(quick=6, thorough=60, timeout=120)
def repeated(ctx, rng):
    """Repeated eigenvalues, on which iterative eigensolvers fail now and then."""
    from pygsp import graphs, reduction
    n = int(rng.integers(40, 120))
    W = float(rng.choice([1, .1, 20])) * (np.ones((n, n)) - np.eye(n))
    ctx.describe(True, W=W)
    for _ in range(60):
        g = graphs.Graph(W)
        Gs = reduction.graph_multiresolution(g, 1, sparsify=False)
        idx = np.asarray(Gs[1].mr["idx"])
        ctx.ok(0 in idx and len(idx) == Gs[1].N < n and (np.diff(idx) > 0).all(), "valid-subset", lambda: str(idx))
        # The top eigenvectors are the vectors of zero mean: the kept set is any.
        if _ == 0:
            g.compute_fourier_basis()
            Hs = reduction.graph_multiresolution(g, 2, sparsify=False, compute_full_eigen=True)
            ctx.ok(0 < Hs[2].N < Hs[1].N < n, "reduced", lambda: str([h.N for h in Hs]))
        w = W[0, 1] * n / len(idx)
        ctx.close(Gs[1].W, w * (np.ones((len(idx),) * 2) - np.eye(len(idx))), "kron-reduced", 1e-8)


@R.family(quick=120, thorough=2500, timeout=60)
def multiresolution_sparsified(ctx, rng):
    from pygsp import reduction
    g, W, d = graph(rng, nmin=6, nmax=40)
    levels = int(rng.integers(1, 5))
    kw = {}
    if rng.uniform() < .4:
        kw["sparsify_eps"] = float(rng.uniform(.1, .9))
    if rng.uniform() < .3:
        kw["sparsify"] = True
    ctx.describe(True, levels=levels, **d, **kw)
    if rng.uniform() < .3:
        g.compute_fourier_basis()
    # Watch the sparsified graphs: one which is disconnected makes the rest undefined.
    seen, inner = [], reduction.graph_sparsify

    def watched(*args, **kws):
        out = inner(*args, **kws)
        seen.append(len(ref.components(out.W.toarray())) == 1)
        return out

    reduction.graph_sparsify = watched
    try:
        Gs = reduction.graph_multiresolution(g, levels, **kw)
    except Exception:
        if all(seen):
            raise
        ctx.skip("disconnected by sparsification")
    finally:
        reduction.graph_sparsify = inner
    ctx.note("sparsified levels", len(seen))
    ctx.ok(Gs[0] is g and not (g.W.toarray() != W).any(), "graph-unchanged")
    want, clear = polarity(ref.laplacian(W, "combinatorial"))
    if clear:
        ctx.same(Gs[1].mr["idx"], want, "polarity")
    for a, b in zip(Gs, Gs[1:]):
        idx = b.mr["idx"]
        ctx.same(b.mr["orig_idx"], a.mr["orig_idx"][idx], "original-indices")
        ctx.same(b.N, len(idx), "n-vertices")
        full = schur(a.L.toarray(), idx) if len(ref.components(a.W.toarray())) == 1 else None
        if full is not None and a.N > 1:
            ctx.ok(b.N < a.N, "reduced", lambda: f"{a.N} to {b.N}")
        V = b.W.toarray()
        ctx.same(V, V.T, "symmetric")
        ctx.ok(V.min(initial=0) >= 0, "non-negative-weights")
        if full is not None:
            ctx.ok(not ((V > 1e-9 * np.abs(V).max(initial=0)) & (full > -1e-14 * np.abs(full).max()) & ~np.eye(len(V), dtype=bool)).any(),
                   "only-edges-of-the-reduction")
    ctx.note("levels", len(Gs) - 1)


def options(ctx, rng, levels):
    """(analysis options, synthesis options, reg_eps, filters or None, exact)."""
    a, s = {}, {}
    if rng.uniform() < .4:
        a["reg_eps"] = s["reg_eps"] = float(rng.choice([.001, .05, 1]))
    exact = bool(rng.uniform() < .6)
    if exact:
        a["method"] = "exact"
        if rng.uniform() < .3:
            s["use_exact"] = True
        else:
            s["method"] = "exact"
    elif rng.uniform() < .6:
        a["order"] = s["order"] = int(rng.integers(5, 120))
    hs = None
    how = str(rng.choice(["default", "callable", "one", "each"]))
    mk = [lambda x: 1 / (1 + x), lambda x: np.exp(-x / 3), lambda x: 1 / (2 * x + 1), lambda x: x / (1 + x), lambda x: 0 * x + 1]
    if how == "callable":
        a["h_filters"] = mk[int(rng.integers(5))]
        hs = [a["h_filters"]] * levels
    elif how == "one":
        a["h_filters"] = [mk[int(rng.integers(5))]]
        hs = a["h_filters"] * levels
    elif how == "each":
        a["h_filters"] = hs = [mk[int(i)] for i in rng.integers(0, 5, levels)]
        if levels == 0:
            del a["h_filters"]
    if hs is None:
        hs = [lambda x: 1 / (2 * x + 1)] * levels
    return a, s, a.get("reg_eps", .005), hs, exact


def reference(Gs, f, hs, eps):
    ca, pe = [np.asarray(f, float)], []
    for i, h in enumerate(hs):
        L = Gs[i].L.toarray()
        idx = Gs[i + 1].mr["idx"]
        low = ref.func_of(L, lambda e: h(np.where(e > 1e-12 * max(e.max(), 1e-300), e, 0))) @ ca[-1]
        ca.append(low[idx])
        G = np.linalg.inv(L + eps * np.eye(len(L)))
        pred = G[:, idx] @ np.linalg.solve(G[np.ix_(idx, idx)], ca[-1])
        pe.append(ca[i] - pred)
    return ca, pe


@R.family(quick=500, thorough=12000, timeout=60)
def pyramid(ctx, rng):
    check_pyramid(ctx, rng, graph(rng), int(rng.integers(0, 4)))


@R.family(quick=50, thorough=1500, timeout=60)
def pyramid_deep(ctx, rng):
    """Up to nine levels."""
    check_pyramid(ctx, rng, graph(rng, nmin=20, nmax=160), int(rng.integers(4, 10)))


@R.family(quick=3, thorough=300, timeout=120)
def large(ctx, rng):
    """Pyramids of up to six levels over hundreds of vertices."""
    from pygsp import graphs
    d, S = gen.large(rng, 60, 300, directed=False, loops=False, connected=True)
    check_pyramid(ctx, rng, (graphs.Graph(S), S.toarray(), d), int(rng.integers(1, 7)))


def check_pyramid(ctx, rng, drawn, levels):
    from pygsp import reduction
    g, W, d = drawn
    shape = [(), (), (1,), (2,), (3,)][int(rng.integers(5))]
    if shape == () and rng.uniform() < .1:
        shape = (g.N,)
    f = gen.signal(rng, g.N, shape)
    a, s, eps, hs, exact = options(ctx, rng, levels)
    ctx.describe(levels > 0, f=f, levels=levels, opts={k: (v if k != "h_filters" else len(hs)) for k, v in a.items()}, **d)
    mkw = {}
    if rng.uniform() < .3:
        mkw["reg_eps"] = eps
    if rng.uniform() < .3:
        mkw["compute_full_eigen"] = True
    Gs = reduction.graph_multiresolution(g, levels, sparsify=False, **mkw)
    f0 = f.copy()
    ca, pe = reduction.pyramid_analysis(Gs, f, **a)
    ctx.same(f, f0, "signal-unchanged")
    ctx.same(len(ca), levels + 1, "number-of-approximations")
    ctx.same(len(pe), levels, "number-of-errors")
    for i in range(levels + 1):
        ctx.same(np.shape(ca[i]), (Gs[i].N,) + shape, "approximation-shape")
    for i in range(levels):
        ctx.same(np.shape(pe[i]), (Gs[i].N,) + shape, "error-shape")
    if exact and np.abs(f).max(initial=0) > 0:
        rca, rpe = reference(Gs, f, hs, eps)
        sc = np.abs(f).max()
        for i in range(levels + 1):
            ctx.close(ca[i], rca[i], "coarse-approximation", 1e-6, sc)
        for i in range(levels):
            ctx.close(pe[i], rpe[i], "prediction-error", 1e-5, sc)
    kept = [np.array(p).copy() for p in pe], np.array(ca[-1]).copy()
    rec, rca = reduction.pyramid_synthesis(Gs, ca[-1], pe, **s)
    sc = max(np.abs(f).max(initial=0), max([np.abs(c).max(initial=0) for c in ca] + [np.abs(p).max(initial=0) for p in pe]), 1e-300)
    # Both sides use the same approximation of the filters: only rounding remains.
    lm = max(float(g.lmax), 1)
    ctx.close(rec, f, "perfect-reconstruction", 1e-7 * max(1, 1e-3 * lm / eps), sc)
    ctx.same(len(rca), levels + 1, "number-of-reconstructions")
    for i in range(levels + 1):
        ctx.close(rca[i], ca[i], "reconstructed-approximations", 1e-7 * max(1, 1e-3 * lm / eps), sc)
    ctx.same(ca[-1], kept[1], "coefficients-unchanged")
    for p, q in zip(pe, kept[0]):
        ctx.same(p, q, "coefficients-unchanged")
    # Without prediction errors, the synthesis is the interpolation.
    if levels and exact:
        rec0, _ = reduction.pyramid_synthesis(Gs, ca[-1], [np.zeros_like(np.asarray(p, float)) for p in pe], **s)
        x = np.asarray(ca[-1], float)
        for i in range(levels - 1, -1, -1):
            G = np.linalg.inv(Gs[i].L.toarray() + eps * np.eye(Gs[i].N))
            idx = Gs[i + 1].mr["idx"]
            x = G[:, idx] @ np.linalg.solve(G[np.ix_(idx, idx)], x)
        ctx.close(rec0, x, "synthesis-interpolates", 1e-5, max(np.abs(x).max(), 1e-300))
    ctx.note("exact" if exact else "chebyshev")


@R.family(quick=300, thorough=7000)
def interpolation(ctx, rng):
    from pygsp import reduction
    g, W, d = graph(rng)
    keep = np.sort(rng.permutation(g.N)[:int(rng.integers(1, g.N + 1))])
    if rng.uniform() < .3:
        keep = rng.permutation(keep)
    shape = [(), (), (1,), (2,), (3,)][int(rng.integers(5))]
    f = gen.signal(rng, len(keep), shape)
    eps = float(rng.choice([.005, .001, .1, 1.]))
    kw = {} if eps == .005 and rng.uniform() < .5 else dict(reg_eps=eps)
    ctx.describe(len(keep) < g.N, keep=keep, f=f, **d, **kw)
    if rng.uniform() < .3:
        # Issued from a multiresolution, with other vertices and regularization.
        reduction.graph_multiresolution(g, 1, sparsify=False, reg_eps=.3)
    f0 = f.copy()
    idx = keep if rng.uniform() < .7 else keep.tolist()
    x = reduction.interpolate(g, f, idx, method="exact", **kw)
    ctx.same(f, f0, "signal-unchanged")
    L = ref.laplacian(W, "combinatorial")
    G = np.linalg.inv(L + eps * np.eye(g.N))
    want = G[:, keep] @ np.linalg.solve(G[np.ix_(keep, keep)], f)
    sc = max(np.abs(f).max(initial=0), 1e-300)
    ctx.close(x, want, "green-interpolation", 1e-6, sc)
    ctx.close(np.asarray(x)[keep], f, "interpolates-samples", 1e-6, sc)
    # Harmonic (for the regularized operator) elsewhere.
    rest = np.setdiff1d(np.arange(g.N), keep)
    r = ((L + eps * np.eye(g.N)) @ x)[rest]
    ctx.close(r, np.zeros_like(r), "solves-the-system", 1e-6, sc * (np.abs(L).max() + eps))
    if eps >= .1 and g.lmax / eps < 100:
        y = reduction.interpolate(g, f, idx, order=150, **kw)
        alpha = np.zeros((g.N,) + shape)
        alpha[keep] = schur(L + eps * np.eye(g.N), keep) @ f
        ctx.close(y, want, "chebyshev-close", 1e-3 * max(1, np.abs(alpha).max() / eps / sc), sc)


@R.family(quick=120, thorough=2000)
def rejected(ctx, rng):
    from pygsp import graphs, reduction
    g, W, d = graph(rng, nmin=4)
    levels = int(rng.integers(2, 4))
    ctx.describe(True, levels=levels, **d)
    Gs = reduction.graph_multiresolution(g, levels, sparsify=False)
    f = rng.normal(size=g.N)
    ctx.raises(lambda: reduction.pyramid_analysis(Gs, f[:-1]), ValueError, "wrong-signal-size-rejected")
    hs = [lambda x: 1 / (1 + x)] * (levels + 1)
    ctx.raises(lambda: reduction.pyramid_analysis(Gs, f, h_filters=hs), ValueError, "number-of-filters-rejected")
    ca, pe = reduction.pyramid_analysis(Gs, f)
    ctx.raises(lambda: reduction.pyramid_synthesis(Gs, ca[-1], pe[:-1]), ValueError, "number-of-errors-rejected")
    ctx.raises(lambda: reduction.pyramid_synthesis(Gs, ca[-1], pe, least_squares=True), ValueError,
               "least-squares-without-filters-rejected")
    ctx.raises(lambda: reduction.graph_multiresolution(g, 1, downsampling_method="unknown"), NotImplementedError,
               "unknown-downsampling-rejected")
    ctx.raises(lambda: reduction.graph_multiresolution(g, 1, reduction_method="unknown"), NotImplementedError,
               "unknown-reduction-rejected")


@R.family(quick=4, thorough=8)
def unfinished(ctx, rng):
    """Documented functions known not to work (see the known findings)."""
    from pygsp import graphs, reduction
    if ctx.rng_index % 2 == 0:
        g = graphs.Graph(graphs.BarabasiAlbert(N=12, m0=1, m=1, seed=1).W)
        ctx.describe(True, what="tree")
        try:
            reduction.tree_multiresolution(g, 1)
        except Exception as e:
            ctx.ok(False, "tree-multiresolution", f"{type(e).__name__}: {e}")
    else:
        g = graphs.Ring(16)
        g.compute_fourier_basis()
        h = [lambda x: 1 / (2 * x + 1)]
        Gs = reduction.graph_multiresolution(g, 2, sparsify=False)
        f = rng.normal(size=16)
        ca, pe = reduction.pyramid_analysis(Gs, f, h_filters=h, method="exact")
        ctx.describe(True, what="least-squares")
        try:
            r, _ = reduction.pyramid_synthesis(Gs, ca[-1], pe, least_squares=True, h_filters=h * 2, method="exact")
            good = np.allclose(r, f)
        except Exception as e:
            ctx.ok(False, "least-squares-synthesis", f"{type(e).__name__}: {e}")
        ctx.ok(good, "least-squares-synthesis", "wrong reconstruction")
