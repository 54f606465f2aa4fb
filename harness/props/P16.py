"""P16: vertex-frequency analyses equal their definitions."""
import numpy as np
from core import Registry
import gen
import ref

R = Registry()
R.rule = ("random graphs x mother kernels (named and custom) x signals x shift grids; dense reference built from the graph's "
          "own eigenpairs; distinct by content hash")
R.assumptions = ["modulated kernels are only defined on graphs whose eigenvalues are simple",
                 "windowed transforms localize with the default polynomial method: the mother kernels used for it are polynomials "
                 "of degree at most 8, for which it is exact"]


def prepared(ctx, rng, nmax=11, **kw):
    g, W, d = gen.spectral_graph(rng, nmin=3, nmax=nmax, **kw)
    L = ref.laplacian(W, d["lap"])
    if gen.edgeless(W):
        ctx.skip("no edge")
    g.compute_fourier_basis()
    return g, W, d, float(g.lmax)


def simple_spectrum(g):
    e = np.sort(np.asarray(g.e))
    return np.diff(e).min() > 1e-6 * e[-1]


def mother(rng, g, lm, poly=False):
    from pygsp import filters
    kind = "poly" if poly else str(rng.choice(["Heat", "Expwin", "custom", "poly", "Rectangular"]))
    if kind == "Heat":
        s = float(rng.uniform(.5, 40))
        return kind, s, filters.Heat(g, s), lambda x: np.minimum(np.exp(-s * x / lm), 1)
    if kind in ("Expwin", "Rectangular"):
        b = float(rng.uniform(.1, .9))
        f = getattr(filters, kind)(g, band_max=b)
        return kind, b, f, lambda x: f.evaluate(x)[0]
    if kind == "poly":
        c = rng.normal(size=int(rng.integers(1, 9)))
        k = lambda x: np.polynomial.polynomial.polyval(np.asarray(x) / lm, c)
        return kind, c, filters.Filter(g, k), k
    a = float(rng.uniform(1, 30))
    k = lambda x: np.exp(-a * (np.asarray(x) / lm) ** 2)
    return kind, a, filters.Filter(g, k), k


@R.family(quick=350, thorough=10000)
def gabor(ctx, rng):
    from pygsp import filters
    g, W, d, lm = prepared(ctx, rng)
    n = g.N
    kind, p, m, k = mother(rng, g, lm)
    ctx.describe(mother=kind, p=p, **d)
    ctx.note("gabor:" + kind)
    f = filters.Gabor(g, m)
    e, U = np.asarray(g.e), np.asarray(g.U)
    ctx.same([f.Nf, len(f)], [n, n], "one-filter-per-eigenvalue")
    x = rng.uniform(0, lm, {0: (9,), 1: (2, 3), 2: ()}[int(rng.integers(3))])
    want = np.stack([k(x - e[i]) for i in range(n)])
    sc = max(1, np.abs(want).max())
    ctx.close(f.evaluate(x), want, "translated-kernel", 1e-10, scale=sc)
    V = np.stack([k(e - e[i]) for i in range(n)])
    sc = max(1, np.abs(V).max())
    s = rng.normal(size=n)
    want = np.stack([(U * V[i]) @ (U.T @ s) for i in range(n)], 1)
    ctx.close(f.filter(s), want, "transform", 1e-9, scale=sc * n)
    ctx.close(f.filter(s, method=str(rng.choice(["exact", "chebyshev"])), order=5), want, "always-exact", 1e-9, scale=sc * n)
    c = rng.normal(size=(n, 1, n))
    want = sum((U * V[i]) @ (U.T @ c[:, 0, i]) for i in range(n))
    ctx.close(f.filter(c), want, "synthesis", 1e-9, scale=sc * n * n)
    i = int(rng.integers(n))
    want = np.sqrt(n) * np.stack([(U * V[j]) @ U[i] for j in range(n)], 1)
    ctx.close(f.localize(i), want, "atoms", 1e-9, scale=sc * n)
    j = int(rng.integers(n))
    ctx.close(f[j].evaluate(x)[0], k(x - e[j]), "indexed", 1e-10, scale=sc)


@R.family(quick=350, thorough=10000)
def windowed(ctx, rng):
    """Localize first: the windowed graph Fourier transform."""
    from pygsp import filters
    g, W, d, lm = prepared(ctx, rng)
    n = g.N
    kind, p, m, k = mother(rng, g, lm, poly=True)
    e, U = np.asarray(g.e), np.asarray(g.U)
    ctx.describe(mother=kind, p=p, **d)
    f = filters.Modulation(g, m, modulation_first=False) if rng.uniform() < .5 else filters.Modulation(g, m)
    s = gen.signal(rng, n)
    s0 = s.copy()
    gL = (U * k(e)) @ U.T
    want = np.empty((n, n))
    for i in range(n):
        Ti = np.sqrt(n) * gL[:, i]
        for q in range(n):
            want[i, q] = np.sum(np.sqrt(n) * U[:, q] * Ti * s)
    ctx.close(f.filter(s), want, "windowed-transform", 1e-8, scale=n * n * max(1, np.abs(k(e)).max()) * max(np.abs(s).max(), 1))
    ctx.same(s, s0, "signal-untouched")
    ctx.same(len(f), n, "one-filter-per-eigenvalue")
    a = rng.normal(size=n)
    ctx.close(f.filter(2 * s + a), 2 * want + f.filter(a), "linear", 1e-8, scale=n * n * max(1, np.abs(k(e)).max()) * max(20, np.abs(s).max()))


@R.family(quick=350, thorough=10000)
def modulated(ctx, rng):
    """Modulate first: coefficients of the modulated kernel, and filtering."""
    from pygsp import filters
    g, W, d, lm = prepared(ctx, rng)
    n = g.N
    if not simple_spectrum(g):
        ctx.skip("repeated eigenvalues")
    kind, p, m, k = mother(rng, g, lm)
    e, U = np.asarray(g.e), np.asarray(g.U)
    ctx.describe(mother=kind, p=p, **d)
    f = filters.Modulation(g, m, modulation_first=True)
    w = U @ k(e)
    C = np.stack([U.T @ (np.sqrt(n) * U[:, q] * w) for q in range(n)])  # (filter, frequency)
    sc = n * max(1, np.abs(k(e)).max())
    ctx.close(f.evaluate(np.asarray(g.e)), C, "modulated-kernel", 1e-9, scale=sc)
    sub = rng.permutation(n)[:int(rng.integers(1, n + 1))]
    ctx.close(f.evaluate(np.asarray(g.e)[sub]), C[:, sub], "modulated-kernel-subset", 1e-9, scale=sc)
    off = (e[:-1] + e[1:]) / 2
    y = f.evaluate(off)
    ctx.ok(y.shape == (n, n - 1) and np.isnan(y).all(), "undefined-elsewhere")
    s = rng.normal(size=n)
    A = np.stack([(U * C[q]) @ (U.T @ s) for q in range(n)], 1)
    ctx.close(f.filter(s), A, "transform", 1e-8, scale=sc * n)
    c = rng.normal(size=(n, 1, n))
    ctx.close(f.filter(c), sum((U * C[q]) @ (U.T @ c[:, 0, q]) for q in range(n)), "synthesis", 1e-8, scale=sc * n * n)
    q = int(rng.integers(n))
    ctx.close(f[q].evaluate(np.asarray(g.e))[0], C[q], "indexed", 1e-9, scale=sc)
    h = f + m
    ctx.close(h.evaluate(np.asarray(g.e)), np.vstack([C, k(e)]), "concatenated", 1e-9, scale=sc)
    # Modulating first does not depend on the localization order flag.
    ctx.close(filters.Modulation(g, m, modulation_first=False).evaluate(np.asarray(g.e)), C, "evaluate-modulates", 1e-9, scale=sc)


@R.family(quick=350, thorough=10000)
def spectrogram(ctx, rng):
    from pygsp import features
    g, W, d, lm = prepared(ctx, rng)
    n = g.N
    e, U = np.asarray(g.e), np.asarray(g.U)
    M = int(rng.integers(2, 25))
    kind = str(rng.choice(["default", "custom", "poly"]))
    if kind == "default":
        k, atom = (lambda x: np.exp(-M * (x / lm) ** 2)), None
        p = None
    elif kind == "custom":
        p = float(rng.uniform(1, 20))
        k = atom = lambda x: np.exp(-p * np.abs(x) / lm)
    else:
        p = rng.normal(size=int(rng.integers(1, 7)))
        k = atom = lambda x: np.polynomial.polynomial.polyval(x / lm, p)
    exact = kind != "poly" or rng.uniform() < .5
    kw = dict(method="exact") if exact else dict(method="chebyshev", order=int(rng.integers(7, 30))) if rng.uniform() < .6 else {}
    ctx.describe(atom=kind, p=p, M=M, opts=kw, **d)
    ctx.note("atom:" + kind)
    args = dict(M=M, **kw)
    if atom is not None:
        args["atom"] = atom
    if kind == "default" and rng.uniform() < .3:
        args.pop("M")
        M = 100
        k = lambda x: np.exp(-100 * (x / lm) ** 2)
    S = features.compute_spectrogram(g, **args)
    shifts = np.linspace(0, lm, M)
    want = np.stack([(((U * k(e - s)) @ U.T) ** 2).sum(0) for s in shifts], 1)
    ctx.close(S, want, "spectrogram", 1e-7, scale=max(1, want.max()))
    ctx.same(g.spectr, S, "stored")


@R.family(quick=350, thorough=10000)
def atoms(ctx, rng):
    from pygsp import features, filters
    g, W, d, lm = prepared(ctx, rng)
    n = g.N
    e, U = np.asarray(g.e), np.asarray(g.U)
    name, kw, f = gen.filterbank(rng, g)
    method = str(rng.choice(["exact", "exact", "chebyshev"]))
    opts = dict(method=method) if method == "exact" else dict(order=int(rng.integers(2, 30)))
    ctx.describe(bank=name, params=kw, opts=opts, **d)
    F = f.Nf
    vals = f.evaluate(e)
    if method == "exact":
        mats = [(U * vals[i]) @ U.T for i in range(F)]
    else:
        mats = [f[i].filter(np.identity(n)[:, :, None], method="chebyshev", **opts).reshape(n, n).T for i in range(F)]
    sc = max(1, np.abs(vals).max())
    t = features.compute_tig(f, **opts)
    m = features.compute_norm_tig(f, **opts)
    if F == 1:
        ctx.close(np.asarray(t).reshape(n, n), mats[0], "atoms", 1e-8, scale=sc)
        ctx.close(np.asarray(m).reshape(n), np.sqrt((mats[0] ** 2).sum(1)), "norms", 1e-8, scale=sc)
    else:
        ctx.same([len(t), len(m)], [F, F], "one-per-filter")
        for i in range(F):
            ctx.close(t[i], mats[i], "atoms", 1e-8, scale=sc, msg=f"filter {i}")
            ctx.close(m[i], np.sqrt((mats[i] ** 2).sum(1)), "norms", 1e-8, scale=sc, msg=f"filter {i}")


@R.family(quick=300, thorough=8000)
def neighbor_degree(ctx, rng):
    from pygsp import features, graphs
    W = gen.adjacency(rng, nmin=1, nmax=14, directed=False, loops=False)
    _, obj = gen.container(rng, W, str(rng.choice(["ndarray", "csr", "coo", "lil"])))
    g = graphs.Graph(obj)
    A = W != 0
    d = A.sum(1)
    want = np.array([(d[i] + sum(d[j] for j in np.nonzero(A[i])[0])) / (d[i] + 1) for i in range(len(W))])
    ctx.describe(bool(W.any()), W=W)
    got = features.compute_avg_adj_deg(g)
    ctx.close(np.asarray(got).ravel(), want, "average", 1e-12)


@R.family(quick=4, thorough=300)
def large(ctx, rng):
    """Long spectrograms, hundreds of vertices and shifts."""
    from pygsp import features, filters, graphs
    dd, W = gen.large(rng, 80, 200, loops=False, connected=True)
    n = W.shape[0]
    lap = str(rng.choice(["combinatorial", "normalized"]))
    g = graphs.Graph(W, lap_type=lap)
    g.compute_fourier_basis()
    e, U, lm = np.asarray(g.e), np.asarray(g.U), float(g.lmax)
    M = int(rng.choice([40, 130, 260]))
    p = float(rng.uniform(2, 60))
    k = lambda x: np.exp(-p * (x / lm) ** 2)
    ctx.describe(lap=lap, M=M, p=p, **dd)
    if rng.uniform() < .5:
        k = lambda x: np.exp(-M * (x / lm) ** 2)
        S = features.compute_spectrogram(g, M=M, method="exact")
    else:
        S = features.compute_spectrogram(g, atom=k, M=M, method="exact")
    want = np.stack([((U * k(e - s)) ** 2).sum(1) for s in np.linspace(0, lm, M)], 1)
    ctx.close(S, want, "spectrogram", 1e-8)
    s = rng.normal(size=n)
    c = filters.Gabor(g, filters.Filter(g, k)).filter(s, method="exact")
    want = np.stack([U @ (k(e - v) * (U.T @ s)) for v in e], 1)
    ctx.close(c, want, "gabor", 1e-8)
    ctx.note(f"{dd['kind']} M={M}")
