"""P10: Chebyshev filtering."""
import numpy as np
from core import Registry
import gen
import ref
from props.P09 import make_signal, reference, smooth_bank, LAYOUTS

R = Registry()
R.rule = ("random graphs x kernels x orders 1..60 x signal layouts; non-trivial if at least one edge; distinct by "
          "content hash")
R.assumptions = ["reference: Chebyshev interpolation computed independently, applied to an independently built "
                 "dense Laplacian by eigendecomposition; the largest frequency is exact or an upper bound"]


def prepared(ctx, rng, nmin=2, nmax=14):
    g, W, d = gen.spectral_graph(rng, nmin=nmin, nmax=nmax)
    L = ref.laplacian(W, d["lap"])
    if gen.edgeless(W):
        ctx.skip("no edge")
    how = str(rng.choice(["fourier", "bounds"]))
    g.compute_fourier_basis() if how == "fourier" else g.estimate_lmax("bounds")
    return g, W, dict(d, how=how), L


def poly_of(L, c, lm):
    """sum' c_o T_o on the spectrum, Clenshaw-free: cos(o arccos)."""
    def f(x):
        y = np.clip(2 * x / lm - 1, -1, 1)
        t = np.arccos(y)
        return .5 * c[0] + sum(c[o] * np.cos(o * t) for o in range(1, len(c)))
    return ref.func_of(L, f)


@R.family(quick=600, thorough=15000)
def interpolation(ctx, rng):
    """filter() equals the interpolating polynomial, for any kernel and layout."""
    from pygsp import filters
    g, W, d, L = prepared(ctx, rng)
    n, lm = len(W), float(g.lmax)
    if rng.uniform() < .5:
        ks, desc = smooth_bank(rng, lm / float(rng.uniform(1, 5)))
        f = filters.Filter(g, ks)
        kk = [lambda x, i=i: f.evaluate(np.asarray(x))[i] for i in range(len(ks))]
    else:
        name, kw, f = gen.filterbank(rng, g)
        desc = (name, kw)
        if name == "HeatBank":
            pass
        kk = [lambda x, i=i: f.evaluate(np.asarray(x))[i] for i in range(f.Nf)]
    F = f.Nf
    order = int(rng.choice([1, 2, 3, 5, 10, 17, 30, 60])) if rng.uniform() > gen.LARGE else gen.count(rng, 60, 300, 500)
    layout = str(rng.choice(LAYOUTS))
    s = make_signal(rng, n, F, layout)
    ctx.describe(kernels=desc, order=order, layout=layout, s=s, **d)
    ctx.note(f"order:{order} layout:{layout}")
    coefs = [ref.cheb_interp_coefs(k, 0, lm, order) for k in kk]
    mats = [poly_of(L, c, lm) for c in coefs]
    want = reference(s, mats, F)
    mag = (np.abs(s).sum() + 1e-300) * max(np.abs(c).sum() for c in coefs) + 1e-300
    s0 = s.copy()
    got = f.filter(s.tolist() if layout == "list" else s, method="chebyshev", order=order)
    ctx.close(got, want, "interpolation", 1e-8, scale=mag, msg=layout)
    ctx.same(s, s0, "signal-untouched")
    if order == 30:
        ctx.close(f.filter(s), want, "default-order", 1e-8, scale=mag)
    if layout in ("NF", "NSF", "N1F"):
        ctx.close(f.synthesize(s, order=order), want, "synthesize", 1e-8, scale=mag)
    elif layout != "list":
        ctx.close(f.analyze(s, order=order), want, "analyze", 1e-8, scale=mag)


@R.family(quick=300, thorough=8000)
def polynomials_exact(ctx, rng):
    """Polynomial kernels of degree <= order are applied exactly."""
    from pygsp import filters
    g, W, d, L = prepared(ctx, rng)
    n, lm = len(W), float(g.lmax)
    deg = int(rng.integers(0, 9))
    order = max(1, deg + int(rng.integers(0, 12)))
    c = rng.normal(size=deg + 1)
    P = np.polynomial.polynomial.polyval
    f = filters.Filter(g, lambda x: P(np.asarray(x) / lm, c))
    ctx.describe(c=c, order=order, **d)
    x = rng.normal(size=n)
    want = ref.func_of(L, lambda t: P(t / lm, c)) @ x
    ctx.close(f.filter(x, order=order), want, "poly-exact", 1e-8, scale=np.abs(x).sum() * np.abs(c).sum())
    ctx.close(f.filter(x, order=order), f.filter(x, method="exact"), "cheby-vs-exact", 1e-8, scale=np.abs(x).sum() * np.abs(c).sum())


@R.family(quick=300, thorough=8000)
def low_level(ctx, rng):
    from pygsp import filters
    g, W, d, L = prepared(ctx, rng)
    n, lm = len(W), float(g.lmax)
    ks, desc = smooth_bank(rng, lm / 3)
    f = filters.Filter(g, ks)
    m = int(rng.integers(1, 25))
    N = None if rng.uniform() < .5 else m + 1 + int(rng.integers(0, 20))
    ctx.describe(kernels=desc, m=m, N=N, **d)
    c = filters.compute_cheby_coeff(f, m=m) if N is None else filters.compute_cheby_coeff(f, m=m, N=N)
    want = [ref.cheb_interp_coefs(k, 0, lm, m, N) for k in ks]
    got = [c] if len(ks) == 1 else c
    ctx.ok(len(got) == len(ks), "coef-per-filter")
    for a, b in zip(got, want):
        ctx.close(a, b, "coefficients", 1e-9, scale=np.abs(b).sum() + 1)
    i = int(rng.integers(len(ks)))
    ctx.close(filters.compute_cheby_coeff(f, m=m, N=N, i=i), want[i], "coefficients-i", 1e-9, scale=np.abs(want[i]).sum() + 1)
    # applying arbitrary coefficients
    K = int(rng.integers(1, 4))
    C = rng.normal(size=(K, m + 1))
    S = int(rng.integers(1, 4))
    x = rng.normal(size=(n,)) if rng.uniform() < .5 else rng.normal(size=(n, S))
    want = np.concatenate([poly_of(L, ci, lm) @ x for ci in C])
    arg = C if rng.uniform() < .4 else list(C)
    if K == 1 and rng.uniform() < .5:
        arg = C[0]
    ctx.close(filters.cheby_op(g, arg, x), want, "cheby_op", 1e-8, scale=np.abs(x).sum() * np.abs(C).sum())


@R.family(quick=250, thorough=6000)
def rectangle(ctx, rng):
    from pygsp import filters
    g, W, d, L = prepared(ctx, rng)
    n, lm = len(W), float(g.lmax)
    a, b = np.sort(rng.uniform(0, lm, 2))
    edge = str(rng.choice(["inside", "low", "high", "all"]))
    if edge in ("low", "all"):
        a = 0.
    if edge in ("high", "all"):
        b = lm
    order = gen.count(rng, 1, 40)
    x = rng.normal(size=(n,)) if rng.uniform() < .5 else rng.normal(size=(n, 3))
    ctx.describe(a=a, b=b, order=order, x=x, **d)
    t1, t2 = np.arccos(np.clip(2 * a / lm - 1, -1, 1)), np.arccos(np.clip(2 * b / lm - 1, -1, 1))
    c = [2 / np.pi * (t1 - t2)] + [2 / (k * np.pi) * (np.sin(k * t1) - np.sin(k * t2)) for k in range(1, order + 1)]
    bounds = [a, b] if rng.uniform() < .5 else np.array([a, b])
    got = filters.cheby_rect(g, bounds, x, order=order)
    ctx.close(got, poly_of(L, c, lm) @ x, "cheby_rect", 1e-7, scale=np.abs(x).sum() * np.abs(c).sum())
    ctx.close(filters.cheby_rect(g, [a, b], x), filters.cheby_rect(g, [a, b], x, order=30), "default-order", 1e-12, scale=np.abs(x).sum())
    ctx.same(np.asarray(bounds), np.array([a, b]), "bounds-untouched")
    ctx.raises(lambda: filters.cheby_rect(g, [a], x), ValueError, "reject-bounds")
    # expansion coefficients, with and without damping
    lo, hi = 0., lm
    fb = [a, b]
    ch, jch = filters.compute_jackson_cheby_coeff(fb, [lo, hi], order)
    ctx.close(ch, c, "ideal-coefficients", 1e-9, scale=2)
    M = order + 2
    al = np.pi / M
    i = np.arange(order + 1)
    damp = ((1 - i / M) * np.sin(al) * np.cos(i * al) + np.cos(al) * np.sin(i * al) / M) / np.sin(al)
    ctx.close(jch, ch * damp, "jackson-damping", 1e-9, scale=2)
    ctx.ok(fb == [a, b], "bounds-untouched")
    xs = np.linspace(lo, hi, 301)
    th = np.arccos(np.clip(2 * xs / lm - 1, -1, 1))
    resp = .5 * jch[0] + sum(jch[k] * np.cos(k * th) for k in range(1, order + 1))
    ctx.ok(resp.min() > -1e-6 and resp.max() < 1 + 1e-6, "jackson-no-overshoot", lambda: f"{resp.min()} {resp.max()}")


@R.family(quick=100, thorough=2000)
def jackson_intervals(ctx, rng):
    from pygsp import filters
    lo, hi = np.sort(rng.uniform(-3, 10, 2))
    if hi - lo < .1:
        ctx.skip()
    a, b = np.sort(rng.uniform(lo, hi, 2))
    m = int(rng.integers(1, 30))
    ctx.describe(lo=lo, hi=hi, a=a, b=b, m=m)
    f = (lambda t: 2 * (t - lo) / (hi - lo) - 1)
    t1, t2 = np.arccos(f(a)), np.arccos(f(b))
    want = np.r_[2 / np.pi * (t1 - t2), [2 / (k * np.pi) * (np.sin(k * t1) - np.sin(k * t2)) for k in range(1, m + 1)]]
    dl = [lo, hi]
    ch, _ = filters.compute_jackson_cheby_coeff([a, b], dl, m)
    ctx.close(ch, want, "ideal-coefficients", 1e-9, scale=2)
    ctx.ok(dl == [lo, hi], "interval-untouched")
    # integer bounds passed as an array
    ch2, _ = filters.compute_jackson_cheby_coeff(np.array([1, 2]), np.array([0, 4]), m)
    ch3, _ = filters.compute_jackson_cheby_coeff([1., 2.], [0., 4.], m)
    ctx.close(ch2, ch3, "integer-bounds", 1e-12, scale=2)
    ctx.raises(lambda: filters.compute_jackson_cheby_coeff([lo - 1, b], [lo, hi], m), ValueError, "reject-bounds")
    ctx.raises(lambda: filters.compute_jackson_cheby_coeff([a, hi + 1], [lo, hi], m), ValueError, "reject-bounds")


@R.family(quick=150, thorough=3000)
def krylov(ctx, rng):
    """The Lanczos approximation is at least as good as polynomials of the same degree."""
    from pygsp import filters, graphs
    W = gen.adjacency(rng, nmin=3, nmax=12, loops=False, weighted="float", connected=True)
    lap = str(rng.choice(["combinatorial", "normalized"]))
    g = graphs.Graph(W, lap_type=lap)
    g.compute_fourier_basis()
    L = ref.laplacian(W, lap)
    n, lm = len(W), float(g.lmax)
    ks, desc = smooth_bank(rng, lm / 2)
    f = filters.Filter(g, ks)
    order = int(rng.integers(2, 7))
    s = rng.normal(size=n) if rng.uniform() < .6 else rng.normal(size=(n, 2))
    ctx.describe(W=W, lap=lap, kernels=desc, order=order, s=s)
    got = filters.lanczos_op(f, s, order=order)
    want = np.concatenate([ref.func_of(L, k) @ s for k in ks])
    xs = np.linspace(0, lm, 400)
    th = np.arccos(np.clip(2 * xs / lm - 1, -1, 1))
    bound = 0
    for k in ks:
        c = ref.cheb_interp_coefs(k, 0, lm, order - 1)
        bound = max(bound, np.abs(k(xs) - (.5 * c[0] + sum(c[o] * np.cos(o * th) for o in range(1, len(c))))).max())
    ctx.ok(got.shape == want.shape, "lanczos-shape", lambda: f"{got.shape} {want.shape}")
    err = np.abs(got - want).max()
    ctx.ok(err <= (3 * bound + 1e-4) * np.linalg.norm(s), "lanczos-error", lambda: f"{err} bound {bound}")


@R.family(quick=60, thorough=600)
def edgeless(ctx, rng):
    """Without edges, filtering multiplies by the kernel's value at zero."""
    from pygsp import filters, graphs
    n = int(rng.integers(1, 9))
    g = graphs.Graph(np.diag(rng.integers(0, 2, n)) if rng.uniform() < .3 else np.zeros((n, n)),
                     lap_type=str(rng.choice(["combinatorial", "normalized"])))
    if g.L.toarray().any():
        ctx.skip("normalized self-loops")
    a, b = rng.normal(size=2)
    f = filters.Filter(g, [lambda x: a + np.asarray(x), lambda x: b * np.exp(-np.asarray(x))])
    s = rng.normal(size=(n, 2))
    order = gen.count(rng, 1, 40)
    ctx.describe(True, n=n, a=a, b=b, s=s, order=order)
    out = np.asarray(f.filter(s[:, 0], method="chebyshev", order=order)).reshape(n, 2)
    ctx.close(out, s[:, :1] * [[a, b]], "edgeless", 1e-10, 50)
    one = filters.Filter(g, lambda x: a + np.asarray(x))
    if s.shape[1] > 1:
        ctx.close(np.asarray(one.filter(s[:, :, None], order=order)).reshape(n, 2), a * s, "edgeless", 1e-10, 50)


@R.family(quick=6, thorough=600)
def large(ctx, rng):
    """Hundreds of vertices, many kernels, many signals, high orders."""
    from pygsp import filters, graphs
    dd, W = gen.large(rng, 150, 600, loops=False)
    n = W.shape[0]
    lap = str(rng.choice(["combinatorial", "normalized"]))
    L = ref.laplacian(W.toarray(), lap)
    g = graphs.Graph(W, lap_type=lap)
    g.estimate_lmax("bounds")
    lm = float(g.lmax)
    F = int(rng.choice([1, 2, 7, 80]))
    a = rng.uniform(.05, 1, F) * 20 / lm
    ks = [lambda x, t=t: np.exp(-t * x) * (1 + t * x) for t in a]
    f = filters.Filter(g, ks)
    S = int(rng.choice([1, 3, 150])) if F < 80 else int(rng.choice([1, 3]))
    while S == F:
        S += 1
    order = int(rng.choice([5, 30, 120, 400]))
    layout = str(rng.choice(["N", "NS", "NS1", "NSF"]))
    s = rng.normal(size={"N": (n,), "NS": (n, S), "NS1": (n, S, 1), "NSF": (n, S, F)}[layout])
    ctx.describe(lap=lap, F=F, S=S, layout=layout, order=order, a=a, **dd)
    e, U = np.linalg.eigh(L)
    y = np.arccos(np.clip(2 * e / lm - 1, -1, 1))
    mats = []
    for k in ks:
        c = ref.cheb_interp_coefs(k, 0, lm, order)
        mats.append((U * (.5 * c[0] + np.cos(np.outer(y, np.arange(1, order + 1))) @ c[1:])) @ U.T)
    want = reference(s, mats, F)
    ctx.close(f.filter(s, method="chebyshev", order=order), want, "interpolation", 1e-9, scale=np.abs(want).max())
    if layout == "N":
        lo, hi = np.sort(rng.uniform(0, lm, 2))
        t = np.arccos(2 * np.array([lo, hi]) / lm - 1)
        o = np.arange(1, order + 1)
        c = 2 / (o * np.pi) * (np.sin(o * t[0]) - np.sin(o * t[1]))
        want = (U * ((t[0] - t[1]) / np.pi + np.cos(np.outer(y, o)) @ c)) @ (U.T @ s)
        ctx.close(filters.cheby_rect(g, [lo, hi], s, order=order), want, "cheby_rect", 1e-9, scale=np.abs(s).max())
    ctx.note(f"{layout} F={F} S={S} order={order}")
