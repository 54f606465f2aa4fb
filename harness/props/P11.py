"""P11: frame matrices, localized atoms, frame bounds."""
import numpy as np
from core import Registry
import gen
import ref
from props.P09 import smooth_bank
from props.P10 import poly_of

R = Registry()
R.rule = "random graphs x filter banks x methods; non-trivial by construction (at least one edge); distinct by content hash"
R.assumptions = ["reference operators: functions of an independently built dense Laplacian"]


def setup(ctx, rng, nmin=2, nmax=12):
    from pygsp import filters
    g, W, d = gen.spectral_graph(rng, nmin=nmin, nmax=nmax)
    L = ref.laplacian(W, d["lap"])
    if gen.edgeless(W):
        ctx.skip("no edge")
    g.compute_fourier_basis()
    if rng.uniform() < .5:
        ks, desc = smooth_bank(rng, g.lmax / 2)
        f = filters.Filter(g, ks)
        mats = [ref.func_of(L, k) for k in ks]
    else:
        name, kw, f = gen.filterbank(rng, g)
        desc = (name, kw)
        mats = [(g.U * v) @ g.U.T for v in f.evaluate(g.e)]
    return g, W, L, f, mats, dict(d, bank=desc)


@R.family(quick=500, thorough=12000)
def frame(ctx, rng):
    g, W, L, f, mats, d = setup(ctx, rng)
    n, F = len(W), f.Nf
    ctx.describe(**d)
    ctx.note(f"F={min(F, 4)} N==F:{n == F}")
    sc = max(np.abs(M).max() for M in mats) + 1
    T = f.compute_frame(method="exact")
    ctx.ok(T.shape == (n * F, n), "frame-shape", lambda: f"{T.shape}")
    ctx.close(T, np.concatenate(mats), "frame-stacks-filters", 1e-8, scale=sc)
    x = rng.normal(size=n)
    y = f.filter(x, method="exact").reshape(n, F)
    ctx.close(T @ x, y.T.ravel(), "frame-analyses", 1e-8, scale=sc * n)
    c = rng.normal(size=(n, 1, F))
    if F > 1:
        ctx.close(T.T @ c[:, 0].T.ravel(), f.filter(c, method="exact").reshape(n), "frame-transpose-synthesizes", 1e-8, scale=sc * n * F)
    order = int(rng.choice([1, 5, 30]))
    C = f.compute_frame(order=order)
    lm = g.lmax
    want = np.concatenate([poly_of(L, ref.cheb_interp_coefs(lambda t, i=i: f.evaluate(t)[i], 0, lm, order), lm) for i in range(F)])
    ctx.close(C, want, "cheby-frame", 1e-8, scale=sc * 4 * order)
    if order == 30:
        ctx.close(f.toarray(), C, "toarray", 1e-9, scale=sc)
    # bounds at the eigenvalues are those of the frame operator
    A, B = f.estimate_frame_bounds(g.e)
    w = np.linalg.eigvalsh(T.T @ T)
    ctx.close(A, w[0], "lower-bound", 1e-7, scale=w[-1] + 1e-12)
    ctx.close(B, w[-1], "upper-bound", 1e-7, scale=w[-1] + 1e-12)
    for v in (x, g.U[:, int(rng.integers(n))], np.eye(n)[int(rng.integers(n))]):
        e = np.linalg.norm(f.filter(v, method="exact")) ** 2
        nv = v @ v
        ctx.ok(A * nv - 1e-7 * (B + 1) * nv <= e <= B * nv + 1e-7 * (B + 1) * nv, "bounds-bracket", lambda: f"{A} {e / nv} {B}")


@R.family(quick=400, thorough=10000)
def localize(ctx, rng):
    g, W, L, f, mats, d = setup(ctx, rng)
    n, F = len(W), f.Nf
    i = int(rng.integers(n))
    ctx.describe(i=i, **d)
    sc = max(np.abs(M).max() for M in mats) * np.sqrt(n) + 1
    got = f.localize(i, method="exact")
    ctx.close(got, np.sqrt(n) * np.stack([M[i] for M in mats], -1).squeeze(), "localized", 1e-8, scale=sc)
    got = f.localize(i, order=12)
    delta = np.zeros(n)
    delta[i] = 1
    ctx.close(got, np.sqrt(n) * f.filter(delta, order=12), "localized-cheby", 1e-9, scale=sc)
    ctx.close(f.localize(i), np.sqrt(n) * f.filter(delta), "localized-default", 1e-9, scale=sc)


@R.family(quick=400, thorough=10000)
def bounds(ctx, rng):
    from pygsp import filters
    g, W, L, f, mats, d = setup(ctx, rng)
    lm = g.lmax
    ctx.describe(**d)
    A, B = f.estimate_frame_bounds()
    x = np.linspace(0, lm, 1000)
    y = sum(np.asarray(v, float) ** 2 for v in f.evaluate(x))
    ctx.close([A, B], [y.min(), y.max()], "default-grid", 1e-9, scale=y.max() + 1e-300)
    xs = rng.uniform(0, lm * rng.choice([1, 1, 1.5]), int(rng.integers(1, 50)))
    if rng.uniform() < .7:
        xs.sort()
    y = (f.evaluate(xs) ** 2).sum(0)
    ctx.close(list(f.estimate_frame_bounds(xs if rng.uniform() < .5 else xs.tolist())), [y.min(), y.max()], "given-grid", 1e-9, scale=y.max() + 1e-300)
    ctx.ok(A <= B, "ordered")


@R.family(quick=4, thorough=400)
def large(ctx, rng):
    """Frames of hundreds of vertices, many filters."""
    from pygsp import filters, graphs
    dd, W = gen.large(rng, 100, 300, loops=False)
    n = W.shape[0]
    lap = str(rng.choice(["combinatorial", "normalized"]))
    L = ref.laplacian(W.toarray(), lap)
    g = graphs.Graph(W, lap_type=lap)
    g.compute_fourier_basis()
    F = int(rng.choice([1, 3, 12]))
    a = rng.uniform(.5, 5, F) / g.lmax
    f = filters.Filter(g, [lambda x, t=t: np.exp(-t * x) for t in a])
    ctx.describe(lap=lap, a=a, **dd)
    e, U = np.linalg.eigh(L)
    mats = [(U * np.exp(-t * e)) @ U.T for t in a]
    T = f.compute_frame(method="exact")
    ctx.close(T, np.concatenate(mats), "frame-stacks-filters", 1e-9)
    ctx.close(f.compute_frame(order=40), np.concatenate(mats), "cheby-frame", 1e-8)
    i = int(rng.integers(n))
    for kw in (dict(method="exact"), dict(order=40)):
        ctx.close(f.localize(i, **kw), np.sqrt(n) * np.stack([M[i] for M in mats], -1).squeeze(), "localized", 1e-7)
    A, B = f.estimate_frame_bounds(g.e)
    v = sum(np.exp(-2 * t * e) for t in a)
    ctx.close([A, B], [v.min(), v.max()], "bounds", 1e-9)
    ctx.note(f"F={F} {dd['kind']}")
