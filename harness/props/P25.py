"""P25: semi-supervised solvers return the optimum of their stated problem."""
import numpy as np
from scipy import optimize

import gen
import ref
from core import Registry

R = Registry()
TECHNIQUE = "runtime monitoring: optimality-condition oracles (normal equations, harmonicity, constrained minimum)"
R.rule = "seeded graphs, signals, masks and regularizations; distinct by content hash"
R.assumptions = [
    "without regularization, every component has a measurement (otherwise the extension is not unique)",
    "iterative solutions are compared within the solver's documented default tolerance (residual of 1e-5 for the "
    "conjugate gradient), and the simplex variant when run to convergence"]


def problem(ctx, rng, classes=None, tau=None, nmin=2, nmax=16, need=True):
    from pygsp import graphs
    lap = str(rng.choice(["combinatorial", "combinatorial", "normalized"]))
    W = gen.adjacency(rng, nmin=nmin, nmax=nmax, scale=float(rng.choice([1, 1, 1, .1, 30])))
    n = len(W)
    L = ref.laplacian(W, lap)
    M = rng.uniform(size=n) < rng.choice([.2, .5, .8, 1.])
    if need:
        for c in ref.components(L - np.diag(np.diag(L))):
            M[int(rng.choice(c))] = True
    g = graphs.Graph(W, lap_type=lap)
    if classes is None:
        shape = [(), (), (1,), (2,), (3,)][int(rng.integers(5))]
        y = gen.signal(rng, n, shape)
    else:
        y = rng.integers(0, classes, n)
    if y.dtype.kind == "f" or rng.uniform() < .5:
        y = y.astype(float)
        if rng.uniform() < .6:
            y[~M] = np.nan
    elif rng.uniform() < .5 and np.abs(y).max(initial=0) < 120:
        y = y.astype(rng.choice(["int8", "int16", "uint8" if y.min(initial=0) >= 0 else "int32"]))
    ctx.describe(not M.all(), W=W, lap=lap, M=M, y=y)
    ctx.note(f"measured {'all' if M.all() else 'some'}, dtype {y.dtype.kind}")
    return g, W, L, y, M


def clean(y, M):
    z = np.array(y, float)
    z[~M] = 0
    return z


def unchanged(ctx, y, M, before):
    ctx.ok((ref.snapshot(y), ref.snapshot(M)) == before, "arguments-unchanged")


def harmonic(ctx, L, x, y, M, lap):
    """Exact on the measures, smoothest elsewhere."""
    ctx.same(x.shape, y.shape, "shape")
    ctx.ok(x.dtype.kind == "f", "real-valued", lambda: str(x.dtype))
    ctx.same(x[M], np.asarray(y, float)[M], "measures-interpolated")
    if M.all():
        return
    u = ~M
    A, b = L[np.ix_(u, u)], -L[np.ix_(u, M)] @ np.asarray(y, float)[M]
    want = np.linalg.solve(A, b)
    sc = max(np.abs(want).max(), np.abs(np.asarray(y, float)[M]).max(), 1e-300)
    cond = np.linalg.cond(A)
    ctx.close(x[u], want, "smoothest-extension", 1e-12 * max(cond, 1e3), sc)
    ctx.close((L @ x)[u], np.zeros_like(x[u]), "harmonic", 1e-9, sc * np.abs(L).max() * len(L))
    if lap == "combinatorial":
        lo, hi = np.asarray(y, float)[M].min(0), np.asarray(y, float)[M].max(0)
        ctx.ok((x >= lo - 1e-7 * sc).all() and (x <= hi + 1e-7 * sc).all(), "maximum-principle")


@R.family(quick=500, thorough=12000)
def interpolation(ctx, rng):
    from pygsp import learning
    g, W, L, y, M = problem(ctx, rng)
    before = ref.snapshot(y), ref.snapshot(M)
    kw = {} if rng.uniform() < .5 else dict(tau=0)
    x = learning.regression_tikhonov(g, y, M, **kw)
    unchanged(ctx, y, M, before)
    harmonic(ctx, L, x, y, M, g.lap_type)
    x[0] = 1e9
    unchanged(ctx, y, M, before)
    ctx.raises(lambda: learning.regression_tikhonov(g, y, np.append(M, True)), ValueError, "wrong-mask-rejected")


@R.family(quick=500, thorough=12000)
def regression(ctx, rng):
    from pygsp import learning
    g, W, L, y, M = problem(ctx, rng, need=rng.uniform() < .7)
    tau = float(rng.choice([1e-3, .1, 1, 5, 100]))
    ctx.describe(True, tau=tau)
    before = ref.snapshot(y), ref.snapshot(M)
    x = learning.regression_tikhonov(g, y, M, tau=tau) if rng.uniform() < .5 else learning.regression_tikhonov(g, y, M, tau)
    unchanged(ctx, y, M, before)
    ctx.same(x.shape, y.shape, "shape")
    z = clean(y, M)
    A = np.diag(M.astype(float)) + tau * L
    res = np.linalg.norm(A @ x - z, axis=0)
    rhs = np.linalg.norm(z, axis=0)
    ctx.ok((res <= 1.5e-5 * rhs + 1e-12 * np.abs(A).max() * np.abs(x).max(initial=0)).all(), "optimality-condition",
           lambda: f"residual {res} of {rhs}")

    def obj(v):
        return ((M[(...,) + (None,) * (v.ndim - 1)] * v - z) ** 2).sum() + tau * np.sum(v * (L @ v))

    best = obj(np.linalg.lstsq(A, z, rcond=None)[0])
    ctx.ok(obj(x) <= best + 1e-4 * (best + (z ** 2).sum()) + 1e-12, "minimum", lambda: f"{obj(x)} > {best}")
    # Every signal is solved on its own.
    if x.ndim == 2:
        k = int(rng.integers(x.shape[1]))
        one = learning.regression_tikhonov(g, np.ascontiguousarray(y[:, k]), M, tau=tau)
        ctx.close(one, x[:, k], "signals-independent", 1e-9, max(np.abs(x).max(), 1e-300))
    x[0] = 1e9
    unchanged(ctx, y, M, before)


def logits(y, M):
    z = clean(y, M).astype(int)
    Y = np.zeros((len(z), z.max() + 1))
    Y[np.arange(len(z)), z] = 1
    return Y


@R.family(quick=350, thorough=8000)
def classification(ctx, rng):
    from pygsp import learning
    k = gen.count(rng, 1, 5, 2000)
    g, W, L, y, M = problem(ctx, rng, classes=k)
    tau = float(rng.choice([0, 0, .1, 1, 10]))
    ctx.describe(True, tau=tau)
    before = ref.snapshot(y), ref.snapshot(M)
    X = learning.classification_tikhonov(g, y, M, **({} if tau == 0 and rng.uniform() < .5 else dict(tau=tau)))
    unchanged(ctx, y, M, before)
    Y = logits(y, M)
    ctx.same(X.shape, Y.shape, "logits-shape")
    if tau == 0:
        harmonic(ctx, L, X, Y, M, g.lap_type)
        if g.lap_type == "combinatorial":
            ctx.close(X.sum(1), np.ones(len(X)), "logits-sum-to-one", 1e-6)
    else:
        Z = Y * M[:, None]
        A = np.diag(M.astype(float)) + tau * L
        res = np.linalg.norm(A @ X - Z, axis=0)
        ctx.ok((res <= 1.5e-5 * np.linalg.norm(Z, axis=0) + 1e-10).all(), "optimality-condition", lambda: str(res))
    ctx.note(f"classes {Y.shape[1]}")


def simplex(v):
    """Projection of the rows on the simplex, by thresholding the sorted values."""
    out = np.empty_like(v)
    for i, r in enumerate(v):
        s = np.sort(r)[::-1]
        c = (np.cumsum(s) - 1) / np.arange(1, len(s) + 1)
        lam = c[np.nonzero(s > c)[0][-1]]
        out[i] = np.maximum(r - lam, 0)
    return out


def constrained_minimum(L, Z, M, tau, steps=4000):
    lip = 2 * (1 + tau * np.linalg.eigvalsh(L)[-1])
    x = v = simplex(Z.copy())
    t = 1
    for _ in range(steps):
        new = simplex(v - 2 * (M[:, None] * v - Z + tau * L @ v) / lip)
        if ((v - new) * (new - x)).sum() > 0:
            t = 1  # Restart.
        t2 = (1 + np.sqrt(1 + 4 * t * t)) / 2
        v = new + (t - 1) / t2 * (new - x)
        if np.abs(new - x).max() < 1e-12:
            x = new
            break
        x, t = new, t2
    return x


@R.family(quick=100, thorough=1500, timeout=120)
def classification_simplex(ctx, rng):
    from pygsp import learning
    k = gen.count(rng, 1, 5, 300)
    g, W, L, y, M = problem(ctx, rng, classes=k, nmax=10)
    tau = float(rng.choice([.01, .1, 1, 5]))
    ctx.describe(True, tau=tau)
    before = ref.snapshot(y), ref.snapshot(M)
    kw = dict(verbosity="NONE", maxit=3000, rtol=None, xtol=1e-9)
    if rng.uniform() < .5:
        g.estimate_lmax("bounds")
    X = learning.classification_tikhonov_simplex(g, y, M, tau=tau, **kw)
    unchanged(ctx, y, M, before)
    Y = logits(y, M)
    ctx.same(X.shape, Y.shape, "logits-shape")
    ctx.ok(X.min() >= 0, "non-negative")
    ctx.close(X.sum(1), np.ones(len(X)), "on-simplex", 1e-9)
    Z = Y * M[:, None]

    def obj(V):
        return ((M[:, None] * V - Z) ** 2).sum() + tau * np.sum(V * (L @ V))

    S = constrained_minimum(L, Z, M, tau)
    ctx.ok(obj(X) >= obj(S) - 1e-6 * (1 + obj(S)), "reference-is-minimal", lambda: f"{obj(X)} {obj(S)}")
    ctx.ok(obj(X) <= obj(S) + 2e-4 * (1 + obj(S)), "constrained-minimum", lambda: f"{obj(X)} {obj(S)}")
    # Default options: still on the simplex.
    V = learning.classification_tikhonov_simplex(g, y, M, verbosity="NONE")
    ctx.ok(V.min() >= 0, "non-negative")
    ctx.close(V.sum(1), np.ones(len(V)), "on-simplex", 1e-9)
    for bad in (0, -1):
        ctx.raises(lambda: learning.classification_tikhonov_simplex(g, y, M, tau=bad), ValueError, "regularization-rejected")


@R.family(quick=3, thorough=6)
def prox_tv(ctx, rng):
    """The proximal operator of the total variation (see the known findings)."""
    from pygsp import graphs, optimization
    g = graphs.Ring(8)
    g.compute_differential_operator()
    g.estimate_lmax()
    x = rng.normal(size=8)
    gamma = .5
    ctx.describe(True, x=x)
    try:
        z = optimization.prox_tv(x, gamma, g)
        ok = z is not None and np.shape(z) == x.shape
    except Exception as e:
        ctx.ok(False, "prox-tv", f"{type(e).__name__}: {e}")
    ctx.ok(ok, "prox-tv", f"returned {type(z).__name__}")
    D = ref.incidence(g.W.toarray(), "combinatorial")[0]

    def obj(v):
        return .5 * ((v - x) ** 2).sum() + gamma * np.abs(D.T @ v).sum()

    # Dual: minimize |x - gamma D p|^2 with |p| <= 1.
    p = optimize.lsq_linear(gamma * D, x, (-1, 1)).x
    ctx.ok(obj(z) <= obj(x - gamma * D @ p) * (1 + 1e-2), "prox-tv", "not minimal")


@R.family(quick=4, thorough=400, timeout=120)
def large(ctx, rng):
    """Hundreds to thousands of vertices, few measures, long diameters, tens of classes or signals."""
    from pygsp import graphs, learning
    d, S = gen.large(rng, 200, 900, directed=False, connected=True)
    n = S.shape[0]
    lap = str(rng.choice(["combinatorial", "normalized"]))
    L = ref.laplacian(S.toarray(), lap)
    M = rng.uniform(size=n) < rng.choice([.02, .2, .6])
    M[int(rng.integers(n))] = True
    tau = float(rng.choice([.1, 1, 30]))
    task = str(rng.choice(["interpolation", "regression", "regression", "classification"]))
    C = int(rng.choice([1, 3, 30]))
    ctx.describe(lap=lap, tau=tau, task=task, C=C, measures=int(M.sum()), **d)
    ctx.note(f"{task} {d['kind']}")
    g = graphs.Graph(S, lap_type=lap)
    if task == "classification":
        y = rng.integers(0, C + 1, n).astype(float)
        y[~M] = np.nan
        z = np.zeros((n, int(np.nanmax(y)) + 1))
        z[M, y[M].astype(int)] = 1
        x = learning.classification_tikhonov(g, y, M, tau=tau)
        # The vertices without measure count as class zero, masked.
    else:
        y = rng.normal(size=(n, C) if C > 1 else n)
        z = clean(y, M)
        x = learning.regression_tikhonov(g, y, M, tau=tau if task == "regression" else 0)
    if task == "interpolation":
        harmonic(ctx, L, x, y, M, lap)
        return
    ctx.same(x.shape, z.shape, "shape")
    # The optimum of the objective is reached up to the solver's documented tolerance on the residual.
    A = np.diag(M.astype(float)) + tau * L
    res, rhs = np.linalg.norm(A @ x - z, axis=0), np.linalg.norm(z, axis=0)
    ctx.ok((res <= 1.5e-5 * rhs + 1e-12 * np.abs(A).max() * np.abs(x).max(initial=0)).all(), "optimality-condition",
           lambda: f"{(res / np.maximum(rhs, 1e-300)).max()}")
