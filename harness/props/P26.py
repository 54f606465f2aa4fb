"""P26: utility functions compute what they document."""
import logging

import numpy as np
from scipy import sparse

import gen
import ref
from core import Registry

R = Registry()
TECHNIQUE = "runtime monitoring: entry-wise reference oracles over dense and sparse inputs"
R.rule = "seeded matrices, vectors and parameters; distinct by content hash"
R.assumptions = ["finite real inputs", "rescaled data is not constant"]

METHODS = ["average", "maximum", "fill", "tril", "triu"]


def sym(W, how):
    n = len(W)
    S = np.zeros((n, n))
    W = W.astype(float)
    for i in range(n):
        for j in range(n):
            a, b = W[i, j], W[j, i]
            if how == "average":
                S[i, j] = a / 2 + b / 2
            elif how == "maximum":
                S[i, j] = max(a, b)
            elif how == "fill":
                S[i, j] = a if b == 0 else b if a == 0 else (a + b) / 2
            elif how == "tril":
                S[i, j] = W[max(i, j), min(i, j)]
            else:
                S[i, j] = W[min(i, j), max(i, j)]
    return S


@R.family(quick=1000, thorough=25000)
def symmetrize(ctx, rng):
    from pygsp import utils
    n = int(rng.integers(1, 9))
    W = rng.normal(size=(n, n)) * (rng.uniform(size=(n, n)) < rng.choice([.2, .6, 1.]))
    kind = str(rng.choice(["normal", "positive", "int", "bool", "uint8", "float32", "symmetric"]))
    if kind == "positive":
        W = np.abs(W)
    elif kind == "int":
        W = rng.integers(-3, 4, (n, n))
    elif kind == "bool":
        W = W > 0
    elif kind == "uint8":
        W = rng.integers(0, 256, (n, n)).astype(np.uint8)
    elif kind == "float32":
        W = W.astype(np.float32)
    elif kind == "symmetric":
        W = W + W.T
    how = str(rng.choice(METHODS))
    cont = str(rng.choice(["ndarray", "ndarray", "fortran", "csr", "csc", "coo", "lil", "dok", "bsr", "dia",
                           "csr_zeros", "coo_dup", "csr_unsorted", "csr_array"]))
    if kind == "bool" and cont not in ("ndarray", "fortran", "csr", "csc", "coo", "lil"):
        cont = "csr"
    _, M = gen.container(rng, W, cont)
    if cont == "dia":
        # SciPy 1.17 adds diagonals that were stored shorter than the matrix wrongly: store them in full.
        M = type(M)((np.pad(M.data, ((0, 0), (0, n - M.data.shape[1]))), M.offsets), shape=M.shape)
    ctx.describe(n > 1, W=W, how=how, container=cont)
    before = ref.snapshot(M)
    if how == "average" and rng.uniform() < .3:
        S = utils.symmetrize(M)
    else:
        S = utils.symmetrize(M, method=how)
    ctx.ok(ref.snapshot(M) == before, "argument-unchanged")
    ctx.ok(sparse.issparse(S) == sparse.issparse(M), "sparsity-kept", lambda: f"{type(M)} -> {type(S)}")
    D = S.toarray() if sparse.issparse(S) else np.asarray(S)
    want = sym(W, how)
    ctx.close(D.astype(float), want, "symmetrize-" + how, 1e-6 if kind == "float32" else 1e-13, max(np.abs(want).max(), 1e-300))
    ctx.same(D, D.T, "symmetric")
    if (W == W.T).all():
        ctx.close(D.astype(float), W.astype(float), "symmetric-kept", 1e-6 if kind == "float32" else 1e-13,
                  max(np.abs(want).max(), 1e-300))
    ctx.note(f"{how} {kind}")
    # Independence from the argument.
    if not sparse.issparse(S) and n > 1 and kind == "normal":
        S[0, 0] = 1e9
        ctx.ok(ref.snapshot(M) == before, "result-independent")
    ctx.raises(lambda: utils.symmetrize(M, method="unknown"), ValueError, "unknown-method-rejected")
    ctx.raises(lambda: utils.symmetrize(np.ones((n, n + 1)), method=how), ValueError, "non-square-rejected")


@R.family(quick=500, thorough=12000)
def distanz(ctx, rng):
    from pygsp import utils
    d, a, b = int(rng.integers(1, 6)), int(rng.integers(1, 9)), int(rng.integers(1, 9))
    kind = str(rng.choice(["normal", "int", "offset", "vector", "column"]))
    if kind == "vector":
        x, y = rng.normal(size=a), rng.normal(size=b)
    elif kind == "column":
        x, y = rng.normal(size=(d, 1)), rng.normal(size=(d, b))
    else:
        x, y = rng.normal(size=(d, a)), rng.normal(size=(d, b))
        if kind == "int":
            x, y = rng.integers(-9, 9, (d, a)), rng.integers(-9, 9, (d, b))
        elif kind == "offset":
            x, y = x + 10, y + 10
    if rng.uniform() < .3:
        y = None
    ctx.describe(True, x=x, y=y)
    before = ref.snapshot(x), ref.snapshot(y)
    D = utils.distanz(x) if y is None else utils.distanz(x, y)
    ctx.ok((ref.snapshot(x), ref.snapshot(y)) == before, "argument-unchanged")
    X = np.atleast_2d(x).astype(float)
    Y = X if y is None else np.atleast_2d(y).astype(float)
    want = np.sqrt(((X[:, :, None] - Y[:, None, :]) ** 2).sum(0))
    sc = max(np.abs(X).max(), np.abs(Y).max(), 1e-300)
    ctx.close(D ** 2, want ** 2, "squared-distances", 1e-12 * X.shape[0], sc ** 2)
    ctx.close(D, want, "distances", 1e-6, sc)
    if X.shape[0] > 1 or True:
        ctx.raises(lambda: utils.distanz(X, np.ones((X.shape[0] + 1, 2))), ValueError, "size-mismatch-rejected")


@R.family(quick=300, thorough=6000)
def rescale_center(ctx, rng):
    from pygsp import utils
    d, n = int(rng.integers(1, 5)), int(rng.integers(2, 12))
    x = rng.normal(size=(d, n)) * float(rng.choice([1, 1e-3, 1e4])) + float(rng.choice([0, 10, -5]))
    if rng.uniform() < .3:
        x = rng.integers(-9, 9, (d, n))
    if np.ptp(x, axis=1).max() == 0:
        ctx.skip("constant")
    ctx.describe(True, x=x)
    before = ref.snapshot(x)
    r = utils.rescale_center(x)
    ctx.ok(ref.snapshot(x) == before, "argument-unchanged")
    y = x - x.mean(1, keepdims=True)
    ctx.close(r, y / y.max(), "rescaled", 1e-9)
    ctx.close(r.mean(1), np.zeros(d), "centred", 1e-9, np.abs(x).max() / y.max())
    ctx.close(r.max(), 1, "maximum-is-one", 1e-9)


@R.family(quick=300, thorough=6000)
def log_scales(ctx, rng):
    from pygsp import utils
    lmax = float(10. ** rng.uniform(-3, 4))
    lmin = lmax / float(rng.uniform(1.01, 1e4))
    n = int(rng.integers(1, 12))
    kw = {}
    if rng.uniform() < .5:
        kw["t1"] = float(rng.uniform(.1, 5))
    if rng.uniform() < .5:
        kw["t2"] = float(rng.uniform(.1, 5))
    ctx.describe(True, lmin=lmin, lmax=lmax, n=n, **kw)
    s = utils.compute_log_scales(lmin, lmax, n, **kw)
    ctx.same(len(s), n, "number-of-scales")
    hi, lo = kw.get("t2", 2) / lmin, kw.get("t1", 1) / lmax
    ctx.close(s[0], hi, "first-scale", 1e-10)
    if n > 1:
        ctx.close(s[-1], lo, "last-scale", 1e-10)
        ctx.close(s, hi * (lo / hi) ** (np.arange(n) / (n - 1)), "geometric", 1e-10)


@R.family(quick=200, thorough=4000)
def filterbank_handler(ctx, rng):
    from pygsp import filters, graphs, utils
    g = graphs.Ring(5)
    g.estimate_lmax()
    k = int(rng.integers(1, 6))
    cs = rng.normal(size=k)
    f = filters.Filter(g, [lambda x, c=c: c * np.ones_like(x) for c in cs])
    calls = []

    @utils.filterbank_handler
    def helper(f, a, b=2, i=0):
        """Documentation."""
        calls.append((i, a, b))
        return float(f._kernels[i](np.zeros(1))[0]) + a * b

    a, b = rng.normal(size=2)
    kw = {} if rng.uniform() < .5 else dict(b=b)
    bb = kw.get("b", 2)
    ctx.describe(k > 1, cs=cs, a=a, b=bb)
    out = helper(f, a, **kw)
    if k == 1:
        ctx.close(out, cs[0] + a * bb, "single", 1e-12, 10)
    else:
        ctx.ok(isinstance(out, list) and len(out) == k, "one-result-per-filter")
        ctx.close(out, cs + a * bb, "per-filter", 1e-12, 10)
        ctx.same([c[0] for c in calls], np.arange(k), "called-once-in-order")
    i = int(rng.integers(k))
    ctx.close(helper(f, a, i=i, **kw), cs[i] + a * bb, "chosen-filter", 1e-12, 10)
    ctx.ok(helper.__name__ == "helper" and helper.__doc__ == "Documentation.", "documentation-kept")


@R.family(quick=20, thorough=100)
def misc(ctx, rng):
    from pygsp import utils
    name = f"pygsp.verif{int(rng.integers(0, 10**6))}"
    ctx.describe(True, name=name)
    log = utils.build_logger(name)
    ctx.ok(log is logging.getLogger(name) and len(log.handlers) == 1, "logger")
    ctx.ok(utils.build_logger(name) is log and len(log.handlers) == 1, "one-handler")
    data = utils.loadmat("pointclouds/bunny")
    ctx.same(data["bunny"].shape, (2503, 3), "data")
    data["bunny"][:] = 0
    ctx.ok(utils.loadmat("pointclouds/bunny")["bunny"].any(), "data-independent")
    ctx.raises(lambda: utils.loadmat("unknown"), Exception, "unknown-data")


@R.family(quick=5, thorough=500)
def large(ctx, rng):
    """Hundreds of columns and vertices."""
    from pygsp import utils
    d, a, b = int(rng.integers(1, 60)), int(rng.integers(50, 500)), int(rng.integers(50, 300))
    x, y = rng.normal(size=(d, a)), rng.normal(size=(d, b))
    how = str(rng.choice(METHODS))
    dd, W = gen.large(rng, 150, 600, directed=True)
    if rng.uniform() < .3:
        W.data = W.data * rng.choice([-1, 1], W.nnz)
    ctx.describe(x=x, y=y, how=how, **dd)
    D = utils.distanz(x, y)
    want = np.sqrt(((x[:, :, None] - y[:, None, :]) ** 2).sum(0))
    ctx.close(D, want, "distances", 1e-9, want.max())
    D = utils.distanz(x)
    ctx.close(D ** 2, ((x[:, :, None] - x[:, None, :]) ** 2).sum(0), "squared-distances", 1e-12 * d, np.abs(x).max() ** 2)
    V = W.toarray()
    i = np.arange(len(V))
    T = V.T
    want = {"average": (V + T) / 2, "maximum": np.maximum(V, T),
            "fill": np.where(T == 0, V, np.where(V == 0, T, (V + T) / 2)),
            "tril": np.where(i[:, None] >= i, V, T), "triu": np.where(i[:, None] <= i, V, T)}[how]
    for M in (W, V, W.tocsc()):
        S = utils.symmetrize(M, method=how)
        S = S.toarray() if sparse.issparse(S) else S
        ctx.close(S, want, "symmetrize-" + how, 1e-13, np.abs(want).max())
    z = rng.normal(size=(3, a))
    r = utils.rescale_center(z)
    c = z - z.mean(1, keepdims=True)
    ctx.close(r, c / c.max(), "rescale", 1e-12, np.abs(r).max())
    k = int(rng.integers(2, 400))
    ctx.close(np.log(utils.compute_log_scales(.01, 7., k)), np.linspace(np.log(2 / .01), np.log(1 / 7.), k), "log-scales", 1e-12)
