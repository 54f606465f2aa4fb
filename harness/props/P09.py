"""P09: exact filtering applies the kernels to the Laplacian spectrum."""
import numpy as np
from core import Registry
import gen
import ref

R = Registry()
R.rule = ("random graphs x filter banks (named and custom) x every admissible signal layout; non-trivial if at least "
          "one edge; distinct by content hash")
R.assumptions = ["reference: function of an independently built dense Laplacian (custom smooth kernels), or the "
                 "kernels at the graph's own eigenpairs (named, possibly discontinuous, kernels)"]

LAYOUTS = ["N", "N1", "NS", "NS1", "N11", "NF", "NSF", "N1F", "list"]


def smooth_bank(rng, q):
    """Kernels with their scalar definition, smooth on the scale q."""
    ks, desc = [], []
    for _ in range(int(rng.integers(1, 5))):
        a = float(rng.uniform(.2, 4))
        kind = str(rng.choice(["exp", "rat", "cos", "poly", "const", "id"]))
        desc.append((kind, a))
        ks.append({"exp": lambda x, a=a: np.exp(-a * x / q), "rat": lambda x, a=a: 1 / (1 + a * x / q),
                   "cos": lambda x, a=a: np.cos(a * x / q), "poly": lambda x, a=a: 1 - a * x / q + (x / q) ** 3,
                   "const": lambda x, a=a: a + 0 * x, "id": lambda x, a=a: x / q}[kind])
    return ks, desc


def make_signal(rng, n, F, layout):
    S = gen.count(rng, 1, 5, 300)
    if layout in ("NS", "NS1", "NSF") and n > 1:
        while S in (1, F):
            S = gen.count(rng, 2, 9, 300)
    T = {"N": (n,), "list": (n,), "N1": (n, 1), "NS": (n, S), "NS1": (n, S, 1), "N11": (n, 1, 1),
         "NF": (n, F), "NSF": (n, S, F), "N1F": (n, 1, F)}[layout]
    return gen.signal(rng, n, T[1:])


def reference(s, mats, F):
    """Documented semantics on (nodes, signals, features)."""
    n = mats[0].shape[0]
    if s.ndim == 1:
        t = s[:, None, None]
    elif s.ndim == 2:
        t = s[:, None, :] if s.shape[1] in (1, F) else s[:, :, None]
    else:
        t = s
    if t.shape[2] == 1:
        out = np.stack([np.tensordot(M, t[:, :, 0], (1, 0)) for M in mats], -1)
    else:
        out = sum(np.tensordot(M, t[:, :, i], (1, 0)) for i, M in enumerate(mats))[:, :, None]
    return out.squeeze()


@R.family(quick=700, thorough=20000)
def custom_kernels(ctx, rng):
    from pygsp import filters
    g, W, d = gen.spectral_graph(rng, nmin=1, nmax=14)
    n = len(W)
    L = ref.laplacian(W, d["lap"])
    q = max(np.abs(W).max(), 1e-300) if d['lap'] == 'combinatorial' else 1.
    ks, kd = smooth_bank(rng, q)
    F = len(ks)
    f = filters.Filter(g, ks if F > 1 or rng.uniform() < .5 else ks[0])
    layout = str(rng.choice(LAYOUTS))
    s = make_signal(rng, n, F, layout)
    if rng.uniform() < .1:
        s = s + 1j * make_signal(rng, n, F, layout).reshape(s.shape) if layout in ("N", "NF", "N1") else s
    ctx.describe(bool(W.any()), kernels=kd, layout=layout, s=s, **d)
    ctx.note(f"layout:{layout} F={min(F, 3)} N==F:{n == F}")
    mats = [ref.func_of(L, k) for k in ks]
    want = reference(s, mats, F)
    s0 = s.copy()
    got = f.filter(s.tolist() if layout == "list" else s, method="exact")
    # The spectrum of self-loops is only rounding errors, far below the range the kernels are made for.
    mag = (np.abs(s).sum() + 1e-300) * max(max(np.abs(M).max() for M in mats), 1e-4 * max(np.abs(k(np.array([q]))).max() for k in ks))
    ctx.close(got, want, "exact", 1e-8, scale=mag, msg=layout)
    ctx.same(s, s0, "signal-untouched")
    if layout in ("NF", "NSF", "N1F"):
        ctx.close(f.synthesize(s, method="exact"), want, "synthesize", 1e-8, scale=mag)
    elif layout not in ("list",):
        ctx.close(f.analyze(s, method="exact"), want, "analyze", 1e-8, scale=mag)


@R.family(quick=400, thorough=10000)
def operator_laws(ctx, rng):
    """Linearity, adjointness, batch independence, composition."""
    from pygsp import filters
    g, W, d = gen.spectral_graph(rng, nmin=3, nmax=12)
    n = len(W)
    if not W.any():
        ctx.skip()
    g.compute_fourier_basis()
    if gen.edgeless(W):
        ctx.skip("self-loops only")
    name, kw, f = gen.filterbank(rng, g)
    F = f.Nf
    ctx.describe(filter=name, params=kw, **d)
    ctx.note("filter:" + name)
    x, y = rng.normal(size=(2, n))
    a, b = rng.normal(size=2)
    c = rng.normal(size=(n, 1, F))
    ax = f.filter(x, method="exact").reshape(n, F)
    ay = f.filter(y, method="exact").reshape(n, F)
    sc = max(1, np.abs(f.evaluate(g.e)).max()) * 100
    vals = f.evaluate(g.e)
    for i in range(F):
        M = (g.U * vals[i]) @ g.U.T
        ctx.close(ax[:, i], M @ x, "named-exact", 1e-9, scale=sc)
    ctx.close(f.filter(a * x + b * y, method="exact").reshape(n, F), a * ax + b * ay, "linear", 1e-9, scale=sc)
    sy = f.filter(c, method="exact").reshape(n) if F > 1 else None
    if F > 1:
        ctx.close(np.sum(ax * c[:, 0]), x @ sy, "adjoint", 1e-9, scale=sc * n * F)
        c2 = rng.normal(size=(n, 1, F))
        ctx.close(f.filter(c + 2 * c2, method="exact").reshape(n), sy + 2 * f.filter(c2, method="exact").reshape(n),
                  "linear-synthesis", 1e-9, scale=sc * F)
    S = int(rng.choice([2, 3, 5, 7]))
    B = rng.normal(size=(n, S, 1))
    out = f.filter(B, method="exact").reshape(n, S, F)
    for j in range(S):
        ctx.close(out[:, j], f.filter(B[:, j, 0], method="exact").reshape(n, F), "batch-independent", 1e-9, scale=sc)
    if F > 1:
        B = rng.normal(size=(n, S, F))
        out = f.filter(B, method="exact")
        for j in range(S):
            ctx.close(out[:, j], f.filter(B[:, [j]], method="exact"), "batch-independent-synthesis", 1e-9, scale=sc * F)
    for i in range(F):
        ctx.close(filters.Filter(g, [lambda t, i=i: f.evaluate(t)[i]]).filter(x, method="exact"), ax[:, i], "members", 1e-9, scale=sc)


@R.family(quick=200, thorough=4000)
def rejected(ctx, rng):
    from pygsp import filters
    g, W, d = gen.spectral_graph(rng, nmin=3, nmax=8)
    n = len(W)
    F = int(rng.integers(2, 5))
    f = filters.Filter(g, [lambda x, k=k: x * 0 + k for k in range(F)])
    how = str(rng.choice(["length", "features", "4d", "method", "analyze", "synthesize", "5d", "method-none"]))
    ctx.describe(how=how, F=F, **d)
    method = "exact" if rng.uniform() < .5 else "chebyshev"
    if how == "length":
        ctx.raises(lambda: f.filter(np.zeros((n + 1,)), method=method), ValueError, "reject-" + how)
        ctx.raises(lambda: f.filter(np.zeros((n - 1, n)), method=method), ValueError, "reject-" + how)
    elif how == "features":
        ctx.raises(lambda: f.filter(np.zeros((n, 2, F + 1)), method=method), ValueError, "reject-" + how)
    elif how == "4d":
        last = int(rng.choice([1, F, F + 1]))
        ctx.raises(lambda: f.filter(np.zeros((n, 2, 2, last)), method=method), ValueError, "reject-" + how)
    elif how == "5d":
        ctx.raises(lambda: f.filter(np.zeros((n, 2, 2, 2, 1)), method=method), ValueError, "reject-" + how)
    elif how == "method":
        bad = str(rng.choice(["lanczos", "Exact", "cheby", ""]))
        ctx.raises(lambda: f.filter(np.zeros(n), method=bad), ValueError, "reject-" + how)
    elif how == "method-none":
        ctx.raises(lambda: f.filter(np.zeros(n), method=None), ValueError, "reject-" + how)
    elif how == "analyze":
        ctx.raises(lambda: f.analyze(np.zeros((n, 2, F)), method=method), ValueError, "reject-" + how)
    else:
        ctx.raises(lambda: f.synthesize(np.zeros((n, 2, F + 1)), method=method), ValueError, "reject-" + how)
        ctx.raises(lambda: f.synthesize(np.zeros(n if n != F else n), method=method) if n != F else f.synthesize(np.zeros((n, F + 1)), method=method), ValueError, "reject-" + how)


@R.family(quick=6, thorough=600)
def large(ctx, rng):
    """Hundreds of vertices, many kernels or many signals."""
    from pygsp import filters, graphs
    dd, W = gen.large(rng, 150, 600, loops=False)
    n = W.shape[0]
    lap = str(rng.choice(["combinatorial", "normalized"]))
    L = ref.laplacian(W.toarray(), lap)
    g = graphs.Graph(W, lap_type=lap)
    e, U = np.linalg.eigh(L)
    F = int(rng.choice([1, 2, 7, 40]))
    a = rng.uniform(.05, 1, F)
    f = filters.Filter(g, [lambda x, t=t: np.exp(-t * x) * (1 + t * x) for t in a])
    S = int(rng.choice([1, 3, 150, 700])) if F < 10 else int(rng.choice([1, 3, 150]))
    while S == F:
        S += 1
    layout = str(rng.choice(["N", "NS", "NS1", "NSF"]))
    s = rng.normal(size={"N": (n,), "NS": (n, S), "NS1": (n, S, 1), "NSF": (n, S, F)}[layout])
    ctx.describe(lap=lap, F=F, S=S, layout=layout, a=a, **dd)
    mats = [(U * (np.exp(-t * e) * (1 + t * e))) @ U.T for t in a]
    want = reference(s, mats, F)
    ctx.close(f.filter(s, method="exact"), want, "exact", 1e-10, scale=np.abs(s).max() * n * F)
    ctx.close(f.filter(s, method="exact"), want, "exact", 1e-8, scale=np.abs(want).max())
    ctx.note(f"{layout} F={F} S={S}")
    i = int(rng.integers(n))
    atom = np.sqrt(n) * np.stack([M[:, i] for M in mats], 1).squeeze()
    ctx.close(f.localize(i, method="exact"), atom, "localized", 1e-8, scale=np.sqrt(n))
