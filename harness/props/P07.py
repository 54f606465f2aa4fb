"""P07: largest-frequency value."""
import numpy as np
from core import CaseFail, Registry
import gen
import ref

R = Registry()
R.rule = ("random non-negative graphs of all structures (including empty, isolated vertices, one vertex, extremal "
          "graphs for the spectral bounds) and scales x Laplacian types x estimation methods; non-trivial if at "
          "least one edge; distinct by content hash")
R.assumptions = ["reference: LAPACK symmetric solver on an independently built Laplacian",
                 "Lanczos window: [0.97, 1.01] x true value (documented: +1 % on a 0.5 % tolerance solver); the solver "
                 "starts from a fresh random vector and may rarely settle on an interior eigenvalue, so an "
                 "underestimate is only believed when five independent repetitions of the history all show it"]


def persistent(ctx, body, attempts=5):
    """Run body; a Lanczos underestimate must reproduce in every repetition."""
    for k in range(attempts):
        try:
            return body()
        except CaseFail as e:
            if e.mech not in ("lanczos-low", "covers") or k == attempts - 1:
                raise
            ctx.note("lanczos-misconverged-once")


def check(ctx, method, val, true, W, lap):
    ctx.ok(np.isfinite(val), "finite", lambda: f"{method}: {val}")
    tol = 1e-9 * max(true, 1e-300) if lap == 'combinatorial' else 1e-12
    if method == "fourier":
        ctx.close(val, true, "exact", 1e-9, scale=max(np.abs(W).max(), 1e-300) if lap == "combinatorial" else 1)
    elif method == "bounds":
        ctx.ok(val >= true - tol, "bound-covers", lambda: f"{val} < {true}")
        d = ref.wdegree(W).max(initial=0)
        lim = 2 * d if lap == "combinatorial" else 2
        ctx.ok(val <= lim * (1 + 1e-9), "bound-not-worse-than-gershgorin", lambda: f"{val} > {lim}")
    else:
        ctx.ok(val <= 1.01 * true + tol, "lanczos-high", lambda: f"{val} for true {true}")
        ctx.ok(val >= .97 * true - tol, "lanczos-low", lambda: f"{val} for true {true}")


@R.family(quick=600, thorough=15000)
def estimates(ctx, rng):
    from pygsp import graphs
    W = gen.adjacency(rng, nmin=1, nmax=24, scale=gen.scale(rng))
    lap = str(rng.choice(["combinatorial", "normalized"]))
    true = float(ref.eig(ref.laplacian(W, lap))[0][-1])
    ctx.describe(bool(W.any()), W=W, lap=lap)
    def one(method):
        g = graphs.Graph(W, lap_type=lap)
        if method == "default":
            g.estimate_lmax()
        elif method == "fourier":
            g.compute_fourier_basis()
        elif method != "read":
            g.estimate_lmax(method)
        ctx.note(f"{method} {lap}")
        v = g.lmax
        check(ctx, method, v, true, W, lap)
        ctx.ok(g.lmax == v, "stable")

    for method in ("bounds", "lanczos", "default", "read", "fourier"):
        persistent(ctx, lambda: one(method))


@R.family(quick=300, thorough=8000)
def sequences(ctx, rng):
    """The value always answers the latest request."""
    _, W, d = gen.spectral_graph(rng, nmin=2, nmax=16)
    lap0 = d["lap"]
    ops = [str(rng.choice(["bounds", "lanczos", "fourier", "lap", "bad"])) for _ in range(int(rng.integers(2, 7)))]
    news = [str(rng.choice(["combinatorial", "normalized"])) for _ in ops]
    ctx.describe(bool(W.any()), ops=ops, news=news, **d)
    from pygsp import graphs
    trues = {l: float(ref.eig(ref.laplacian(W, l))[0][-1]) for l in ("combinatorial", "normalized")}

    def body():
        g = graphs.Graph(W, lap_type=lap0)
        lap, cur = lap0, None
        for op, new in zip(ops, news):
            if op == "fourier":
                g.compute_fourier_basis()
                cur = op
            elif op in ("bounds", "lanczos"):
                g.estimate_lmax(op)
                cur = op
            elif op == "lap":
                g.compute_laplacian(new)
                if new != lap:
                    cur = None
                lap = new
            elif op == "bad":
                v = g.lmax
                cur = cur or "any"
                for _ in range(2):
                    ctx.raises(lambda: g.estimate_lmax("magic"), ValueError, "reject-method")
                ctx.ok(g.lmax == v, "rejected-keeps-value", lambda: f"{g.lmax} vs {v}")
                continue
            v = g.lmax
            cur = cur or "any"
            if cur == "any":
                ctx.ok(v is not None and v >= trues[lap] * .97 - 1e-12 * max(1, np.abs(W).max()), "covers", lambda: f"{v} true {trues[lap]}")
            else:
                check(ctx, cur, v, trues[lap], W, lap)

    persistent(ctx, body)


@R.family(quick=200, thorough=4000)
def extremal(ctx, rng):
    """Families where one of the bounds is attained, where a wrong bound would show first."""
    from pygsp import graphs
    kind = str(rng.choice(["complete", "bipartite-complete", "ring", "star", "weighted-edge", "full-blocks", "regular-bip"]))
    w = gen.scale(rng) * float(rng.uniform(.5, 2))
    n = int(rng.integers(2, 20))
    W = np.zeros((n, n))
    if kind == "complete":
        W[:] = w
    elif kind == "bipartite-complete":
        m = int(rng.integers(1, n))
        W[:m, m:] = W[m:, :m] = w
    elif kind == "ring":
        for i in range(n):
            W[i, (i + 1) % n] = W[(i + 1) % n, i] = w
    elif kind == "star":
        W[0, 1:] = W[1:, 0] = w
    elif kind == "weighted-edge":
        W[0, 1] = W[1, 0] = w
    elif kind == "full-blocks":
        m = int(rng.integers(1, n + 1))
        W[:m, :m] = w
        W[m:, m:] = w * rng.uniform(.1, 1)
    else:
        m = n // 2
        for i in range(m):
            for j in range(3):
                W[i, m + (i + j) % m] = W[m + (i + j) % m, i] = w
    np.fill_diagonal(W, 0)
    if rng.uniform() < .2:
        W = np.triu(W)
    lap = str(rng.choice(["combinatorial", "normalized"]))
    true = float(ref.eig(ref.laplacian(W, lap))[0][-1])
    ctx.describe(bool(W.any()), W=W, lap=lap, kind=kind)
    def one(method):
        g = graphs.Graph(W, lap_type=lap)
        g.estimate_lmax(method)
        check(ctx, method, g.lmax, true, W, lap)
        ctx.note(f"{method} {kind}")

    for method in ("bounds", "lanczos"):
        persistent(ctx, lambda: one(method))


@R.family(quick=20, thorough=200)
def larger(ctx, rng):
    from pygsp import graphs
    W = gen.adjacency(rng, n=int(rng.integers(50, 200)), scale=gen.scale(rng))
    lap = str(rng.choice(["combinatorial", "normalized"]))
    ctx.describe(W=W, lap=lap)
    true = float(ref.eig(ref.laplacian(W, lap))[0][-1])
    def one(method):
        g = graphs.Graph(W, lap_type=lap)
        g.estimate_lmax(method)
        check(ctx, method, g.lmax, true, W, lap)

    for method in ("bounds", "lanczos"):
        persistent(ctx, lambda: one(method))


def sparse_graph(rng, n):
    """A large sparse graph with weights of one order of magnitude, as a CSR matrix."""
    import scipy.sparse as sp
    kind = str(rng.choice(["ring", "path", "random", "grid", "tree"]))
    if kind in ("ring", "path"):
        r, c = np.arange(n - 1), np.arange(1, n)
        if kind == "ring":
            r, c = np.r_[r, n - 1], np.r_[c, 0]
    elif kind == "random":
        r, c = rng.integers(0, n, (2, 4 * n))
    elif kind == "grid":
        a = int(n ** .5)
        n = a * a
        i = np.arange(n).reshape(a, a)
        r, c = np.r_[i[:, 1:].ravel(), i[1:].ravel()], np.r_[i[:, :-1].ravel(), i[:-1].ravel()]
    else:
        r = np.arange(1, n)
        c = (rng.random(n - 1) * r).astype(int)
    keep = r != c
    r, c = r[keep], c[keep]
    w = rng.uniform(.5, 1.5, r.size) if rng.uniform() < .5 else np.ones(r.size)
    W = sp.coo_matrix((w, (r, c)), (n, n)).tocsr()
    return kind, W.maximum(W.T).tocsr()


@R.family(quick=6, thorough=750)
def large(ctx, rng):
    """Thousands of vertices. The reference is a Ritz value, a rigorous lower bound of the largest frequency that is
    tight to 1e-4: an estimate below it does not cover the spectrum. Estimates are repeated on fresh starting
    vectors and must cover in the majority of the repetitions (on the unchanged code: 1900 of 1900)."""
    import scipy.sparse as sp
    import scipy.sparse.linalg as sl
    from pygsp import graphs
    n = int(rng.integers(200, 1000)) if rng.uniform() < .3 else int(rng.integers(1001, 5000))
    kind, W = sparse_graph(rng, n)
    scale = 10. ** int(rng.integers(-3, 4)) if rng.uniform() < .5 else 1.
    W = W * scale
    lap = str(rng.choice(["combinatorial", "normalized"]))
    ctx.describe(n=n, kind=kind, lap=lap, scale=scale, nnz=int(W.nnz), total=float(W.sum()))
    d = np.asarray(W.sum(1)).ravel()
    L = (sp.diags(d) - W).tocsr()
    if lap == "normalized":
        s = sp.diags(np.where(d > 0, 1 / np.sqrt(np.where(d > 0, d, 1)), 0))
        L = (s @ L @ s).tocsr()
    ritz = float(sl.eigsh(L, k=1, ncv=40, tol=1e-4, which="LA", return_eigenvectors=False)[0])
    g = graphs.Graph(W, lap_type=lap)
    g.estimate_lmax("bounds")
    ctx.ok(g.lmax >= ritz * (1 - 1e-9), "bound-covers", lambda: f"{g.lmax} < {ritz}")
    ctx.ok(g.lmax <= (2 * d.max() if lap == "combinatorial" else 2) * (1 + 1e-9), "bound-not-worse-than-gershgorin",
           lambda: f"{g.lmax}")
    under = over = 0
    vals = []
    for k in range(10):
        if k % 2:
            g.estimate_lmax()
        else:
            g = graphs.Graph(W, lap_type=lap)
        vals.append(float(g.lmax))
    under = sum(v < ritz * (1 - 1e-9) for v in vals)
    over = sum(v > ritz * 1.0105 for v in vals)
    ctx.ok(under < 5, "large-estimate-covers", lambda: f"{under} of 10 estimates below the frequency {ritz}: {vals}")
    ctx.ok(over < 5, "large-estimate-high", lambda: f"{over} of 10 estimates above 1.0105 x {ritz}: {vals}")
    ctx.note(f"{kind} {lap} {'n>1000' if W.shape[0] > 1000 else 'n<=1000'}")
