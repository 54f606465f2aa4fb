"""P08: cached spectral data never goes stale over any history of operations."""
import os
import tempfile
import numpy as np
from core import CaseFail, Registry, dense
import gen
import ref

R = Registry()
R.rule = ("random operation histories (3-14 operations out of 22) on random graphs, monitored after every operation "
          "against a model rebuilt from the adjacency; non-trivial if at least one edge; distinct by graph + history")
R.assumptions = ["Lanczos estimates are only bounded (0.9..1.01 of the true value); an underestimate must reproduce in "
                 "five repetitions of the history"]
LAPS = ["combinatorial", "normalized"]


class Model:
    """What the graph must report, from its adjacency and Laplacian type only."""

    def __init__(self, W, lap):
        self.W, self.n = W, len(W)
        self.sc = {"combinatorial": max(np.abs(W).max(), 1e-300) * len(W), "normalized": float(len(W))}
        self.L = {l: ref.laplacian(W, l) for l in LAPS}
        self.e = {l: ref.eig(self.L[l])[0] for l in LAPS}
        self.D = {}
        for l in LAPS:
            D, edges = ref.incidence(W, l)
            self.D[l] = (D, edges)
        self.lap = lap
        self.k = None          # number of eigenvectors computed
        self.lmax = None       # None | fourier | lanczos | bounds


def check(ctx, g, m, signals, coords, what, rng):
    lap, n, sc = m.lap, m.n, m.sc[m.lap]
    ctx.ok(g.lap_type == lap, "lap_type", lambda: f"{g.lap_type} expected {lap} after {what}")
    ctx.same(g.W, m.W, "W", f"after {what}")
    ctx.close(g.L, m.L[lap], "L", 1e-9, scale=sc, msg=f"after {what}")
    ctx.ok(sorted(g.signals) == sorted(signals), "signal-names", lambda: f"{sorted(g.signals)} after {what}")
    for k in signals:
        ctx.same(g.signals[k], signals[k], "signals", f"after {what}")
    if coords is None:
        ctx.ok(not hasattr(g, "coords"), "no-coords", lambda: f"after {what}")
    else:
        ctx.same(g.coords, coords, "coords", f"after {what}")
    for part in ("lmax", "D", "basis", "coherence", "degrees"):
        if rng.uniform() < .6:
            continue
        if part == "lmax":
            v, true = g.lmax, m.e[lap][-1]
            kind = m.lmax or "estimate"
            tol = 1e-9 * sc
            ctx.ok(v is not None, "lmax-missing", lambda: f"after {what}")
            if kind == "fourier":
                ctx.close(v, true, "lmax-exact", 1e-9, scale=sc, msg=f"after {what}")
            elif kind == "bounds":
                ctx.ok(v >= true - tol, "lmax-bound", lambda: f"{v} vs {true} after {what}")
            else:
                ctx.ok(v >= .9 * true - tol, "lmax-low", lambda: f"{v} vs {true} after {what}")
                lim = 1.01 * true if kind == "lanczos" else max(1.01 * true, 2 * max(ref.wdegree(m.W).max(), 1))
                ctx.ok(v <= lim + tol, "lmax-high", lambda: f"{v} vs {true} after {what}")
            m.lmax = kind
        elif part == "D":
            D = g.D
            ctx.close(D @ D.T, m.L[lap], "D", 1e-9, scale=sc, msg=f"after {what}")
            ctx.close(np.abs(dense(D)), np.abs(m.D[lap][0][:, edge_order(g, m)]), "D-columns", 1e-9, scale=np.sqrt(sc), msg=f"after {what}")
        elif part == "basis":
            if m.k is None:
                m.k, m.lmax = n, "fourier"
            U, e = g.U, g.e
            ctx.ok(U.shape == (n, m.k) and e.shape == (m.k,), "basis-shape", lambda: f"{U.shape} expected {m.k} after {what}")
            ctx.close(e, m.e[lap][:m.k], "e", 1e-7, scale=sc, msg=f"after {what}")
            ctx.close(m.L[lap] @ U, U * e, "U", 1e-6, scale=sc, msg=f"after {what}")
            ctx.close(U.T @ U, np.eye(m.k), "U-orthonormal", 1e-6, msg=f"after {what}")
        elif part == "coherence":
            if m.k != n:
                if m.k is None:
                    m.k, m.lmax = n, "fourier"
                else:
                    continue
            ctx.close(g.coherence, np.abs(g.U).max(), "coherence", 1e-12, msg=f"after {what}")
        else:
            ctx.same(np.asarray(g.d, float), np.asarray(ref.degree(m.W), float), "d", f"after {what}")
            ctx.close(g.dw, ref.wdegree(m.W), "dw", 1e-12, scale=m.W.sum() + 1e-300)
            ctx.same(dense(g.A), m.W > 0, "A")
            ctx.ok(bool(g.is_directed()) == ref.directed(m.W) and bool(g.is_connected()) == ref.strongly_connected(m.W), "flags")


def edge_order(g, m):
    s, t, _ = g.get_edge_list()
    pos = {e: k for k, e in enumerate(m.D["combinatorial"][1])}
    return [pos[(int(a), int(b))] for a, b in zip(s, t)]


OPS = ["laplacian", "laplacian", "laplacian", "same-laplacian", "basis", "basis", "partial", "fewer", "lmax-lanczos",
       "lmax-bounds", "diff", "gft", "filter-exact", "filter-cheby", "grad", "plot", "export", "subgraph", "save",
       "bad-laplacian", "bad-lmax", "bad-signal", "bad-filter", "bad-coords", "bad-method", "bad-grad", "frame",
       "read", "set-signal", "layout", "energy", "solve", "bad-save"]


def step(ctx, g, m, op, rng, signals, coords):
    from pygsp import filters, learning
    n = m.n
    if op == "laplacian":
        new = LAPS[int(rng.integers(2))]
        g.compute_laplacian(new)
        if new != m.lap:
            m.lap, m.k, m.lmax = new, None, None
    elif op == "same-laplacian":
        g.compute_laplacian(m.lap)
    elif op == "basis":
        g.compute_fourier_basis()
        m.k, m.lmax = n, "fourier"
    elif op == "partial":
        e = m.e[m.lap]
        k = int(rng.integers(1, 4))
        if n < 8 or k >= n - 1 or (np.diff(e[:k + 2]) < .02 * e[-1]).any() or e[1] <= .02 * e[-1]:
            return "skip"
        g.compute_fourier_basis(k)
        m.k = max(k, m.k or 0)
    elif op == "fewer":
        if m.k is None:
            return "skip"
        g.compute_fourier_basis(int(rng.integers(1, m.k + 1)))
        if m.k == n:
            m.lmax = "fourier" if m.lmax == "fourier" else None
    elif op in ("lmax-lanczos", "lmax-bounds"):
        g.estimate_lmax(op[5:])
        m.lmax = op[5:]
    elif op == "diff":
        g.compute_differential_operator()
    elif op == "gft":
        if m.k not in (None, n):
            return "skip"
        if m.k is None:
            m.k, m.lmax = n, "fourier"
        s = rng.normal(size=n)
        ctx.close(g.igft(g.gft(s)), s, "gft-roundtrip", 1e-8, scale=np.abs(s).max() * n)
        ctx.close(np.abs(g.gft(s)) ** 2 @ g.e, s @ m.L[m.lap] @ s, "gft-energy", 1e-8, scale=m.sc[m.lap] * (s @ s))
    elif op in ("filter-exact", "frame"):
        if m.k not in (None, n):
            return "skip"
        if m.k is None:
            m.k, m.lmax = n, "fourier"
        q = m.sc[m.lap]
        f = filters.Filter(g, [lambda x: 1 / (1 + x / q), lambda x: np.exp(-x / q)])
        s = rng.normal(size=n)
        want = np.stack([ref.func_of(m.L[m.lap], k) @ s for k in (lambda x: 1 / (1 + x / q), lambda x: np.exp(-x / q))], -1)
        if op == "frame":
            if n > 1:
                F = f.compute_frame(method="exact")
                ctx.close((F @ s).reshape(2, n).T, want, "frame", 1e-8, scale=np.abs(s).max() * n)
        else:
            ctx.close(f.filter(s, method="exact"), want.squeeze(), "exact-filter", 1e-8, scale=np.abs(s).max() * n)
    elif op == "filter-cheby":
        if not m.W.any() or n == 1 or m.e[m.lap][-1] < 1e-9 * m.sc[m.lap]:
            return "skip"
        q = m.sc[m.lap]
        f = filters.Filter(g, [lambda x: 1 / (1 + x / q), lambda x: np.exp(-x / q)])
        s = rng.normal(size=n)
        want = np.stack([ref.func_of(m.L[m.lap], k) @ s for k in (lambda x: 1 / (1 + x / q), lambda x: np.exp(-x / q))], -1)
        # A filter which lives as long as the graph.
        if not hasattr(m, "bank"):
            m.q, m.bank = q, filters.Filter(g, [lambda x: 1 / (1 + x / q), lambda x: np.exp(-x / q)])
        kept = np.stack([ref.func_of(m.L[m.lap], k) @ s for k in (lambda x: 1 / (1 + x / m.q), lambda x: np.exp(-x / m.q))], -1)
        # (The other Laplacian may be larger than that the kernels were scaled for.)
        tol = 1e-5 if m.e[m.lap][-1] <= 3 * m.q else None
        if tol:
            ctx.close(m.bank.filter(s), kept, "cheby-filter", tol, scale=np.abs(s).max() * n)
        ctx.close(f.filter(s), want, "cheby-filter", 1e-5, scale=np.abs(s).max() * n)
        m.lmax = m.lmax or "estimate"
    elif op == "grad":
        s = rng.normal(size=n)
        ctx.close(g.div(g.grad(s)), m.L[m.lap] @ s, "div-grad", 1e-9, scale=m.sc[m.lap] * np.abs(s).max())
    elif op == "energy":
        s = rng.normal(size=n)
        ctx.close(g.dirichlet_energy(s), s @ m.L[m.lap] @ s, "energy", 1e-9, scale=m.sc[m.lap] * (s @ s))
    elif op == "plot":
        if coords is None or coords.shape[1] != 2 or ref.directed(m.W) and rng.uniform() < .8:
            return "skip"
        if n > 1 and m.W.any():
            g.plot(rng.uniform(size=n), backend="matplotlib")
            if m.lmax is not None:
                filters.Filter(g, lambda x: np.exp(-x / m.sc[m.lap])).plot(eigenvalues=False)
    elif op == "export":
        H = g.to_networkx()
        ctx.ok(H.number_of_nodes() == n, "export-nodes")
    elif op == "subgraph":
        idx = np.sort(rng.permutation(n)[:max(1, n // 2)])
        h = g.subgraph(idx)
        ctx.close(h.L, ref.laplacian(m.W[np.ix_(idx, idx)], m.lap), "subgraph-L", 1e-9, scale=m.sc[m.lap])
        h.set_signal(np.zeros(len(idx)), "sub")
        h.compute_fourier_basis()
        h.compute_laplacian(LAPS[int(rng.integers(2))])
    elif op == "save":
        with tempfile.TemporaryDirectory() as tmp:
            g.save(os.path.join(tmp, "g.graphml"), backend="networkx")
    elif op == "bad-save":
        with tempfile.TemporaryDirectory() as tmp:
            ctx.raises(lambda: g.save(os.path.join(tmp, "g.xyz"), backend="networkx"), ValueError, "reject-save")
            ctx.raises(lambda: g.save(os.path.join(tmp, "g.gml"), backend="nope"), ValueError, "reject-save")
    elif op == "set-signal":
        name = f"s{int(rng.integers(3))}"
        s = rng.normal(size=n)
        g.set_signal(s, name)
        signals[name] = s.copy()
    elif op == "layout":
        X = rng.normal(size=(n, 2))
        g.set_coordinates(X)
        return X
    elif op == "read":
        g.A, g.d, g.dw, g.get_edge_list(), repr(g), g.is_connected(), g.is_weighted(), g.has_loops(), g.is_directed()
    elif op == "solve":
        if not m.W.any() or ref.directed(m.W) or n < 3:
            return "skip"
        y, mask = rng.normal(size=n), rng.uniform(size=n) < .6
        y0 = y.copy()
        mask[0] = True
        if len(ref.components(m.W)) == 1:
            x = learning.regression_tikhonov(g, y, mask, tau=1.)
            want = np.linalg.solve(np.diag(mask.astype(float)) + m.L[m.lap], np.where(mask, y, 0))
            ctx.close(x, want, "tikhonov", 1e-3, scale=max(np.abs(want).max(), np.abs(y).max()) * n)
        ctx.same(y, y0, "solver-input")
    else:
        snap = spectral_snapshot(g, m)
        if op == "bad-laplacian":
            bad = ["", "Normalized", "random"][int(rng.integers(3))]
            ctx.raises(lambda: g.compute_laplacian(bad), ValueError, "reject-laplacian")
        elif op == "bad-lmax":
            for _ in range(int(rng.integers(1, 3))):
                ctx.raises(lambda: g.estimate_lmax("power"), ValueError, "reject-lmax")
        elif op == "bad-signal":
            ctx.raises(lambda: g.set_signal(np.zeros(n + 1), "bad"), ValueError, "reject-signal")
        elif op == "bad-filter":
            f = filters.Filter(g, lambda x: x)
            ctx.raises(lambda: f.filter(np.zeros(n + 1)), ValueError, "reject-filter")
        elif op == "bad-method":
            f = filters.Filter(g, lambda x: x)
            ctx.raises(lambda: f.filter(np.zeros(n), method="magic"), ValueError, "reject-method")
        elif op == "bad-coords":
            bad = "nowhere" if rng.uniform() < .5 else np.zeros((n + 1, 2))
            ctx.raises(lambda: g.set_coordinates(bad), ValueError, "reject-coords")
        elif op == "bad-grad":
            ctx.raises(lambda: g.grad(np.zeros(n + 2)), ValueError, "reject-grad")
            ctx.raises(lambda: g.gft(np.zeros(n + 2)), ValueError, "reject-gft")
        after = spectral_snapshot(g, m)
        for k in snap:
            ctx.same(after[k], snap[k], "failed-call-keeps-" + k, f"{op}")


def spectral_snapshot(g, m):
    """Values already known to be cached (reading them computes nothing new)."""
    out = {"L": dense(g.L).copy(), "W": dense(g.W).copy()}
    if m.k is not None:
        out["e"], out["U"] = g.e.copy(), g.U.copy()
    if m.lmax is not None:
        out["lmax"] = np.asarray(g.lmax)
    return out


@R.family(quick=600, thorough=20000, timeout=200)
def history(ctx, rng):
    from pygsp import graphs
    W = gen.adjacency(rng, nmin=2, nmax=12, scale=float(rng.choice([1, 1, 1, 50., 1e-2])))
    lap = LAPS[int(rng.integers(2))]
    ops = [OPS[i] for i in rng.integers(0, len(OPS), int(rng.integers(3, 15)))]
    seed = int(rng.integers(2 ** 31))
    ctx.describe(bool(W.any()), W=W, lap=lap, ops=ops, seed=seed)
    run(ctx, W, lap, ops, seed)


@R.family(quick=250, thorough=8000, timeout=200)
def cache_history(ctx, rng):
    """Only operations that create or invalidate caches, longer histories."""
    W = gen.adjacency(rng, nmin=3, nmax=14, directed=rng.uniform() < .3)
    lap = LAPS[int(rng.integers(2))]
    core = ["laplacian", "same-laplacian", "basis", "partial", "fewer", "lmax-lanczos", "lmax-bounds", "diff",
            "filter-cheby", "gft", "grad", "bad-laplacian", "bad-lmax"]
    ops = [core[i] for i in rng.integers(0, len(core), int(rng.integers(8, 25)))]
    seed = int(rng.integers(2 ** 31))
    ctx.describe(bool(W.any()), W=W, lap=lap, ops=ops, seed=seed)
    run(ctx, W, lap, ops, seed)


def run(ctx, W, lap, ops, seed):
    for attempt in range(5):
        try:
            return run_once(ctx, W, lap, ops, np.random.default_rng(seed))
        except CaseFail as ex:
            if ex.mech not in ("lmax-low", "cheby-filter") or attempt == 4:
                raise
            ctx.note("lanczos-misconverged-once")


def run_once(ctx, W, lap, ops, rng):
    from pygsp import graphs
    coords = rng.normal(size=(len(W), 2)) if rng.uniform() < .5 else None
    g = graphs.Graph(W.copy(), lap_type=lap, coords=None if coords is None else coords.copy())
    m = Model(W, lap)
    signals = {}
    prev = []
    for op in ops:
        prev.append(op)
        res = step(ctx, g, m, op, rng, signals, coords)
        if isinstance(res, str):
            continue
        if res is not None:
            coords = res.copy()
        ctx.note("op:" + op)
        if len(prev) > 1:
            ctx.note("transition-observed")
        check(ctx, g, m, signals, coords, "->".join(prev[-6:]), rng)
    # at the end read everything
    class All:
        def uniform(self):
            return 1.
    check(ctx, g, m, signals, coords, "->".join(prev[-6:]) + "->end", All())
