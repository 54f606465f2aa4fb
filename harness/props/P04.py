"""P04: differential operator, gradient, divergence, Dirichlet energy."""
import numpy as np
from core import Registry, dense
import gen
import ref

R = Registry()
R.rule = ("random non-negative graphs (directed, loops, isolated vertices, all scales and dtypes) x Laplacian types x "
          "signals; non-trivial if at least one edge; distinct by content hash")
R.assumptions = ["floating tolerance 1e-9 relative to the operator norm"]
LAPS = ["combinatorial", "normalized"]


def check(ctx, rng, g, W, lap, tol=1e-9):
    n, ne = len(W), ref.n_edges(W)
    sc = max(W.astype(float).sum(), 1e-300) if lap == "combinatorial" else 1.0
    D = g.D
    ctx.ok(D.shape == (n, ne), "D-shape", lambda: f"{D.shape} vs {(n, ne)}")
    s, t, w = g.get_edge_list()
    D = dense(D)
    d = ref.wdegree(W)
    isd = ref.directed(W)
    want = np.zeros((n, ne))
    for k in range(ne):
        if s[k] != t[k]:
            c = W[s[k], t[k]] / (2. if isd else 1.)
            want[s[k], k] = -np.sqrt(c if lap == "combinatorial" else c / d[s[k]])
            want[t[k], k] = np.sqrt(c if lap == "combinatorial" else c / d[t[k]])
    ctx.close(D, want, "incidence", tol, scale=np.sqrt(sc))
    L = ref.laplacian(W, lap)
    ctx.close(D @ D.T, L, "DDt=L", tol, scale=sc)
    ctx.close(D @ D.T, g.L, "DDt=G.L", tol, scale=sc)
    for sh in [(), (int(rng.integers(1, 4)),)]:
        x = gen.signal(rng, n, sh)
        xa = np.abs(x).sum() + 1e-300
        gx = g.grad(x if rng.uniform() < .7 else x.tolist())
        ctx.close(gx, want.T @ x, "grad", tol, scale=np.sqrt(sc) * xa)
        y = gen.signal(rng, ne, sh)
        ya = np.abs(y).sum() + 1e-300
        dy = g.div(y)
        ctx.close(dy, want @ y, "div", tol, scale=np.sqrt(sc) * ya)
        ctx.close(g.div(gx), L @ x, "div-grad", tol, scale=sc * xa)
        if sh == ():
            ctx.close(np.dot(gx, y), np.dot(x, dy), "adjoint", tol, scale=np.sqrt(sc) * xa * ya)
            E = g.dirichlet_energy(x)
            ctx.close(E, x @ L @ x, "energy-quadratic", tol, scale=sc * xa ** 2)
            ctx.close(E, np.sum(np.square(gx)), "energy-gradient", tol, scale=sc * xa ** 2)
            ctx.ok(E >= -tol * sc * xa ** 2, "energy-nonnegative", lambda: str(E))
            z = x.astype(float)
            if lap == "normalized":
                q = np.divide(1, np.sqrt(d), out=np.zeros(n), where=d > 0)
                z = z * q
            ds = .5 * (W * (z[None] - z[:, None]) ** 2).sum()
            ctx.close(E, ds, "energy-differences", tol, scale=sc * xa ** 2)
        else:
            ctx.close(g.dirichlet_energy(x), x.T @ L @ x, "energy-matrix", tol, scale=sc * xa ** 2)
    ctx.raises(lambda: g.grad(np.zeros(n + 1)), ValueError, "reject-grad")
    ctx.raises(lambda: g.div(np.zeros(ne + 1)), ValueError, "reject-div")
    ctx.raises(lambda: g.dirichlet_energy(np.zeros(n + 1)), ValueError, "reject-energy")


@R.family(quick=500, thorough=15000)
def random_graphs(ctx, rng):
    from pygsp import graphs
    W = gen.spread(rng, gen.adjacency(rng, scale=gen.scale(rng)))
    kind, M = gen.container(rng, W)
    lap = str(rng.choice(LAPS))
    ctx.describe(bool(W.any()), W=W, lap=lap, kind=kind)
    g = graphs.Graph(M, lap_type=lap)
    ctx.note(f"{lap} directed={ref.directed(W)} loops={bool(np.diag(W).any())}")
    if rng.uniform() < .5:
        g.compute_differential_operator()
    check(ctx, rng, g, W, lap)
    if rng.uniform() < .5:
        lap = str(rng.choice(LAPS))
        g.compute_laplacian(lap)
        check(ctx, rng, g, W, lap)
        g.compute_differential_operator()
        check(ctx, rng, g, W, lap)


@R.family(quick=250, thorough=5000)
def dtypes(ctx, rng):
    from pygsp import graphs
    dt = str(rng.choice(["bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32"]))
    W = gen.adjacency(rng, weighted="int", nmin=2)
    W = (W != 0) if dt == "bool" else (W * int(rng.choice([1, 1, 5]))).astype(dt)
    lap = str(rng.choice(LAPS))
    kind, M = gen.container(rng, W, str(rng.choice(["ndarray", "csr", "csc"])))
    ctx.describe(bool(W.any()), W=W, dtype=dt, lap=lap, kind=kind)
    ctx.note("dtype:" + dt)
    check(ctx, rng, graphs.Graph(M, lap_type=lap), W.astype(float), lap, 1e-6 if dt == "float32" else 1e-9)


@R.family(quick=60, thorough=1500)
def models(ctx, rng):
    from pygsp import graphs
    name = str(rng.choice(sorted(gen.MODEL_KW)))
    kw = gen.MODEL_KW[name](rng)
    lap = str(rng.choice(LAPS))
    ctx.describe(model=name, kw=kw, lap=lap)
    g = getattr(graphs, name)(lap_type=lap, **kw)
    check(ctx, rng, g, g.W.toarray().astype(float), lap)


@R.family(quick=4, thorough=400)
def large(ctx, rng):
    from pygsp import graphs
    d, W = gen.large(rng, 250, 700)
    lap = str(rng.choice(LAPS))
    ctx.describe(lap=lap, **d)
    check(ctx, rng, graphs.Graph(W, lap_type=lap), W.toarray(), lap, 1e-12)
    ctx.note(f"{d['kind']} {lap}")
