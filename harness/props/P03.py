"""P03: the Laplacian is the one defined by the adjacency matrix."""
import numpy as np
from scipy import sparse
from core import Registry, dense
import gen
import ref

R = Registry()
R.rule = ("random adjacency matrices of every structure, container, dtype and scale x Laplacian types; non-trivial if "
          "at least one edge; distinct by content hash")
R.assumptions = ["floating tolerance 1e-9 relative to the largest weight"]
LAPS = ["combinatorial", "normalized"]


def check(ctx, g, W, lap, tol=1e-9):
    n = len(W)
    Wf = W.astype(float)
    L = dense(g.L)
    sc = max(np.abs(Wf).sum(1).max(initial=0), np.abs(Wf).sum(0).max(initial=0)) if lap == "combinatorial" else 1
    if lap == "normalized" or sc == 0:
        sc = max(sc, 1)
    ctx.ok(sparse.issparse(g.L), "L-sparse")
    ctx.ok(g.lap_type == lap, "lap_type")
    ctx.close(L, ref.laplacian(W, lap), "definition", tol, scale=sc)
    ctx.close(L, L.T, "symmetric", tol, scale=sc)
    iso = ~((W != 0) | (W.T != 0)).any(1)
    ctx.ok((L[iso] == 0).all() and (L[:, iso] == 0).all(), "isolated-rows-zero")
    if (Wf >= 0).all() and n:
        d = ref.wdegree(W)
        k = np.ones(n) if lap == "combinatorial" else np.sqrt(d)
        r = np.abs(L @ k).max()
        ctx.ok(r <= tol * sc * n * max(k.max(), 1e-300), "kernel", lambda: f"residual {r}")
        e = np.linalg.eigvalsh(L)
        ctx.ok(e[0] >= -tol * sc * n, "psd", lambda: f"smallest eigenvalue {e[0]} scale {sc}")
        if lap == "normalized":
            ctx.ok(e[-1] <= 2 + max(10 * tol, 1e-9), "normalized-below-2", lambda: str(e[-1]))


@R.family(quick=700, thorough=20000)
def random_graphs(ctx, rng):
    from pygsp import graphs
    neg = rng.uniform() < .1
    W = gen.spread(rng, gen.adjacency(rng, negative=neg, scale=gen.scale(rng)))
    kind, M = gen.container(rng, W)
    lap = str(rng.choice(LAPS)) if not neg else "combinatorial"
    ctx.describe(bool(W.any()), W=W, lap=lap, kind=kind)
    ctx.note(f"{lap} directed={ref.directed(W)} loops={bool(np.diag(W).any())} isolated={bool((ref.wdegree(W) == 0).any())}")
    g = graphs.Graph(M, lap_type=lap)
    check(ctx, g, W, lap)
    # the reversed graph has the same Laplacian
    ctx.close(graphs.Graph(W.T, lap_type=lap).L, g.L, "reversal", scale=max(np.abs(dense(g.L)).max(), 1e-300))
    # switching back and forth
    for _ in range(int(rng.integers(0, 4))):
        lap = str(rng.choice(LAPS)) if not neg else "combinatorial"
        g.compute_laplacian(lap)
        check(ctx, g, W, lap)
    g.compute_laplacian()
    check(ctx, g, W, "combinatorial")
    ctx.same(g.W, W, "adjacency-untouched")


@R.family(quick=300, thorough=6000)
def dtypes(ctx, rng):
    from pygsp import graphs
    dt = str(rng.choice(["bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32"]))
    W = gen.adjacency(rng, weighted="int", nmin=2)
    if dt == "bool":
        W = W != 0
    else:
        W = (W * int(rng.choice([1, 1, 6]))).astype(dt)
    kind, M = gen.container(rng, W, str(rng.choice(["ndarray", "csr", "csc", "coo"])))
    lap = str(rng.choice(LAPS))
    ctx.describe(bool(W.any()), W=W, dtype=dt, lap=lap, kind=kind)
    ctx.note("dtype:" + dt)
    check(ctx, graphs.Graph(M, lap_type=lap), W, lap, 1e-5 if dt == "float32" else 1e-9)


@R.family(quick=60, thorough=1500)
def models(ctx, rng):
    from pygsp import graphs
    name = str(rng.choice(sorted(gen.MODEL_KW)))
    kw = gen.MODEL_KW[name](rng)
    lap = str(rng.choice(LAPS))
    ctx.describe(model=name, kw=kw, lap=lap)
    g = getattr(graphs, name)(lap_type=lap, **kw)
    check(ctx, g, g.W.toarray(), lap)


@R.family(quick=25, thorough=300)
def larger(ctx, rng):
    from pygsp import graphs
    n = int(rng.integers(40, 200))
    W = sparse.random(n, n, density=float(rng.choice([.01, .05, .2])), random_state=int(rng.integers(2**31))).toarray()
    if rng.uniform() < .5:
        W = W + W.T
    lap = str(rng.choice(LAPS))
    ctx.describe(W=W, lap=lap)
    check(ctx, graphs.Graph(W, lap_type=lap), W, lap)


@R.family(quick=30, thorough=300)
def unknown_type(ctx, rng):
    from pygsp import graphs
    W = gen.adjacency(rng, nmin=2)
    bad = str(rng.choice(["", "Combinatorial", "normalised", "randomwalk", "none"]))
    ctx.describe(W=W, bad=bad)
    ctx.raises(lambda: graphs.Graph(W, lap_type=bad), ValueError, "reject-constructor")
    g = graphs.Graph(W)
    ctx.raises(lambda: g.compute_laplacian(bad), ValueError, "reject-compute")
    ctx.raises(lambda: g.compute_laplacian(bad), ValueError, "reject-compute-again")


@R.family(quick=5, thorough=500)
def large(ctx, rng):
    from pygsp import graphs
    d, W = gen.large(rng, 300, 900)
    lap = str(rng.choice(LAPS))
    ctx.describe(lap=lap, **d)
    g = graphs.Graph(W, lap_type=lap)
    check(ctx, g, W.toarray(), lap, 1e-12)
    ctx.note(f"{d['kind']} {lap}")
    lap = LAPS[lap == LAPS[0]]
    g.compute_laplacian(lap)
    ctx.close(g.L, ref.laplacian(W.toarray(), lap), "definition", 1e-12, scale=max(1, abs(W).sum(0).max() + abs(W).sum(1).max()))
