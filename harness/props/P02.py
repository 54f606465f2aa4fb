"""P02: connectivity, connected components, subgraphs."""
import numpy as np
from scipy import sparse
from core import Registry
import gen
import ref

R = Registry()
R.rule = ("random graphs (16 structures, directed, loops, negative weights) and vertex selections; non-trivial "
          "if there is at least one edge; distinct by content hash")
R.assumptions = ["reachability reference: breadth-first search on the dense adjacency"]


@R.family(quick=900, thorough=25000)
def connected(ctx, rng):
    from pygsp import graphs
    W = gen.adjacency(rng, nmax=14, negative=rng.uniform() < .15)
    W = gen.spread(rng, W)
    kind, M = gen.container(rng, W, str(rng.choice(["ndarray", "csr", "csr_unsorted", "csr_zeros", "csc", "lil"])))
    ctx.describe(bool(W.any()), W=W, kind=kind)
    g = graphs.Graph(M)
    want = ref.strongly_connected(W)
    ctx.note(f"connected={want} directed={ref.directed(W)}")
    order = rng.uniform() < .5
    if order:
        g.A, g.d
    ctx.ok(bool(g.is_connected()) == want, "is_connected", lambda: f"{g.is_connected()} expected {want}")
    ctx.ok(bool(g.is_connected()) == want, "is_connected-cached")


@R.family(quick=250, thorough=6000)
def near_strong(ctx, rng):
    """Directed cycles with chords, possibly one arc broken: weakly but maybe not strongly connected."""
    from pygsp import graphs
    n = int(rng.integers(2, 30))
    p = rng.permutation(n)
    W = np.zeros((n, n))
    for a, b in zip(p, np.roll(p, -1)):
        W[a, b] = rng.uniform(.1, 2)
    for _ in range(int(rng.integers(0, n))):
        i, j = rng.integers(0, n, 2)
        if i != j:
            W[i, j] = rng.uniform(.1, 2)
    if rng.uniform() < .5:
        v = int(rng.integers(n))
        if rng.uniform() < .5:
            W[v, :] = 0
        else:
            W[:, v] = 0
    ctx.describe(W=W)
    want = ref.strongly_connected(W)
    ctx.note(f"strong={want}")
    ctx.ok(bool(graphs.Graph(W).is_connected()) == want, "strongly-connected", lambda: f"expected {want}")


@R.family(quick=500, thorough=15000)
def components(ctx, rng):
    from pygsp import graphs
    W = gen.adjacency(rng, nmax=18, directed=False, negative=rng.uniform() < .2,
                      kind=str(rng.choice(gen.STRUCTS + ["components", "isolated", "cycle_union"])))
    W = gen.spread(rng, W)
    n = len(W)
    lap = str(rng.choice(["combinatorial", "normalized"])) if (W >= 0).all() else "combinatorial"
    X = rng.normal(size=(n, 2))
    s = rng.normal(size=(n, 2))
    ctx.describe(bool(W.any()), W=W, lap=lap)
    g = graphs.Graph(W, lap_type=lap, coords=X, plotting=dict(vertex_size=7))
    g.set_signal(s, "s")
    comps = g.extract_components()
    want = ref.components(W)
    ctx.note(f"components={min(len(want), 5)}")
    got = [list(map(int, c.info["orig_idx"])) for c in comps]
    ctx.ok(sorted(map(sorted, got)) == sorted(want), "component-sets", lambda: f"{got} expected {want}")
    for c, idx in zip(comps, got):
        ctx.same(c.W, W[np.ix_(idx, idx)], "component-adjacency")
        ctx.same(c.coords, X[idx], "component-coords")
        ctx.same(c.signals["s"], s[idx], "component-signals")
        ctx.ok(c.lap_type == lap, "component-lap")
        ctx.ok(bool(c.is_connected()), "component-connected")
    ctx.ok((len(comps) == 1) == bool(g.is_connected()), "connected-iff-one-component",
           lambda: f"{len(comps)} components, is_connected={g.is_connected()}")
    ctx.same(g.W, W, "graph-unchanged")


@R.family(quick=500, thorough=15000)
def subgraph(ctx, rng):
    from pygsp import graphs
    W = gen.spread(rng, gen.adjacency(rng, nmin=2, nmax=16))
    n = len(W)
    lap = str(rng.choice(["combinatorial", "normalized"]))
    has_coords = rng.uniform() < .6
    X = rng.normal(size=(n, int(rng.choice([2, 3]))))
    g = graphs.Graph(W, lap_type=lap, coords=X if has_coords else None, plotting=dict(edge_color="g", extra=3))
    sigs = {}
    for k in range(int(rng.integers(0, 3))):
        sigs[f"s{k}"] = gen.signal(rng, n, [(), (2,), (2, 2)][int(rng.integers(3))])
        g.set_signal(sigs[f"s{k}"], f"s{k}")
    m = int(rng.integers(1, n + 1))
    idx = rng.permutation(n)[:m]
    how = str(rng.choice(["list", "array", "sorted", "bool", "boollist", "negative", "range"]))
    sel = idx
    if how == "list":
        sel = idx.tolist()
    elif how == "sorted":
        idx = np.sort(idx)
        sel = idx.tolist()
    elif how in ("bool", "boollist"):
        idx = np.sort(idx)
        sel = np.zeros(n, bool)
        sel[idx] = True
        if how == "boollist":
            sel = sel.tolist()
    elif how == "negative":
        sel = (idx - n).tolist()
    elif how == "range":
        lo = int(rng.integers(0, n))
        idx = np.arange(lo, n)
        sel = range(lo, n)
        sel = list(sel)
    ctx.describe(bool(W.any()), W=W, sel=sel, how=how, lap=lap)
    if rng.uniform() < .3:
        g.compute_fourier_basis()
        g.compute_laplacian("combinatorial")
        lap = "combinatorial"
    h = g.subgraph(sel)
    ctx.note("select:" + how)
    Ws = W[np.ix_(idx, idx)]
    ctx.same(h.W, Ws, "sub-adjacency")
    ctx.ok(h.n_vertices == len(idx) and h.n_edges == ref.n_edges(Ws), "sub-counts")
    ctx.ok(bool(h.is_directed()) == ref.directed(Ws), "sub-directed")
    ctx.ok(h.lap_type == lap, "sub-lap")
    ctx.close(h.L, ref.laplacian(Ws, lap), "sub-laplacian", scale=np.abs(Ws).max() + 1)
    ctx.ok(hasattr(h, "coords") == has_coords, "sub-has-coords")
    if has_coords:
        ctx.same(h.coords, X[idx], "sub-coords")
    ctx.ok(h.plotting == g.plotting, "sub-plotting")
    ctx.ok(h.plotting is not g.plotting, "sub-plotting-copied")
    ctx.ok(list(h.signals) == list(sigs), "sub-signal-names")
    for k in sigs:
        ctx.same(h.signals[k], sigs[k][idx], "sub-signals")
    ctx.same(g.W, W, "graph-unchanged")


@R.family(quick=60, thorough=600)
def larger(ctx, rng):
    from pygsp import graphs
    n = int(rng.integers(60, 300))
    W = sparse.random(n, n, density=float(rng.choice([.5, 1, 2])) / n, random_state=int(rng.integers(2**31))).toarray()
    if rng.uniform() < .6:
        W = W + W.T
        g = graphs.Graph(W)
        want = ref.components(W)
        got = sorted(sorted(map(int, c.info["orig_idx"])) for c in g.extract_components())
        ctx.ok(got == sorted(want), "component-sets")
    g = graphs.Graph(W)
    ctx.describe(W=W)
    ctx.ok(bool(g.is_connected()) == ref.strongly_connected(W), "is_connected")
    idx = rng.permutation(n)[:n // 2]
    ctx.same(g.subgraph(idx).W, W[np.ix_(idx, idx)], "sub-adjacency")


@R.family(quick=40, thorough=400)
def directed_refused(ctx, rng):
    from pygsp import graphs
    W = gen.adjacency(rng, nmin=2, directed=True)
    if not ref.directed(W):
        ctx.skip()
    ctx.describe(W=W)
    ctx.raises(lambda: graphs.Graph(W).extract_components(), NotImplementedError, "directed-components")


@R.family(quick=6, thorough=750)
def large(ctx, rng):
    """Thousands of vertices, hubs, hundreds of components."""
    from scipy.sparse import csgraph
    from pygsp import graphs
    d, W = gen.large(rng, 300, 3000)
    n = W.shape[0]
    ctx.describe(**d)
    g = graphs.Graph(W)
    strong = csgraph.connected_components(W, connection="strong")[0] == 1
    if (W != W.T).nnz == 0:
        _, label = csgraph.connected_components(W, directed=False)
        comps = graphs.Graph(W, coords=np.arange(2 * n).reshape(n, 2)).extract_components()
        ctx.same(len(comps), label.max() + 1, "number-of-components")
        got = np.full(n, -1)
        for k, c in enumerate(comps):
            idx = np.asarray(c.info["orig_idx"], int)
            ctx.ok((got[idx] == -1).all() and (label[idx] == label[idx[0]]).all(), "component-sets", lambda: f"{k}: {idx}")
            got[idx] = k
            if k < 20 or len(idx) > 100:
                ctx.ok((c.W != W[idx][:, idx]).nnz == 0, "component-adjacency")
                ctx.same(c.coords[:, 0], 2 * idx, "component-coords")
        ctx.ok((got >= 0).all(), "every-vertex-in-a-component")
        ctx.note(f"components={'1' if len(comps) == 1 else '<100' if len(comps) < 100 else '>=100'}")
    ctx.ok(bool(g.is_connected()) == strong, "is_connected", lambda: f"expected {strong}")
    idx = rng.permutation(n)[:int(rng.integers(1, n))]
    h = g.subgraph(idx if rng.uniform() < .5 else idx.tolist())
    ctx.ok((h.W != W[idx][:, idx]).nnz == 0, "sub-adjacency")
    # One arc less.
    C = W.tocoo()
    if strong and C.nnz:
        hit = int(rng.integers(C.nnz))
        cut = sparse.coo_matrix((np.delete(C.data, hit), (np.delete(C.row, hit), np.delete(C.col, hit))), (n, n))
        ctx.ok(bool(graphs.Graph(cut).is_connected()) == (csgraph.connected_components(cut, connection="strong")[0] == 1),
               "one-arc-less")
