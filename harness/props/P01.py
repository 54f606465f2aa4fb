"""P01: a graph faithfully represents the adjacency matrix it was built from."""
import numpy as np
from scipy import sparse
from core import Registry, dense
import gen
import ref

R = Registry()
R.rule = ("random square matrices (17 containers x 11 dtypes x 16 structures, directed/loops/negative/"
          "stored zeros); non-trivial if the matrix has at least one edge; distinct by content hash")
R.assumptions = ["numpy/scipy matrix containers behave as documented"]

DTYPES = ["bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64",
          "float32", "float64"]


def check_graph(ctx, g, W, msg=""):
    n = len(W)
    isd = ref.directed(W)
    ctx.ok(sparse.issparse(g.W) and g.W.format == "csr", "W-csr", lambda: repr(g.W))
    ctx.same(g.W, W, "W-values", msg)
    ctx.ok(g.W.nnz == np.count_nonzero(W) and (g.W.data != 0).all(), "no-stored-zeros",
           lambda: f"nnz={g.W.nnz} expected {np.count_nonzero(W)} {msg}")
    ctx.ok(g.n_vertices == n == g.N, "n_vertices", lambda: f"{g.n_vertices} {g.N} vs {n}")
    ne = ref.n_edges(W)
    ctx.ok(g.n_edges == ne == g.Ne, "n_edges", lambda: f"{g.n_edges} {g.Ne} vs {ne} {msg}")
    ctx.ok(bool(g.is_directed()) == isd, "is_directed", lambda: f"{g.is_directed()} vs {isd}")
    ctx.ok(bool(g.has_loops()) == bool(np.diag(W).any()), "has_loops", lambda: msg)
    wtd = bool(((W != 0) & (W != 1)).any())
    ctx.ok(bool(g.is_weighted()) == wtd, "is_weighted", lambda: f"{g.is_weighted()} vs {wtd}")
    ctx.same(dense(g.A).astype(bool), W > 0, "A")
    ctx.ok(g.A.dtype == bool, "A-bool", lambda: str(g.A.dtype))
    ctx.same(np.asarray(g.d, float), np.asarray(ref.degree(W), float), "d")
    ctx.close(np.asarray(g.dw), ref.wdegree(W), "dw", 1e-12 if W.dtype != np.float32 else 1e-5,
              scale=np.abs(W.astype(float)).sum() + 1e-300)
    s, t, w = g.get_edge_list()
    ctx.ok(len(s) == len(t) == len(w) == ne, "edge-list-length", lambda: f"{len(s)} {len(t)} {len(w)} vs {ne}")
    E = np.zeros((n, n))
    cnt = np.zeros((n, n), int)
    np.add.at(cnt, (s, t), 1)
    ctx.ok(cnt.max(initial=0) <= 1, "edge-listed-once", lambda: f"{list(s)} {list(t)}")
    E[s, t] = w
    want = W.astype(float) if isd else np.triu(W).astype(float)
    ctx.same(E, want, "edge-list-values")


@R.family(quick=700, thorough=20000)
def build(ctx, rng):
    neg = rng.uniform() < .15
    W = gen.adjacency(rng, nmax=16, negative=neg)
    dt = str(rng.choice(DTYPES + ["float64"] * 6))
    kind = dt
    if dt == "bool":
        W = W != 0
    elif dt.startswith("u"):
        W = np.ceil(np.abs(W) * rng.choice([1, 1, 40])).astype(dt)
    elif dt.startswith("i"):
        W = (np.sign(W) * np.ceil(np.abs(W) * rng.choice([1, 1, 20]))).astype(dt)
    else:
        W = gen.spread(rng, W * gen.scale(rng), decades=10 if dt == "float32" else float(rng.choice([3, 25, 120]))).astype(dt)
    kind, M = gen.container(rng, W)
    ctx.describe(bool(W.any()), W=W, dtype=dt, container=kind)
    from pygsp import graphs
    lap = str(rng.choice(["combinatorial", "normalized"])) if not neg else "combinatorial"
    g = graphs.Graph(M, lap_type=lap)
    ctx.note("directed" if ref.directed(W) else "undirected")
    ctx.note("container:" + kind)
    ctx.note("dtype:" + dt)
    check_graph(ctx, g, W, f"{kind} {dt}")
    ctx.ok(g.lap_type == lap, "lap_type")
    # asked twice, after the caches are filled, and after other reads
    g.is_connected()
    check_graph(ctx, g, W, "second read")
    ctx.ok(f"n_vertices={len(W)}" in repr(g) and f"n_edges={ref.n_edges(W)}" in repr(g), "repr", lambda: repr(g))


@R.family(quick=40, thorough=800)
def larger(ctx, rng):
    from pygsp import graphs
    n = int(rng.integers(50, 400))
    W = sparse.random(n, n, density=float(rng.choice([.005, .02, .1])), random_state=int(rng.integers(2**31)))
    if rng.uniform() < .6:
        W = W + W.T
    if rng.uniform() < .5:
        W.setdiag(0)
    D = W.toarray()
    fmt = str(rng.choice(["csr", "csc", "coo", "lil", "dok"]))
    ctx.describe(W=D, fmt=fmt)
    check_graph(ctx, graphs.Graph(W.asformat(fmt)), D)


@R.family(quick=60, thorough=1500)
def models(ctx, rng):
    """Graph models expose a consistent adjacency too."""
    name, kw, g = gen.model(rng)
    ctx.describe(model=name, kw=kw)
    check_graph(ctx, g, g.W.toarray(), name)


@R.family(quick=200, thorough=5000)
def almost_symmetric(ctx, rng):
    """Directedness is exact: a one-ulp or one-entry asymmetry makes the graph directed."""
    from pygsp import graphs
    W = gen.adjacency(rng, nmin=2, directed=False, weighted="float")
    n = len(W)
    how = str(rng.choice(["none", "ulp", "drop", "extra"]))
    i, j = rng.choice(n, 2, replace=False)
    if how == "ulp" and W[i, j]:
        W[i, j] = np.nextafter(W[i, j], np.inf)
    elif how == "drop":
        W[i, j] = 0
    elif how == "extra":
        W[i, j] += 1e-9
    ctx.describe(bool(W.any()), W=W, how=how)
    kind, M = gen.container(rng, W, str(rng.choice(["ndarray", "csr", "csr_zeros", "csr_unsorted", "coo"])))
    check_graph(ctx, graphs.Graph(M), W, how)


@R.family(quick=150, thorough=3000)
def attachments(ctx, rng):
    from pygsp import graphs
    W = gen.adjacency(rng, nmin=2)
    n = len(W)
    d = int(rng.choice([2, 3]))
    X = rng.normal(size=(n, d))
    pl = dict(vertex_size=int(rng.integers(1, 300)), edge_color="r", custom=1)
    ctx.describe(W=W, X=X, pl=pl)
    g = graphs.Graph(W, coords=X if rng.uniform() < .5 else X.tolist(), plotting=pl)
    h = graphs.Graph(W)
    ctx.same(g.coords, X, "coords")
    for k in h.plotting:
        want = pl.get(k, h.plotting[k])
        ctx.ok(g.plotting[k] == want, "plotting", lambda: f"{k}: {g.plotting[k]} vs {want}")
    ctx.ok(g.plotting["custom"] == 1 and "custom" not in h.plotting, "plotting-isolated")
    h.plotting["vertex_size"] = -5
    h.signals["foo"] = 1
    k = graphs.Graph(W)
    ctx.ok(k.plotting["vertex_size"] != -5 and not k.signals, "state-not-shared")
    for name in ("a", "b"):
        sh = [(), (2,), (2, 3)][int(rng.integers(3))]
        s = gen.signal(rng, n, sh)
        g.set_signal(s if rng.uniform() < .5 else s.tolist(), name)
        ctx.same(g.signals[name], s, "set_signal")
    g.set_signal(np.arange(n), "a")
    ctx.same(g.signals["a"], np.arange(n), "set_signal-replaces")
    ctx.ok(list(g.signals) == ["a", "b"], "signal-names")


@R.family(quick=200, thorough=4000)
def rejected(ctx, rng):
    from pygsp import graphs
    W = gen.adjacency(rng, nmin=2, nmax=8, weighted="float")
    n = len(W)
    how = str(rng.choice(["nonsquare", "vector", "cube", "nan", "inf", "-inf", "both-inf", "signal", "scalar", "setW"]))
    sp = rng.uniform() < .5
    i, j = rng.integers(0, n, 2)
    sym = rng.uniform() < .5
    ctx.describe(W=W, how=how, sparse=bool(sp), ij=(int(i), int(j)))
    wrap = sparse.csr_matrix if sp else np.array
    if how == "nonsquare":
        M = wrap(W[:, :-1] if rng.uniform() < .5 else W[:-1])
        ctx.raises(lambda: graphs.Graph(M), ValueError, "reject-" + how)
    elif how == "vector":
        ctx.raises(lambda: graphs.Graph(W[0]), ValueError, "reject-" + how)
    elif how == "scalar":
        ctx.raises(lambda: graphs.Graph(3), ValueError, "reject-" + how)
    elif how == "cube":
        ctx.raises(lambda: graphs.Graph(np.zeros((n, n, n))), ValueError, "reject-" + how)
    elif how in ("nan", "inf", "-inf"):
        W[i, j] = float(how)
        if sym:
            W[j, i] = W[i, j]
        ctx.raises(lambda: graphs.Graph(wrap(W)), ValueError, "reject-" + how)
    elif how == "both-inf":
        W[0, 1], W[1, 0] = np.inf, -np.inf
        ctx.raises(lambda: graphs.Graph(wrap(W)), ValueError, "reject-" + how)
    elif how == "setW":
        g = graphs.Graph(W)
        def setw():
            g.W = np.eye(n)
        ctx.raises(setw, AttributeError, "reject-setW")
        ctx.same(g.W, W, "W-after-reject")
    else:
        g = graphs.Graph(W)
        bad = int(rng.choice([n - 1, n + 1, 1 if n > 2 else n + 2, 2 * n]))
        ctx.raises(lambda: g.set_signal(np.zeros(bad), "x"), ValueError, "reject-signal")
        ctx.raises(lambda: g.set_signal(np.zeros((bad, n)), "x"), ValueError, "reject-signal")
        ctx.ok("x" not in g.signals, "signals-after-reject")


@R.family(quick=6, thorough=750)
def large(ctx, rng):
    """Hundreds to thousands of vertices, hubs of more than 255 neighbours."""
    from pygsp import graphs
    d, W = gen.large(rng, 300, 1500)
    fmt = str(rng.choice(["csr", "csc", "coo", "lil", "array"]))
    dt = str(rng.choice(["float64", "float64", "bool", "int8", "uint8", "int64"]))
    if dt != "float64":
        W.data = np.ceil(W.data)
        W = W.astype(dt)
    ctx.describe(fmt=fmt, dtype=dt, **d)
    M = W.toarray() if fmt == "array" else W.asformat(fmt)
    check_graph(ctx, graphs.Graph(M), W.toarray(), f"{fmt} {dt}")
    ctx.note(d["kind"])
