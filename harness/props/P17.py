"""P17: interchange with NetworkX and graph-tool is lossless."""
import numpy as np
from core import Registry
import gen
import ref

R = Registry()
R.rule = ("random graphs (isolated vertices, loops, directed, every dtype) with random 1-D and 2-D signals exported and "
          "imported back; random external (multi)graphs with shuffled hashable node names, missing weights and "
          "attributes; distinct by content hash")
R.assumptions = ["signals are 1-D, or 2-D with at least two columns; 1-D signals are not named like the dimensions of a broken "
                 "signal (name_0 together with name_1)",
                 "attributes of external graphs are real scalars",
                 "graph-tool backend: the system's graph-tool installation, imported for real"]
TECHNIQUE = "runtime monitoring: round-trip and import workloads on the real backends, dense model of edges and signals as oracle"

NAMES = ["s", "x_min", "x_max", "temp", "tmp_1", "a", "a_b", "a_0x", "b_", "_0", "value_of_3", "z9", "c_01"]
DTYPES = ["float64", "float64", "float32", "int64", "int32", "int16", "int8", "uint8", "uint32", "bool"]


def weights(rng, **kw):
    W = gen.adjacency(rng, nmin=1, nmax=12, negative=rng.uniform() < .2, scale=gen.scale(rng) if rng.uniform() < .3 else None, **kw)
    W = gen.spread(rng, W, decades=10)
    dt = str(rng.choice(DTYPES))
    if dt.startswith(("int", "uint", "bool")):
        W = np.ceil(np.minimum(np.abs(W), 50))
        if dt.startswith("int") and rng.uniform() < .2:
            W = -W
    return W.astype(dt), dt


def signals(rng, n, wide=True):
    out = {}
    for name in rng.permutation(NAMES)[:int(rng.integers(0, 5))]:
        dt = str(rng.choice(DTYPES))
        nd = rng.uniform() < .4
        shape = (n, int(rng.choice([2, 3, 9, 11, 13]))) if nd else (n,)
        v = rng.normal(size=shape) * 10
        if dt.startswith("int"):
            v = np.rint(v)
        elif dt.startswith("uint") or dt == "bool":
            v = np.abs(np.rint(v))
        v = v.astype(dt)
        if dt == "uint32" and rng.uniform() < .5:
            v = v + np.uint32(3_000_000_000)
        if v.dtype.kind == "f" and rng.uniform() < .2:
            v[rng.integers(n)] = np.nan
        out[str(name)] = v
    return out


def build(ctx, rng, signals_=True):
    from pygsp import graphs
    W, dt = weights(rng)
    kind, obj = gen.container(rng, W)
    g = graphs.Graph(obj)
    W = g.W.toarray()
    sig = signals(rng, len(W)) if signals_ else {}
    for k, v in sig.items():
        g.set_signal(v.copy(), k)
    ctx.describe(bool(W.any()), W=W, dtype=dt, signals=sig)
    ctx.note("dtype:" + dt)
    return g, W, sig


def edges_of(W):
    d = ref.directed(W)
    n = len(W)
    return {(i, j): W[i, j] for i in range(n) for j in (range(n) if d else range(i, n)) if W[i, j] != 0}


def compare_signals(ctx, got, sig, mech="signals"):
    ctx.same(sorted(map(str, got)), sorted(sig), mech + "-names")
    for k, v in sig.items():
        ctx.close(np.asarray(got[k]).astype(float), v.astype(float), mech, 0, scale=1, msg=k)


def unchanged(ctx, g, W, sig):
    ctx.same(g.W, W, "source-adjacency-untouched")
    ctx.same(sorted(g.signals), sorted(sig), "source-signals-untouched")
    for k, v in sig.items():
        ctx.same(g.signals[k], v, "source-signals-untouched")


@R.family(quick=500, thorough=12000)
def networkx_roundtrip(ctx, rng):
    import networkx as nx
    from pygsp import graphs
    g, W, sig = build(ctx, rng)
    n = len(W)
    E = edges_of(W)
    X = g.to_networkx()
    unchanged(ctx, g, W, sig)
    ctx.ok(type(X) is (nx.DiGraph if ref.directed(W) else nx.Graph), "export-type")
    ctx.ok(list(X.nodes()) == list(range(n)), "export-vertices", f"{list(X.nodes())}")
    got = {}
    for i, j, d in X.edges(data=True):
        ctx.ok(set(d) == {"weight"}, "export-edge-attributes")
        got[(i, j) if ref.directed(W) else (min(i, j), max(i, j))] = d["weight"]
    ctx.ok(set(got) == set(E), "export-edges", f"{sorted(got)} vs {sorted(E)}")
    ctx.ok(all(float(got[k]) == float(E[k]) for k in E), "export-weights")
    flat = {}
    for k, v in sig.items():
        if v.ndim == 2:
            for c in range(v.shape[1]):
                flat[f"{k}_{c}"] = v[:, c]
        else:
            flat[k] = v
    for i in range(n):
        at = X.nodes[i]
        ctx.ok(set(at) == set(flat), "export-signal-names", f"{sorted(at)} {sorted(flat)}")
        for k, v in flat.items():
            ctx.ok(float(at[k]) == float(v[i]) or (np.isnan(float(v[i])) and np.isnan(at[k])), "export-signals", k)
    h = graphs.Graph.from_networkx(X)
    ctx.same(h.W.toarray().astype(float), W.astype(float), "roundtrip-adjacency")
    ctx.same(h.is_directed(), ref.directed(W), "roundtrip-directedness")
    compare_signals(ctx, h.signals, sig, "roundtrip-signals")
    # Twice: exporting is repeatable.
    Y = g.to_networkx()
    ctx.ok(dict(Y.edges) == dict(X.edges) and list(Y.nodes) == list(X.nodes), "repeatable")
    # Importing copies.
    for k in h.signals:
        h.signals[k][...] = 7
    ctx.ok(all(float(X.nodes[i][k]) == float(v[i]) or np.isnan(float(v[i])) for k, v in flat.items() for i in range(n)), "import-copies")


@R.family(quick=500, thorough=12000)
def graphtool_roundtrip(ctx, rng):
    import graph_tool as gt
    from pygsp import graphs
    g, W, sig = build(ctx, rng)
    n = len(W)
    E = edges_of(W)
    X = g.to_graphtool()
    unchanged(ctx, g, W, sig)
    ctx.ok(X.is_directed() == ref.directed(W), "export-directedness")
    ctx.same(X.num_vertices(), n, "export-vertices")
    p = X.edge_properties["weight"]
    got = {}
    for e in X.edges():
        i, j = int(e.source()), int(e.target())
        got[(i, j) if ref.directed(W) else (min(i, j), max(i, j))] = p[e]
    ctx.same(X.num_edges(), len(E), "export-edges")
    ctx.ok(set(got) == set(E), "export-edges", f"{sorted(got)} vs {sorted(E)}")
    ctx.ok(all(float(got[k]) == float(E[k]) for k in E), "export-weights")
    flat = {}
    for k, v in sig.items():
        if v.ndim == 2:
            for c in range(v.shape[1]):
                flat[f"{k}_{c}"] = v[:, c]
        else:
            flat[k] = v
    ctx.ok(set(X.vertex_properties.keys()) == set(flat), "export-signal-names")
    for k, v in flat.items():
        q = X.vertex_properties[k]
        ctx.close(np.array([q[i] for i in range(n)], float), v.astype(float), "export-signals", 0, scale=1)
    h = graphs.Graph.from_graphtool(X)
    ctx.same(h.W.toarray().astype(float), W.astype(float), "roundtrip-adjacency")
    ctx.same(h.is_directed(), ref.directed(W), "roundtrip-directedness")
    compare_signals(ctx, h.signals, sig, "roundtrip-signals")
    for k in h.signals:
        h.signals[k][...] = 1
    for k, v in flat.items():
        q = X.vertex_properties[k]
        ctx.close(np.array([q[i] for i in range(n)], float), v.astype(float), "import-copies", 0, scale=1)


def labels(rng, n):
    kind = str(rng.choice(["shuffled", "strings", "tuples", "floats", "mixed"]))
    p = [int(i) for i in rng.permutation(3 * n)[:n]]
    return {"shuffled": p, "strings": [f"v{i}" for i in p], "tuples": [(i, "a") for i in p], "floats": [i + .5 for i in p],
            "mixed": [i if k % 2 else f"n{i}" for k, i in enumerate(p)]}[kind]


@R.family(quick=500, thorough=12000)
def networkx_import(ctx, rng):
    import networkx as nx
    from pygsp import graphs
    n = int(rng.integers(1, 10))
    cls = [nx.Graph, nx.DiGraph, nx.MultiGraph, nx.MultiDiGraph][int(rng.integers(4))]
    X = cls()
    names = labels(rng, n)
    first = int(rng.integers(0, n + 1))
    for v in names[:first]:
        X.add_node(v)
    wname = str(rng.choice(["weight", "length"]))
    log = []
    for _ in range(int(rng.integers(0, 2 * n + 1))):
        u, v = names[int(rng.integers(n))], names[int(rng.integers(n))]
        mode = str(rng.choice(["none", "weight", "length", "both"]))
        at = {}
        if mode in ("weight", "both"):
            at["weight"] = float(rng.integers(1, 9)) / 2 if rng.uniform() < .7 else int(rng.integers(1, 9))
        if mode in ("length", "both"):
            at["length"] = float(rng.integers(1, 9)) / 4
        X.add_edge(u, v, **at)
        log.append((str(u), str(v), at))
    for v in names:
        X.add_node(v)
    attrs = ["deg", "x_lo", "x_hi", 7, "c", "c_0", "c_1"]
    sigs = {}
    for a in attrs[:int(rng.integers(0, len(attrs) + 1))]:
        for v in names:
            if rng.uniform() < .6:
                X.nodes[v][a] = float(rng.normal())
                sigs.setdefault(a, {})[v] = X.nodes[v][a]
    if rng.uniform() < .4:
        dims = int(rng.choice([2, 12]))
        for v in names:
            for c in range(dims):
                X.nodes[v][f"pos_{c}"] = float(rng.normal())
    else:
        dims = 0
    how = str(rng.choice(["default", "named", "none", "unknown"]))
    ctx.describe(X.number_of_edges() > 0, cls=cls.__name__, names=[str(v) for v in names], edges=log, how=how, attributes=str(sigs))
    ctx.note("class:" + cls.__name__)
    kw = {"default": {}, "named": dict(weight=wname), "none": dict(weight=None), "unknown": dict(weight="nope")}[how]
    key = {"default": "weight", "named": wname, "none": None, "unknown": "nope"}[how]
    order = {v: i for i, v in enumerate(X.nodes())}
    W = np.zeros((n, n))
    for u, v, d in X.edges(data=True):
        w = d.get(key, 1) if key is not None else 1
        i, j = order[u], order[v]
        W[i, j] += w
        if not X.is_directed() and i != j:
            W[j, i] += w
    g = graphs.Graph.from_networkx(X, **kw)
    ctx.close(g.W.toarray().astype(float), W, "import-adjacency", 1e-12, scale=max(W.max(initial=0), 1))
    want = {}
    for a, d in sigs.items():
        want[a] = np.array([d.get(v, np.nan) for v in X.nodes()])
    if "c_0" in want and "c_1" in want and "c" not in want:
        want["c"] = np.stack([want.pop("c_0"), want.pop("c_1")], 1)
    if dims:
        want["pos"] = np.array([[X.nodes[v][f"pos_{c}"] for c in range(dims)] for v in X.nodes()])
    ctx.ok(set(g.signals) == set(want), "import-signal-names", f"{list(g.signals)} vs {list(want)}")
    for a in want:
        ctx.close(g.signals[a], want[a], "import-signals", 0, scale=1, msg=str(a))


@R.family(quick=500, thorough=12000)
def graphtool_import(ctx, rng):
    import graph_tool as gt
    from pygsp import graphs
    n = int(rng.integers(1, 10))
    directed = rng.uniform() < .5
    X = gt.Graph(directed=directed)
    X.add_vertex(n)
    pt = str(rng.choice(["double", "int", "int64_t", "long double", "short"]))
    p, p2 = X.new_edge_property(pt), X.new_edge_property("double")
    W1, W2, W0 = np.zeros((3, n, n))
    log = []
    for _ in range(int(rng.integers(0, 2 * n + 1))):
        i, j = int(rng.integers(n)), int(rng.integers(n))
        e = X.add_edge(i, j)
        w, w2 = int(rng.integers(0, 9)), float(rng.integers(-8, 9)) / 4
        p[e], p2[e] = w, w2
        log.append((i, j, w, w2))
        for M, x in ((W1, w), (W2, w2), (W0, 1)):
            M[i, j] += x
            if not directed and i != j:
                M[j, i] += x
    X.edge_properties["weight"], X.edge_properties["length"] = p, p2
    how = str(rng.choice(["default", "named", "none", "unknown"]))
    kw = {"default": {}, "named": dict(weight="length"), "none": dict(weight=None), "unknown": dict(weight="nope")}[how]
    W = {"default": W1, "named": W2}.get(how, W0)
    want = {}
    for name in ["s", "x_lo", "x_hi", "d_1", "t", "c_0", "c_1", "c"][:int(rng.choice([0, 1, 2, 3, 4, 5, 8]))]:
        vt = str(rng.choice(["double", "int", "bool", "int64_t"]))
        q = X.new_vertex_property(vt)
        vals = rng.integers(0, 2, n) if vt == "bool" else rng.integers(-9, 9, n) if "int" in vt else rng.normal(size=n)
        for i in range(n):
            q[i] = vals[i]
        X.vertex_properties[name] = q
        want[name] = vals
    mask = np.ones(n, bool)
    if rng.uniform() < .25:
        mask = rng.uniform(size=n) < .7
        if not mask.any():
            mask[0] = True
        m = X.new_vertex_property("bool")
        m.a = mask
        X.set_vertex_filter(m)
    ctx.describe(len(log) > 0, n=n, directed=directed, type=pt, edges=log, how=how, mask=mask, signals=want)
    g = graphs.Graph.from_graphtool(X, **kw)
    ctx.close(g.W.toarray().astype(float), W[np.ix_(mask, mask)], "import-adjacency", 1e-12, scale=max(np.abs(W).max(), 1))
    ctx.ok(set(g.signals) == set(want), "import-signal-names")
    for a in want:
        ctx.close(np.asarray(g.signals[a]).astype(float), want[a][mask].astype(float), "import-signals", 0, scale=1, msg=a)


@R.family(quick=4, thorough=400)
def large(ctx, rng):
    """Hundreds of vertices, tens of signals, tens of columns."""
    from pygsp import graphs
    d, W = gen.large(rng, 100, int(rng.choice([500, 500, 2500])))
    n = W.shape[0]
    cols = int(rng.integers(2, 30))
    sig = {"wide": rng.normal(size=(n, cols)), "i": rng.integers(-10**6, 10**6, n)}
    for k in range(int(rng.integers(0, 25))):
        sig[f"s{k}x"] = rng.normal(size=n)
    backend = str(rng.choice(["networkx", "graph-tool"]))
    ctx.describe(backend=backend, columns=cols, signals=len(sig), **d)
    g = graphs.Graph(W)
    for k, v in sig.items():
        g.set_signal(v.copy(), k)
    if backend == "networkx":
        X = g.to_networkx()
        ctx.same([X.number_of_nodes(), X.number_of_edges()], [n, g.n_edges], "export-size")
        h = graphs.Graph.from_networkx(X)
    else:
        X = g.to_graphtool()
        ctx.same([X.num_vertices(), X.num_edges()], [n, g.n_edges], "export-size")
        h = graphs.Graph.from_graphtool(X)
    ctx.same(h.W, W.toarray(), "roundtrip-adjacency")
    compare_signals(ctx, h.signals, sig, "roundtrip-signals")
    unchanged(ctx, g, W.toarray(), sig)
    ctx.note(f"{backend} {d['kind']}")
