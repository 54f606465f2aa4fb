"""P28: library calls never modify the caller's arrays, graphs or filters."""
import copy

import numpy as np
from scipy import sparse

import gen
import ref
from core import Registry

R = Registry()
TECHNIQUE = "runtime monitoring: bit-exact argument snapshots around each call, results overwritten, calls repeated"
R.rule = "seeded graphs, arguments and call sequences over a catalogue of the public functions; distinct by content hash"
R.assumptions = ["cached spectral data of a graph may be filled by a call",
                 "signals and coordinates attached to a graph are stored by reference (set_signal, coords, set_coordinates)",
                 "the matrices and caches a graph exposes (W, L, U, e, d, dw, D...) are the graph's own"]

CACHES = {"_A", "_d", "_dw", "_lmax", "_lmax_method", "_U", "_e", "_coherence", "_D", "logger", "_connected", "_directed",
          "spectr", "mr"}


# ---------------------------------------------------------------- snapshots
def raw(x, depth=0):
    """Everything observable in an argument, storage of sparse matrices included."""
    from pygsp import filters, graphs
    if sparse.issparse(x):
        parts = [x.format, x.shape, str(x.dtype)]
        for name in ("data", "indices", "indptr", "row", "col", "offsets", "rows"):
            if hasattr(x, name):
                v = getattr(x, name)
                if isinstance(v, np.ndarray):
                    parts.append((name, v.shape, v.tolist() if v.dtype == object else v.tobytes()))
        if x.format == "dok":
            parts.append(sorted(x.items()))
        return ("sparse", repr(parts))
    if isinstance(x, np.ndarray):
        return ("nd", x.shape, str(x.dtype), x.tobytes(), x.flags.writeable)
    if isinstance(x, graphs.Graph):
        d = {k: v for k, v in vars(x).items() if k not in CACHES}
        # stored zeros, their order and such are the graph's own business
        d = {k: ("value", v.shape, str(v.dtype), v.toarray().tobytes()) if sparse.issparse(v) else v for k, v in d.items()}
        return ("graph", id(x)) + tuple((k, raw(v, depth + 1)) for k, v in sorted(d.items()))
    if isinstance(x, filters.Filter):
        d = {k: v for k, v in vars(x).items()}
        return ("filter", id(x)) + tuple((k, raw(v, depth + 1)) for k, v in sorted(d.items()) if depth < 4)
    if isinstance(x, dict):
        return ("dict",) + tuple((repr(k), raw(v, depth + 1)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(raw(v, depth + 1) for v in x)
    if isinstance(x, (set, frozenset)):
        return ("set", repr(sorted(x, key=repr)))
    if type(x).__module__.startswith("networkx"):
        return ("nx", repr(x.graph), repr(list(x.nodes(data=True))), repr(list(x.edges(data=True))))
    if callable(x):
        return ("callable", id(x))
    return ("obj", repr(x))


def freeze(x):
    """An independent copy of a result's values."""
    from pygsp import filters, graphs
    if isinstance(x, graphs.Graph):
        return ("graph", x.W.toarray(), x.L.toarray(), freeze(getattr(x, "coords", None)),
                {k: freeze(v) for k, v in x.signals.items()}, copy.deepcopy(x.plotting), freeze(getattr(x, "info", None)))
    if isinstance(x, filters.Filter):
        return ("filter", x.Nf)
    if sparse.issparse(x):
        return x.toarray()
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, dict):
        return {k: freeze(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [freeze(v) for v in x]
    if type(x).__module__.startswith("networkx"):
        return raw(x)
    if callable(x):
        return None
    return x


def alike(a, b, tol):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(alike(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(alike(a[k], b[k], tol) for k in a)
    if isinstance(a, (np.ndarray, float, np.floating)):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or a.dtype.kind != b.dtype.kind:
            return False
        if a.dtype.kind not in "fc":
            return np.array_equal(a, b)
        return np.allclose(a, b, rtol=tol, atol=tol * max(1e-300, np.abs(np.nan_to_num(a)).max(initial=0)), equal_nan=True)
    return repr(a) == repr(b)


def scribble(x, seen=None):
    """Overwrite everything a caller may do what they want with.  Returns how many buffers."""
    from pygsp import filters, graphs
    n = 0
    if isinstance(x, graphs.Graph):
        for m in (x.W, x.L):
            n += scribble(m)
        for v in [getattr(x, "coords", None), *x.signals.values()]:
            n += scribble(v)
        if isinstance(getattr(x, "info", None), dict):
            n += scribble(x.info)
        x.plotting["vertex_size"] = -1
        x.plotting["garbage"] = 1
        x.signals["garbage"] = np.zeros(x.N)
        return n
    if sparse.issparse(x):
        for name in ("data",):
            if hasattr(x, name):
                n += scribble(getattr(x, name))
        return n
    if isinstance(x, np.ndarray):
        if x.dtype == object or not x.flags.writeable or not x.size:
            return 0
        if x.dtype.kind in "iub":  # may be indices: keep them valid
            x[...] = 0 if x.any() else 1
        else:
            x[...] = 77
        return 1
    if isinstance(x, dict):
        n += sum(scribble(v) for v in x.values())
        x["garbage"] = 1
        return n
    if isinstance(x, (list, tuple)):
        n += sum(scribble(v) for v in x)
        if isinstance(x, list):
            x.append("garbage")
        return n
    if isinstance(x, filters.Filter):
        return 0
    if type(x).__module__.startswith("networkx"):
        for _, d in x.nodes(data=True):
            d["garbage"] = 1
        for *_, d in x.edges(data=True):
            d["weight"] = -77.
        x.graph["garbage"] = 1
        return 1
    return 0


# ---------------------------------------------------------------- catalogue
# Each operation draws its arguments and returns (call, watched arguments, options).
OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


def sig(rng, n, shape=None):
    if shape is None:
        shape = [(), (1,), (3,)][int(rng.integers(3))]
    s = gen.signal(rng, n, shape)
    k = rng.uniform()
    if k < .15 and s.ndim == 1:
        return np.repeat(s, 2)[::2]  # a view
    if k < .3:
        return np.asfortranarray(s)
    return s


def method(rng):
    return dict(method=str(rng.choice(["exact", "chebyshev"])))


@op
def filter_(rng, G):
    from pygsp import filters
    _, _, g = gen.filterbank(rng, G)
    shape = [(), (1,), (3,), (2, 1), (1, 1)][int(rng.integers(5))]
    if g.Nf > 1 and rng.uniform() < .3:
        shape = (2, g.Nf)
    s = sig(rng, G.N, shape)
    kw = method(rng)
    if rng.uniform() < .4:
        kw["order"] = int(rng.integers(1, 20))
    return lambda: g.filter(s, **kw), [s, g, kw], {}


@op
def identity_filter(rng, G):
    """Where returning the input itself would be tempting."""
    from pygsp import filters
    g = filters.Filter(G, [lambda x: np.ones_like(x, dtype=float)][:1])
    s = sig(rng, G.N, ()).astype(float)
    kw = method(rng)
    return lambda: g.filter(s, **kw), [s, g], {}


@op
def analyze_synthesize(rng, G):
    _, _, g = gen.filterbank(rng, G)
    s = sig(rng, G.N, (2,))
    c = sig(rng, G.N, (2, g.Nf) if g.Nf > 1 else (2, 1))
    kw = method(rng)
    return lambda: [g.analyze(s, **kw), g.synthesize(c, **kw)], [s, c, g], {}


@op
def evaluate(rng, G):
    _, _, g = gen.filterbank(rng, G)
    x = rng.uniform(0, 1, [(), (5,), (2, 3)][int(rng.integers(3))]) * G.lmax
    x = np.asarray(x)
    if rng.uniform() < .2:
        x = np.sort(G.e.copy())
    return lambda: [g.evaluate(x), g(x)], [x, g], {}


@op
def evaluate_basis(rng, G):
    """On the cached eigenvalues themselves."""
    _, _, g = gen.filterbank(rng, G)
    G.compute_fourier_basis()
    e, U = G.e.copy(), G.U.copy()

    def call():
        r = g.evaluate(G.e)
        assert np.array_equal(G.e, e) and np.array_equal(G.U, U), "basis modified"
        return r
    return call, [g, e], {}


@op
def filter_design(rng, G):
    """Banks do not share their parameters with the caller."""
    from pygsp import filters
    G.lmax
    k = int(rng.integers(6))
    x = np.linspace(0, G.lmax, 13)
    scales = [float(v) for v in rng.uniform(1, 20, 3)]
    scales = scales if rng.uniform() < .5 else np.array(scales)
    if k == 0:
        f = lambda: filters.Heat(G, scale=scales).evaluate(x)
    elif k == 1:
        f = lambda: filters.MexicanHat(G, Nf=4, scales=scales).evaluate(x)
    elif k == 2:
        f = lambda: filters.Abspline(G, Nf=4, scales=scales).evaluate(x)
    elif k == 3:
        f = lambda: filters.Wave(G, time=scales, speed=.7).evaluate(x)
    elif k == 4:
        f = lambda: filters.Meyer(G, Nf=4, scales=scales).evaluate(x)
    else:
        ks = [np.exp, np.cos]
        scales = ks
        f = lambda: filters.Filter(G, ks).evaluate(x / x[-1])
    return f, [x, scales], {}


@op
def combine_filters(rng, G):
    _, _, g = gen.filterbank(rng, G)
    _, _, h = gen.filterbank(rng, G)
    x = np.linspace(0, G.lmax, 7)

    def call():
        b = g + h
        r = [b.evaluate(x), b[0].evaluate(x), g.Nf, h.Nf, b.Nf]
        b._kernels.append(None)  # what the combination does is its own business
        return r
    return call, [x, g, h], {}


@op
def complement_inverse(rng, G):
    from pygsp import filters
    g = filters.Heat(G, [1, 5]) if rng.uniform() < .5 else filters.Itersine(G, 4)
    x = np.linspace(0, G.lmax, 9)
    return lambda: [g.complement().evaluate(x), g.inverse().evaluate(x)], [x, g], {}


@op
def localize_frame(rng, G):
    _, _, g = gen.filterbank(rng, G)
    x = rng.uniform(0, 1, 9) * G.lmax
    i = int(rng.integers(G.N))
    kw = method(rng)
    return lambda: [g.localize(i, **kw), g.estimate_frame_bounds(x), g.compute_frame(**kw)], [x, g], {}


@op
def expressions(rng, G):
    from pygsp import filters
    g = filters.Heat(G, [1, 5])
    s = sig(rng, G.N, ())
    return lambda: [g @ s, g.toarray()], [s, g], {}


@op
def modulation(rng, G):
    from pygsp import filters
    h = filters.Heat(G, float(rng.uniform(1, 20)))
    s = sig(rng, G.N, ())
    m = bool(rng.integers(2))
    G.compute_fourier_basis()
    e = G.e.copy()
    U = G.U.copy()

    def call():
        g = filters.Modulation(G, h, modulation_first=m)
        r = [g.filter(s, method="exact"), filters.Gabor(G, h).filter(s, method="exact")]
        assert np.array_equal(G.e, e) and np.array_equal(G.U, U), "basis modified"
        return r
    return call, [h, s], dict(copies=True)


@op
def fourier(rng, G):
    s = sig(rng, G.N)
    return lambda: [G.gft(s), G.igft(s)], [s], {}


@op
def differential(rng, G):
    s = sig(rng, G.N, ())
    y = sig(rng, G.n_edges, ())
    return lambda: [G.grad(s), G.div(y), G.dirichlet_energy(s)], [s, y], {}


@op
def inspection(rng, G):
    return lambda: [G.get_edge_list(), G.is_connected(), G.is_directed(), G.is_weighted(), G.has_loops(), repr(G)], [], \
        dict(copies=True)


@op
def subgraph(rng, G):
    k = int(rng.integers(1, G.N + 1))
    v = rng.permutation(G.N)[:k]
    form = int(rng.integers(4))
    if form == 1:
        v = v.tolist()
    elif form == 2:
        v = np.isin(np.arange(G.N), v)
    elif form == 3:
        v = np.arange(G.N)
    return lambda: G.subgraph(v), [v], {}


@op
def components(rng, G):
    if ref.directed(G.W.toarray()):
        return None
    return lambda: G.extract_components(), [], {}


@op
def networkx(rng, G):
    from pygsp import graphs
    if ref.directed(G.W.toarray()) and False:
        return None
    n = G.to_networkx()
    return lambda: [G.to_networkx(), graphs.Graph.from_networkx(n)], [n], {}


@op
def graphtool(rng, G):
    return lambda: [np.array(G.to_graphtool().get_edges())], [], {}


@op
def saving(rng, G):
    import os
    import tempfile
    fmt = str(rng.choice(["gml", "graphml", "gexf"]))
    backend = "networkx" if fmt == "gexf" or rng.uniform() < .5 else "graph-tool"

    def call():
        with tempfile.TemporaryDirectory() as d:
            G.save(os.path.join(d, "g." + fmt), backend=backend)
        return []
    return call, [], {}


@op
def line_graph(rng, G):
    from pygsp import graphs
    if ref.directed(G.W.toarray()) or not G.n_edges or G.has_loops() or not hasattr(G, "coords"):
        return None
    return lambda: graphs.LineGraph(G), [], {}


@op
def construct(rng, G):
    """From every container, shared buffers included."""
    from pygsp import graphs
    W = gen.adjacency(rng)
    kind, obj = gen.container(rng, W)
    parts = [obj]
    if rng.uniform() < .3:  # explicit zeros and duplicates over the caller's own buffers
        r, c = np.nonzero(np.ones_like(W))
        order = np.argsort(r, kind="stable")
        r, c = r[order], c[order]
        data, ind = np.repeat(W[r, c] / 2, 2), np.repeat(c, 2).astype(np.int32)
        ptr = np.r_[0, np.cumsum(np.bincount(r, minlength=len(W)) * 2)].astype(np.int32)
        obj = sparse.csr_matrix((data, ind, ptr), shape=W.shape)
        parts = [obj, data, ind, ptr]
        kind = "csr_own_buffers"
    xy = rng.normal(size=(len(W), 2))
    plotting = dict(vertex_size=int(rng.integers(1, 9)))
    lap = str(rng.choice(["combinatorial", "normalized"]))

    def call():
        g = graphs.Graph(obj, lap_type=lap, coords=xy.copy(), plotting=plotting)
        g.n_edges, g.d, g.dw, g.is_directed(), g.is_connected(), g.W.max(), g.W.nnz
        g.compute_differential_operator()
        return g
    return call, parts + [xy, plotting], dict(note=kind)


def own(g):
    """Detach what a graph stores by reference."""
    g.coords = getattr(g, "coords", np.zeros((g.N, 2))).copy()
    if hasattr(g, "info"):
        g.info = {k: np.array(v) for k, v in g.info.items()}
    return g


@op
def model(rng, G):
    from pygsp import graphs
    k = int(rng.integers(9))
    s = gen._s(rng)
    n = int(rng.integers(8, 20))
    if k == 0:
        z = np.sort(rng.integers(0, 3, n))
        z[:3] = [0, 1, 2]
        z = np.sort(z)
        p = rng.uniform(.3, .9, 3)
        q = .1
        M = np.full((3, 3), .1) + np.diag(p)
        watch = [z, p, M] + ([] if rng.uniform() < .5 else [])
        if rng.uniform() < .5:
            return lambda: own(graphs.StochasticBlockModel(n, 3, z=z, M=M.clip(0, 1), seed=s)), watch, {}
        if rng.uniform() < .5:
            p = p.tolist()
        return lambda: own(graphs.StochasticBlockModel(n, 3, z=z, p=p, q=q, seed=s)), watch + [p], {}
    if k == 1:
        a = rng.uniform(0, 2 * np.pi, n)
        return lambda: graphs.RandomRing(n, angles=a, seed=s), [a], {}
    if k == 2:
        c = [n, 10, 5] if rng.uniform() < .5 else np.array([n, 10, 5])
        kw = dict(comm_sizes=c, seed=s, min_comm=5)
        return lambda: graphs.Community(n + 15, Nc=3, **kw), [c, kw], {}
    if k == 3:
        X = rng.normal(size=(n, int(rng.integers(2, 4))))
        kw = dict(NNtype=str(rng.choice(["knn", "radius"])), center=bool(rng.integers(2)), rescale=bool(rng.integers(2)),
                  k=3, epsilon=3., symmetrize_type=str(rng.choice(["average", "fill"])))
        return lambda: own(graphs.NNGraph(X, **kw)), [X, kw], {}
    if k == 4:
        img = rng.uniform(size=(6, 5) + ((3,) if rng.uniform() < .3 else ()))
        c = str(rng.choice(["ImgPatches", "Grid2dImgPatches"]))
        if c == "ImgPatches":
            return lambda: graphs.ImgPatches(img, patch_shape=(3, 3)), [img], {}
        return lambda: graphs.Grid2dImgPatches(img, patch_shape=(3, 3)), [img], {}
    if k == 5:
        G1 = dict(vertex_size=3)
        return lambda: graphs.BarabasiAlbert(n, seed=s, plotting=G1), [G1], {}
    name = str(rng.choice(sorted(gen.MODEL_KW)))
    kw = gen.MODEL_KW[name](rng)
    return lambda: getattr(graphs, name)(**kw), [kw], dict(note=name)


@op
def defaults(rng, G):
    """Default arguments are not shared between calls."""
    from pygsp import graphs
    W = G.W.toarray()
    c = str(rng.choice(["Graph", "Ring", "Sensor", "Community", "StochasticBlockModel", "Grid2d", "Swiss"]))
    f = {"Graph": lambda: graphs.Graph(W), "Ring": lambda: graphs.Ring(8), "Sensor": lambda: graphs.Sensor(12, seed=1),
         "Community": lambda: graphs.Community(30, seed=1), "Grid2d": lambda: graphs.Grid2d(3),
         "StochasticBlockModel": lambda: graphs.StochasticBlockModel(30, 3, seed=1),
         "Swiss": lambda: graphs.SwissRoll(20, seed=1)}[c]
    return f, [W], dict(note=c)


@op
def layouts(rng, G):
    from pygsp import graphs
    H = graphs.Graph(G.W.toarray())
    n = H.N
    pos = rng.normal(size=(n, 2))
    pos = pos if rng.uniform() < .5 else rng.integers(1, 9, (n, 2))
    fixed = [0, n - 1]
    centre = np.array([[1., 2.]])
    k = int(rng.integers(4))
    kw = [dict(pos=pos, fixed=fixed), dict(pos=pos), dict(center=centre, fixed=[]), dict()][k]

    def call():
        H.set_coordinates("spring", seed=3, iterations=5, **kw)
        return H.coords
    return call, [pos, fixed, centre, kw], {}


@op
def approximations(rng, G):
    from pygsp.filters import approximations as ap
    _, _, g = gen.filterbank(rng, G)
    s = sig(rng, G.N, (2,)).astype(float)
    m = int(rng.integers(2, 15))
    c = ap.compute_cheby_coeff(g, m=m)
    c = [np.array(v) for v in np.atleast_2d(c)]
    b = np.sort(rng.uniform(0, 1, 2) * G.lmax)
    d = [0, float(G.lmax)]
    if rng.uniform() < .5:
        c = np.array(c)
    if rng.uniform() < .5:
        b = b.tolist()
        d = np.array(d)
    return lambda: [ap.compute_cheby_coeff(g, m=m), ap.cheby_op(G, c, s), ap.cheby_rect(G, b, s, order=8),
                    ap.compute_jackson_cheby_coeff(b, d, 6)], [s, c, b, d, g], {}


@op
def features(rng, G):
    from pygsp import features as ft
    if G.N > 16:
        return None
    return lambda: [ft.compute_avg_adj_deg(G), ft.compute_spectrogram(G, M=4)], [], dict(spectro=True)


@op
def norms(rng, G):
    from pygsp import features as ft
    _, _, g = gen.filterbank(rng, G)
    return lambda: [ft.compute_tig(g, method="exact"), ft.compute_norm_tig(g, method="exact")], [g], {}


@op
def learning(rng, G):
    from pygsp import learning as le
    n = G.N
    M = rng.uniform(size=n) < .7
    L = G.L.toarray()
    for c in ref.components(L - np.diag(np.diag(L))):
        M[c[0]] = True
    y = rng.normal(size=n)
    if rng.uniform() < .4:
        y = rng.integers(-5, 5, n)
    if rng.uniform() < .3:
        y = np.stack([y, y], 1)
    z = rng.integers(0, 3, n)
    if rng.uniform() < .5:
        z = z.astype(float)
        z[~M] = np.nan
    tau = float(rng.choice([0, 1., 3.]))
    return lambda: [le.regression_tikhonov(G, y, M, tau), le.classification_tikhonov(G, z, M, tau)], [y, z, M], dict(tol=1e-3)


@op
def simplex(rng, G):
    from pygsp import learning as le
    n = G.N
    M = rng.uniform(size=n) < .7
    M[0] = True
    z = rng.integers(0, 3, n)
    return lambda: [le.classification_tikhonov_simplex(G, z, M, .1, maxit=20, verbosity="NONE")], [z, M], {}


@op
def reduction(rng, G):
    from pygsp import reduction as rd
    W = G.W.toarray()
    if ref.directed(W) or len(ref.components(W)) > 1 or G.N < 4 or G.lap_type != "combinatorial" or G.has_loops():
        return None
    k = int(rng.integers(2, G.N))
    ind = np.sort(rng.permutation(G.N)[:k])
    if rng.uniform() < .5:
        ind = ind.tolist()
    f = rng.normal(size=k)
    L = G.L.copy()
    return lambda: [rd.kron_reduction(G, ind), rd.kron_reduction(L, ind), rd.interpolate(G, f, ind, order=20)], \
        [ind, f, L], dict(mr=True)


@op
def pyramid(rng, G):
    from pygsp import reduction as rd
    W = G.W.toarray()
    if ref.directed(W) or len(ref.components(W)) > 1 or G.N < 8 or G.lap_type != "combinatorial" or G.has_loops():
        return None
    from pygsp import graphs
    H = graphs.Graph(W)
    H.compute_fourier_basis()
    Gs = rd.graph_multiresolution(H, 2, sparsify=False)
    s = sig(rng, G.N, ()).astype(float)
    hs = [lambda x: 1 / (2 * x + 1)] * (2 if rng.uniform() < .5 else 1)
    ca, pe = rd.pyramid_analysis(Gs, s, h_filters=list(hs), method="exact")
    cap = ca[-1].copy()
    pe = [p.copy() for p in pe]
    kw = dict(h_filters=hs, method="exact", reg_eps=.01)
    kw2 = dict(method="exact")
    return lambda: [rd.pyramid_analysis(Gs, s, **kw), rd.pyramid_synthesis(Gs, cap, pe, **kw2)], \
        [s, hs, cap, pe, kw, kw2, [g.W.toarray() for g in Gs]] + list(Gs), dict(scribble="pyramid")


@op
def multiresolution(rng, G):
    from pygsp import reduction as rd
    W = G.W.toarray()
    if ref.directed(W) or len(ref.components(W)) > 1 or G.N < 8 or G.lap_type != "combinatorial" or G.has_loops():
        return None
    G.compute_fourier_basis()
    return lambda: rd.graph_multiresolution(G, 2, sparsify=False, compute_full_eigen=True)[1:], [], dict(mr=True)


@op
def sparsify(rng, G):
    from pygsp import reduction as rd
    W = G.W.toarray()
    if ref.directed(W) or len(ref.components(W)) > 1 or G.N < 4 or G.lap_type != "combinatorial" or G.has_loops():
        return None
    s = gen._s(rng)
    M = G if rng.uniform() < .6 else G.L.copy()
    if M is G and rng.uniform() < .5:  # edges too light to matter
        from pygsp import graphs
        A = W.astype(float)
        i, j = rng.permutation(G.N)[:2]
        A[i, j] = A[j, i] = 1e-11
        if len(ref.components(A * (A > 1e-9))) == 1:
            M = graphs.Graph(A)
    return lambda: rd.graph_sparsify(M, .99, seed=s), [M], {}


@op
def utilities(rng, G):
    from pygsp import utils
    n = G.N
    W = rng.normal(size=(n, n)) * (rng.uniform(size=(n, n)) < .5)
    if rng.uniform() < .3:
        W = np.ceil(np.abs(W))
    kind, M = gen.container(rng, W, str(rng.choice(["ndarray", "fortran", "csr", "csc", "coo", "lil", "csr_zeros", "view"])))
    how = str(rng.choice(["average", "maximum", "fill", "tril", "triu"]))
    x, y = rng.normal(size=(2, 5)), rng.normal(size=(2, 3))
    z = rng.normal(size=(2, 6)) if rng.uniform() < .6 else rng.integers(-5, 5, (2, 6)) + np.arange(6)
    return lambda: [utils.symmetrize(M, how), utils.distanz(x, y), utils.distanz(x), utils.rescale_center(z)], [M, x, y, z], \
        dict(note=f"{kind} {how}")


@op
def resistance(rng, G):
    from pygsp import utils
    W = G.W.toarray()
    if ref.directed(W) or len(ref.components(W)) > 1 or G.lap_type != "combinatorial" or G.has_loops():
        return None
    L = G.L.copy() if rng.uniform() < .5 else G.L.tocsc()
    return lambda: [utils.resistance_distance(G), utils.resistance_distance(L)], [L], {}


@op
def plots(rng, G):
    import matplotlib
    matplotlib.use("agg")
    import matplotlib.pyplot as plt
    if not hasattr(G, "coords") or G.coords.ndim != 2 or G.coords.shape[1] != 2 or ref.directed(G.W.toarray()):
        return None
    s = rng.normal(size=G.N)
    z = np.abs(rng.normal(size=G.N))
    w = np.abs(rng.normal(size=G.n_edges))
    h = [0, G.N - 1]
    lim = [0, 1]
    which = int(rng.integers(3))
    _, _, g = gen.filterbank(rng, G)

    def call():
        if which == 0:
            G.plot(s, z, h, edges=True, edge_width=w, limits=lim)
        elif which == 1:
            G.plot(edges=bool(rng.integers(2)), highlight=h)
        else:
            g.plot()
        plt.close("all")
        return []
    return call, [s, z, w, h, lim, g], {}


# ---------------------------------------------------------------- monitors
def fresh(ctx, rng):
    from pygsp import graphs
    conn = rng.uniform() < .5
    G, W, d = gen.spectral_graph(rng, nmin=3, nmax=16, models=0 if conn else .3, connected=conn, scaled=rng.uniform() < .2,
                                 directed=False if rng.uniform() < .7 else None, loops=False if rng.uniform() < .7 else None,
                                 lap="combinatorial" if rng.uniform() < .6 else None)
    if not (G.L.toarray() != 0).any():
        ctx.skip("no edge")
    if G.N <= 40 and not hasattr(G, "coords") and rng.uniform() < .7:
        G.set_coordinates(rng.normal(size=(G.N, 2)))
    for k in range(int(rng.integers(0, 3))):
        G.set_signal(rng.normal(size=G.N), f"s{k}")
    state = str(rng.choice(["fresh", "lmax", "basis"]))
    if state == "lmax":
        G.estimate_lmax("bounds")
    elif state == "basis":
        G.compute_fourier_basis()
    return G, W, d, state


def cached(G):
    """What the caches hold, when filled."""
    return {k: getattr(G, k) for k in ("_A", "_d", "_dw", "_U", "_e", "_D", "_coherence") if getattr(G, k) is not None}


def values(c):
    return {k: v.toarray() if sparse.issparse(v) else np.array(v) for k, v in c.items()}


def watch(ctx, rng, G, name, call, args, opt):
    ctx.note("op:" + name + (" " + opt["note"] if "note" in opt and name != "construct" else ""))
    tol = opt.get("tol", 1e-9)
    before = raw([args, G])
    had = values(cached(G))

    def check(mech):
        now = raw([args, G])
        if opt.get("mr"):
            pass
        ctx.ok(now == before, mech, lambda: f"{name}: {differ(before, now)}")
        c = values(cached(G))
        for k, v in had.items():
            # computing a basis may refine nothing but the maximum frequency
            ctx.ok(k in c and v.shape == c[k].shape and np.array_equal(v, c[k], equal_nan=True), "caches-kept",
                   lambda: f"{name}: {k}")
    res = call()
    check("arguments-unchanged")
    had = values(cached(G))
    saved = freeze(res)
    if opt.get("scribble") == "pyramid":
        res = [list(res[0][0]) + list(res[0][1]), res[1][0], res[1][1]]
    n = scribble(res)
    ctx.note("buffers overwritten", n)
    check("results-independent")
    again = call()
    check("arguments-unchanged")
    ctx.ok(alike(saved, freeze(again), tol), "repeatable", lambda: f"{name}")


def differ(a, b, path=""):
    if type(a) is tuple and type(b) is tuple and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return differ(x, y, path + "/" + (str(x[0])[:20] if type(x) is tuple and x else str(i)))
    return f"{path}: {str(a)[:200]} became {str(b)[:200]}"


@R.family(quick=1500, thorough=30000)
def sequences(ctx, rng):
    """Several operations in a row on the same graph."""
    G, W, d, state = fresh(ctx, rng)
    names = [str(v) for v in rng.choice(sorted(OPS), int(rng.integers(1, 5)))]
    ctx.describe(True, ops=names, state=state, signals=len(G.signals), **d)
    ctx.note("state " + state)
    first = raw(G)
    for name in names:
        try:
            drawn = OPS[name](rng, G)
        except Exception as e:
            if "Arpack" in type(e).__name__:
                ctx.skip()
            raise
        if drawn is None:
            ctx.note("out of domain: " + name)
            continue
        watch(ctx, rng, G, name, *drawn)
    ctx.ok(raw(G) == first, "graph-unchanged", lambda: differ(first, raw(G)))
    ctx.same(G.W.toarray(), W if W.dtype == G.W.dtype else W.astype(G.W.dtype), "graph-unchanged")
