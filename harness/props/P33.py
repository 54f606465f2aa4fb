"""P33: work on large sparse graphs takes memory linear in vertices and edges."""
import os
import tempfile
import tracemalloc

import numpy as np
from scipy import sparse

from core import Registry

R = Registry()
R.factor = 1
TECHNIQUE = ("runtime monitoring: peak memory of every sparse-capable operation traced at two sizes of the same graph family, "
             "oracle on the growth of the peak; sparsity of every exposed matrix")
R.rule = "operation x sparse graph family x seed, at N and 4N vertices (about 1000 and 4000); distinct by content hash"
R.assumptions = ["tracemalloc sees the allocations of Python and NumPy, which hold every matrix of the library",
                 "operations documented as dense (full Fourier basis, frames, resistance distances, Kron reduction, "
                 "interpolation, SwissRoll) and the random models built in quadratic time are left out"]


def sparse_graph(rng_seed, kind, N):
    """About N vertices and a few N edges; the same seed gives the same family of graphs."""
    rng = np.random.default_rng(rng_seed)
    if kind == "grid":
        w = int(np.sqrt(N))
        i = np.arange(w * w).reshape(w, w)
        s = np.r_[i[:, :-1].ravel(), i[:-1].ravel()]
        t = np.r_[i[:, 1:].ravel(), i[1:].ravel()]
        N = w * w
    elif kind == "ring":
        s = np.tile(np.arange(N), 3)
        t = (s + np.repeat([1, 2, 3], N)) % N
    elif kind == "tree":
        t = np.arange(1, N)
        s = rng.integers(0, t)
    elif kind == "star":
        t = np.arange(1, N)
        s = np.zeros(N - 1, int)
    else:  # random, several components
        s, t = rng.integers(0, N, (2, 2 * N))
        s, t = s[s != t], t[s != t]
    w = rng.uniform(.5, 2, len(s))
    W = sparse.coo_matrix((w, (s, t)), shape=(N, N)).tocsr()
    if kind != "directed":
        W = W + W.T
    return W


OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


class Job:
    """A graph with what the operations need; nothing here is measured."""

    def __init__(self, seed, kind, N):
        from pygsp import graphs
        self.W = sparse_graph(seed, kind, N)
        self.rng = np.random.default_rng(seed + 1)
        self.N = N = self.W.shape[0]
        self.kind = kind
        self.g = graphs.Graph(self.W)
        self.s = self.rng.normal(size=N)
        self.S = self.rng.normal(size=(N, 2))
        self.xy = self.rng.uniform(size=(N, 2)) * np.sqrt(N)
        self.mask = self.rng.uniform(size=N) < .5


def undirected(j):
    return j.kind not in ("directed",)


@op
def construct(j):
    from pygsp import graphs
    return graphs.Graph(j.W)


@op
def construct_normalized(j):
    from pygsp import graphs
    return graphs.Graph(j.W, lap_type="normalized")


@op
def laplacians(j):
    j.g.compute_laplacian("normalized")
    j.g.compute_laplacian("combinatorial")


@op
def queries(j):
    g = j.g
    return g.A, g.d, g.dw, g.get_edge_list(), g.is_directed(), g.is_weighted(), g.has_loops(), repr(g)


@op
def connected(j):
    return j.g.is_connected()


@op
def components(j):
    if undirected(j) and j.kind != "random":
        return j.g.extract_components()
    return "skip"


@op
def subgraph(j):
    return j.g.subgraph(np.flatnonzero(j.mask))


@op
def differential(j):
    j.g.compute_differential_operator()
    return j.g.div(j.g.grad(j.s)), j.g.dirichlet_energy(j.s)


@op
def lmax_lanczos(j):
    j.g.estimate_lmax()


@op
def lmax_bounds(j):
    j.g.estimate_lmax("bounds")


@op
def partial_basis(j):
    if j.kind in ("ring", "tree"):
        j.g.compute_fourier_basis(3)
        return None
    return "skip"


def filters_bank(j):
    from pygsp import filters
    j.g.estimate_lmax("bounds")
    return filters.MexicanHat(j.g, Nf=4)


@op
def chebyshev(j):
    return filters_bank(j).filter(j.S, order=10)


@op
def analysis_synthesis(j):
    f = filters_bank(j)
    return f.synthesize(f.analyze(j.s, order=10), order=10)


@op
def localize(j):
    return filters_bank(j).localize(1, order=10)


@op
def design(j):
    from pygsp import filters
    f = filters_bank(j)
    x = np.linspace(0, j.g.lmax, 100)
    return [f.evaluate(x), f.estimate_frame_bounds(), (f + f).evaluate(x), f.inverse().evaluate(x),
            f.complement().evaluate(x)] + [getattr(filters, n)(j.g).evaluate(x) for n in
                                           ("Heat", "Meyer", "Itersine", "Held", "Expwin", "Abspline", "HalfCosine")]


@op
def tikhonov(j):
    from pygsp import learning
    if not undirected(j) or j.kind == "random":
        return "skip"
    return learning.regression_tikhonov(j.g, j.s, j.mask, tau=1.)


@op
def classification(j):
    from pygsp import learning
    if not undirected(j) or j.kind == "random":
        return "skip"
    return learning.classification_tikhonov(j.g, j.mask.astype(int), j.mask | (j.s > 0), tau=1.)


@op
def interpolation(j):
    from pygsp import learning
    if j.kind not in ("ring", "tree", "star"):
        return "skip"  # The fill-in of the factorization depends on the structure.
    return learning.regression_tikhonov(j.g, j.s, j.mask, tau=0)


@op
def layouts(j):
    for kind in ("line1D", "line2D", "ring2D", "random2D", "random3D"):
        j.g.set_coordinates(kind)
    j.g.set_coordinates(j.xy)


@op
def to_networkx(j):
    j.g.set_signal(j.s, "s")
    return j.g.to_networkx()


@op
def from_networkx(j):
    from pygsp import graphs
    import networkx as nx
    n = nx.from_scipy_sparse_array(j.W, create_using=nx.DiGraph if j.kind == "directed" else nx.Graph)
    return lambda: graphs.Graph.from_networkx(n)


@op
def graphtool(j):
    from pygsp import graphs
    j.g.set_signal(j.s, "s")
    return graphs.Graph.from_graphtool(j.g.to_graphtool())


@op
def save_load(j):
    from pygsp import graphs
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "g.gml")
        j.g.save(p, backend="networkx")
        return graphs.Graph.load(p, backend="networkx")


@op
def symmetrize(j):
    from pygsp import utils
    return [utils.symmetrize(j.W, method=m) for m in ("average", "maximum", "fill", "tril", "triu")]


@op
def adjacent_degree(j):
    from pygsp import features
    return features.compute_avg_adj_deg(j.g)


@op
def line_graph(j):
    from pygsp import graphs
    if j.kind not in ("ring", "grid"):
        return "skip"  # Quadratic in the degrees.
    j.g.set_coordinates(j.xy)
    return lambda: graphs.LineGraph(j.g)


@op
def nearest_neighbours(j):
    from pygsp import graphs
    return graphs.NNGraph(j.xy, k=5, center=False, rescale=False)


@op
def radius_neighbours(j):
    from pygsp import graphs
    return graphs.NNGraph(j.xy, NNtype="radius", epsilon=1.5, center=False, rescale=False)


@op
def sensor(j):
    from pygsp import graphs
    return graphs.Sensor(j.N, seed=1)


@op
def deterministic_models(j):
    from pygsp import graphs
    w = int(np.sqrt(j.N))
    return [graphs.Path(j.N), graphs.Ring(j.N, k=2), graphs.Star(j.N), graphs.Comet(j.N, k=9), graphs.Grid2d(w, w),
            graphs.Torus(w, w), graphs.RandomRing(j.N, seed=1)]


@op
def point_clouds(j):
    from pygsp import graphs
    return [graphs.Sphere(nb_pts=j.N, seed=1), graphs.Cube(nb_pts=j.N, seed=1),
            graphs.TwoMoons("synthesized", N=j.N // 2, seed=1)]


@op
def patches(j):
    from pygsp import graphs
    w = int(np.sqrt(j.N))
    img = j.rng.uniform(size=(w, w))
    return [graphs.ImgPatches(img, k=4), graphs.Grid2dImgPatches(img, k=4)]


@op
def barabasi_albert(j):
    from pygsp import graphs
    if j.rng.uniform() < .7:
        return "skip"
    return graphs.BarabasiAlbert(j.N // 2, m0=2, m=2, seed=1)


@op
def plot(j):
    import matplotlib.pyplot as plt
    if j.kind == "directed":
        return "skip"
    j.g.set_coordinates(j.xy)

    def run():
        j.g.plot(j.s)
        plt.close("all")
    return run


@op
def filter_plot(j):
    import matplotlib.pyplot as plt

    def run():
        filters_bank(j).plot(eigenvalues=False)
        plt.close("all")
    return run


@op
def set_signals(j):
    for k in range(3):
        j.g.set_signal(j.s, f"s{k}")
    return j.g.subgraph(np.arange(j.N))


# Where the operations apply.
ONLY = dict(partial_basis=["ring", "tree"], interpolation=["ring", "tree", "star"], line_graph=["ring", "grid"],
            components=["grid", "ring", "tree", "star"], tikhonov=["grid", "ring", "tree", "star"],
            classification=["grid", "ring", "tree", "star"], plot=["grid", "ring", "tree", "star", "random"])


def peak(name, seed, kind, N):
    """Peak of the memory allocated by the operation; None when skipped."""
    j = Job(seed, kind, N)
    f = OPS[name]
    deferred = name in ("from_networkx", "line_graph", "plot", "filter_plot")
    g = f(j) if deferred else None
    if isinstance(g, str):
        return None, j.N, j, None
    tracemalloc.start(1)
    try:
        res = g() if deferred else f(j)
        p = tracemalloc.get_traced_memory()[1]
    finally:
        tracemalloc.stop()
    if isinstance(res, str):
        return None, j.N, j, None
    return p, j.N, j, res


def sparsity(ctx, res, N, what):
    from pygsp import graphs
    for g in res if isinstance(res, (list, tuple)) else [res]:
        if isinstance(g, graphs.Graph):
            for k in ("W", "L", "A"):
                M = getattr(g, k)
                ctx.ok(sparse.issparse(M), "sparse-matrix", lambda: f"{what}: {k} is {type(M).__name__}")
                ctx.ok(M.nnz <= 40 * g.N + 2 * g.W.nnz, "sparse-matrix", lambda: f"{what}: {k} has {M.nnz} entries")
            if g._D is not None:
                ctx.ok(sparse.issparse(g._D), "sparse-matrix", lambda: f"{what}: D is {type(g._D).__name__}")


@R.family(quick=160, thorough=1500, timeout=300)
def growth(ctx, rng):
    name = sorted(OPS)[ctx.rng_index % len(OPS)]
    kinds = ONLY.get(name, ["grid", "ring", "tree", "star", "random", "directed"])
    kind = str(rng.choice(kinds))
    N = int(rng.integers(900, 1200))
    seed = int(rng.integers(2 ** 31))
    ctx.describe(op=name, kind=kind, N=N, seed=seed)
    warm, *_ = peak(name, seed, kind, 150)
    if warm is None:
        ctx.skip("not for this graph")
    small, n1, _, _ = peak(name, seed, kind, N)
    large, n2, j, res = peak(name, seed, kind, 4 * N)
    if small is None or large is None:
        ctx.skip("not for this graph")
    ctx.note("measured:" + name)
    limit = 6 * small + .4 * n2 ** 2
    ctx.ok(large <= limit, "linear-memory",
           lambda: f"{name} on {kind}: {small} bytes for {n1} vertices, {large} for {n2}; dense is {8 * n2 ** 2}")
    sparsity(ctx, res, n2, name)
    sparsity(ctx, j.g, n2, name)
