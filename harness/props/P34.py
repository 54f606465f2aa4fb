"""P34: results depend on the values of the arguments, not on how they are represented."""
import numpy as np
from scipy import sparse

import gen
import ref
from core import Registry
from props.P28 import freeze

R = Registry()
TECHNIQUE = ("runtime monitoring: differential runs of the public functions on the same values in other dtypes, memory orders, "
             "strides, byte orders, read-only or list form; the answers must be equal")
R.rule = "seeded graphs and argument values x random representations of every argument; distinct by content hash"
R.assumptions = ["lists and tuples are only used where the documentation says array_like, list or iterable",
                 "single precision arguments are allowed single precision results",
                 "values are small integers or dyadic fractions, exactly representable in every dtype used"]


# ---------------------------------------------------------------- representations
def layouts(rng, a):
    """The same array, stored differently."""
    k = int(rng.integers(8))
    if k == 0:
        return "fortran", np.asfortranarray(a)
    if k == 1:
        b = np.empty(tuple(2 * s for s in a.shape), a.dtype)
        b[...] = 99 if a.dtype != bool else True
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return "strided", v
    if k == 2:
        return "reversed", np.ascontiguousarray(a[::-1])[::-1]
    if k == 3:
        b = a.copy()
        b.flags.writeable = False
        return "readonly", b
    if k == 4:
        return "swapped", a.astype(a.dtype.newbyteorder(">"))
    if k == 5:
        b = np.empty(a.nbytes + 1, np.uint8)[1:].view(a.dtype).reshape(a.shape)
        b[...] = a
        return "unaligned", b
    if k == 6:
        b = np.broadcast_to(a, (2,) + a.shape)[0]
        return "broadcast", b
    return "plain", a.copy()


def dtypes(rng, a):
    """The same values in another type able to hold them."""
    out = ["float64", "float64", "float32"]
    if np.array_equal(a, np.round(a)):
        out += ["int64", "int32", "int16", "int8"]
        if (a >= 0).all():
            out += ["uint8", "uint16", "uint64"]
            if (a <= 1).all():
                out += ["bool"]
    out = [t for t in out if np.array_equal(a.astype(t).astype(float), a)]
    t = str(rng.choice(out))
    return t, a.astype(t)


def real(rng, a, like=True):
    """Representations of real numbers.  like: lists are documented."""
    a = np.asarray(a, float)
    t, b = dtypes(rng, a)
    if like and rng.uniform() < .3:
        x = b.tolist()
        if rng.uniform() < .5 and isinstance(x, list):
            return f"tuple {t}", tuple(x)
        if b.ndim == 2 and rng.uniform() < .5:
            return f"list of arrays {t}", [np.array(v) for v in b]
        return f"list {t}", x
    k, b = layouts(rng, b)
    return f"{t} {k}", b


def array(rng, a):
    return real(rng, a, like=False)


def index(rng, a):
    a = np.asarray(a)
    k = int(rng.integers(7))
    if k == 0:
        return "list", a.tolist()
    if k == 1:
        return "list of numpy", list(a)
    t = str(rng.choice(["int64", "int32", "int16", "uint8", "uint32"]))
    n, b = layouts(rng, a.astype(t))
    return f"{t} {n}", b


def mask(rng, a):
    return "bool", layouts(rng, np.asarray(a, bool))[1]


def number(rng, x):
    """A scalar."""
    t = ["float", "float64", "0-d", "int", "int32", "int64"][int(rng.integers(6))]
    if t in ("int", "int32", "int64") and (x != int(x) or x < 0):
        t = "float64"
    return t, {"float": float, "float64": np.float64, "0-d": lambda v: np.array(float(v)), "int": int, "int32": np.int32,
               "int64": np.int64}[t](x)


def integer(rng, x):
    t = ["int", "int32", "int64", "int16"][int(rng.integers(4))]
    return t, (int if t == "int" else getattr(np, t))(x)


def matrix(rng, W):
    """A sparse matrix or array_like."""
    t, a = dtypes(rng, np.asarray(W, float))
    k = int(rng.integers(10))
    if k < 3:
        n, b = layouts(rng, a)
        if n != "swapped":  # SciPy has no byte-swapped sparse matrices
            return f"{t} {n}", b
        return f"{t} plain", a
    if k == 3:
        return f"{t} list", a.tolist()
    fmt = str(rng.choice(["csr", "csc", "coo", "lil", "dok", "dia", "bsr"]))
    if k < 8:
        return f"{t} {fmt}", getattr(sparse, fmt + "_matrix")(a)
    if k == 8:
        return f"{t} {fmt} array", getattr(sparse, fmt + "_array")(a)
    m = sparse.coo_matrix(a)
    i = rng.permutation(m.nnz)
    m = sparse.coo_matrix((m.data[i], (m.row[i].astype(np.int64), m.col[i].astype(np.int64))), shape=m.shape)
    return f"{t} shuffled coo", m


def lap(rng, W):
    """Sparse matrices only."""
    fmt = str(rng.choice(["csr", "csc", "coo", "lil", "dok"]))
    return fmt, getattr(sparse, fmt + "_matrix")(np.asarray(W, float))


def some(rng, shape, lo=-8, hi=9):
    """Values every dtype can hold (or their quarters)."""
    a = rng.integers(lo, hi, shape).astype(float)
    return a / 4 if rng.uniform() < .4 else a


# ---------------------------------------------------------------- catalogue
# name: function(rng, G) -> (call(**args), {name: (representations, value)})
OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


def shape(rng, n):
    return (n,) + [(), (1,), (3,), (2, 2)][int(rng.integers(4))]


def bank(rng, G):
    return gen.filterbank(rng, G)[2]


def method(rng):
    return str(rng.choice(["exact", "chebyshev"]))


@op
def construct(rng, G):
    from pygsp import graphs
    # The weights fit in the smallest types, but their sums do not.
    W = some(rng, (G.N, G.N), 0, int(rng.choice([2, 5, 5, 64, 128, 256]))) * (rng.uniform(size=(G.N, G.N)) < .4)
    if rng.uniform() < .5:
        W = W + W.T
    t = str(rng.choice(["combinatorial", "normalized"]))
    xy = some(rng, (G.N, int(rng.integers(2, 4))))

    def call(adjacency, coords):
        g = graphs.Graph(adjacency, lap_type=t, coords=coords)
        s, r, w = g.get_edge_list()
        return [g.W, g.L, g.d, g.dw, g.A, g.n_edges, g.is_directed(), g.is_weighted(), g.is_connected(), s, r, w, g.coords,
                g.has_loops()]
    return call, dict(adjacency=(matrix, W), coords=(real, xy))


@op
def transform(rng, G):
    s = some(rng, shape(rng, G.N))
    return lambda s: [G.gft(s), G.igft(s)], dict(s=(real, s))


@op
def differential(rng, G):
    s, y = some(rng, shape(rng, G.N)[:2]), some(rng, shape(rng, G.n_edges)[:2])
    x = some(rng, (G.N,))
    return lambda s, y, x: [G.grad(s), G.div(y), G.dirichlet_energy(x)], dict(s=(real, s), y=(real, y), x=(real, x))


@op
def signals(rng, G):
    from pygsp import graphs
    s = some(rng, (G.N,))
    v = rng.permutation(G.N)[:int(rng.integers(1, G.N + 1))]
    H = graphs.Graph(G.W)

    def call(signal, vertices):
        H.set_signal(signal, "s")
        K = H.subgraph(vertices)
        return [H.signals["s"], K.signals["s"], K.W, K.L]
    return call, dict(signal=(real, s), vertices=(index, v))


@op
def coordinates(rng, G):
    from pygsp import graphs
    H = graphs.Graph(G.W)
    c = some(rng, (G.N, int(rng.integers(1, 4))))
    if c.shape[1] == 1:
        c = c[:, 0]

    def call(kind):
        H.set_coordinates(kind)
        return H.coords
    return call, dict(kind=(real, c))


@op
def spring(rng, G):
    from pygsp import graphs
    H = graphs.Graph(G.W)
    pos = rng.permutation(4 * G.N)[:2 * G.N].reshape(-1, 2) / 4.
    c = some(rng, (1, 2))
    f = rng.permutation(G.N)[:2]

    def call(pos, center, fixed, scale, k):
        H.set_coordinates("spring", pos=pos, fixed=fixed, iterations=4, seed=1, k=k)
        a = H.coords
        H.set_coordinates("spring", center=center, iterations=4, seed=1, scale=scale)
        return [a, H.coords]
    return call, dict(pos=(array, pos), center=(array, c), fixed=(index, f), scale=(number, 2), k=(number, .5))


@op
def filtering(rng, G):
    f = bank(rng, G)
    sh = [(), (1,), (3,), (2, 1)][int(rng.integers(4))]
    if f.Nf > 1 and rng.uniform() < .4:
        sh = (2, f.Nf)
    m = method(rng)
    return lambda s, order: f.filter(s, method=m, order=order), dict(s=(real, some(rng, (G.N,) + sh)), order=(integer, 12))


@op
def analysis(rng, G):
    f = bank(rng, G)
    m = method(rng)
    s, c = some(rng, (G.N,)), some(rng, (G.N, 2, f.Nf))
    return lambda s, c: [f.analyze(s, method=m), f.synthesize(c, method=m)], dict(s=(real, s), c=(real, c))


@op
def response(rng, G):
    from pygsp import filters
    # Some names of banks have kernels defined on integers only through their float value.
    f = bank(rng, G)
    x = rng.integers(0, max(1, min(100, int(G.lmax))) + 1, [(5,), (2, 3), (1,)][int(rng.integers(3))]).astype(float)
    if x.max() > G.lmax:
        x = x * 0
    t = [float, np.int64, np.uint16, np.int32]

    def points(rng, a):
        if rng.uniform() < .3:
            return "list", a.tolist()
        d = t[int(rng.integers(4))]
        n, b = layouts(rng, a.astype(d))
        return f"{d.__name__} {n}", b
    return lambda x: [f.evaluate(x), f(x), f.estimate_frame_bounds(x)], dict(x=(points, x))


@op
def vertex(rng, G):
    f = bank(rng, G)
    m = method(rng)
    return lambda i: f.localize(i, method=m), dict(i=(integer, int(rng.integers(G.N))))


@op
def design(rng, G):
    """Parameters of the filters."""
    from pygsp import filters
    G.estimate_lmax("bounds") if G._lmax is None else None
    x = np.linspace(0, G.lmax, 17)

    def seq(rng, v):
        k = int(rng.integers(4))
        v = np.asarray(v, float)
        t, b = dtypes(rng, v)
        return [("list", b.tolist()), ("tuple", tuple(b.tolist())), (f"list {t}", list(b)), (f"{t}", layouts(rng, b)[1])][k]
    k = int(rng.integers(13))
    one = float(rng.integers(1, 9)) / (4 if rng.uniform() < .5 else 1)
    three = np.sort(rng.choice(np.arange(1., 12.), 3, replace=False))
    n = int(rng.integers(3, 7))
    scales = np.sort(rng.choice(np.arange(1., 30.), n - 1, replace=False))[::-1].copy()
    if k == 0:
        return lambda scale: filters.Heat(G, scale).evaluate(x), dict(scale=(seq, three))
    if k == 1:
        return lambda scale: filters.Heat(G, scale, normalize=True).evaluate(x), dict(scale=(number, one))
    if k == 2:
        return lambda time, speed: filters.Wave(G, time, speed).evaluate(x), dict(time=(seq, three), speed=(number, 1))
    if k == 3:
        return lambda time, speed: filters.Wave(G, time, speed).evaluate(x), dict(time=(seq, three), speed=(seq, [1, .5, .25]))
    if k == 4:
        return lambda scales, Nf: filters.MexicanHat(G, Nf, scales=scales).evaluate(x), dict(scales=(seq, scales), Nf=(integer, n))
    if k == 5:
        return lambda scales, Nf: filters.Meyer(G, Nf, scales=scales).evaluate(x), dict(scales=(real, scales), Nf=(integer, n))
    if k == 6:
        return lambda scales, Nf: filters.Abspline(G, Nf, scales=scales).evaluate(x), dict(scales=(seq, scales), Nf=(integer, n))
    if k == 7:
        s3 = np.r_[0, np.sort(rng.choice(np.arange(1, 12), n - 1, replace=False))] / 4.
        return lambda scales, Nf: filters.SimpleTight(G, Nf, scales=scales).evaluate(x), \
            dict(scales=(seq, s3), Nf=(integer, n)) if rng.uniform() < 0 else dict(scales=(real, s3[1:]), Nf=(integer, n))
    if k == 8:
        return lambda a, d: [filters.Held(G, a).evaluate(x), filters.Simoncelli(G, a).evaluate(x),
                             filters.Papadakis(G, a).evaluate(x), filters.Regular(G, d).evaluate(x)], \
            dict(a=(number, .5), d=(integer, int(rng.integers(0, 5))))
    if k == 9:
        lo = .25 if rng.uniform() < .5 else 0
        return lambda lo, hi, slope: [filters.Expwin(G, lo, hi, slope).evaluate(x), filters.Rectangular(G, lo, hi).evaluate(x)], \
            dict(lo=(number, lo), hi=(number, .75 if rng.uniform() < .5 else 1), slope=(number, one))
    if k == 10:
        return lambda n, o: filters.Itersine(G, n, o).evaluate(x), dict(n=(integer, n), o=(integer, 2))
    if k == 11:
        return lambda n: filters.HalfCosine(G, n).evaluate(x), dict(n=(integer, n))
    return lambda n, p: [filters.MexicanHat(G, n, lpfactor=p).evaluate(x), filters.Abspline(G, n, lpfactor=p).evaluate(x)], \
        dict(n=(integer, n), p=(number, 20))


@op
def polynomial(rng, G):
    from pygsp.filters import approximations as ap
    f = bank(rng, G)
    c = np.atleast_2d(ap.compute_cheby_coeff(f, m=8))
    s = some(rng, (G.N,) + [(), (3,)][int(rng.integers(2))])
    b = np.sort(rng.choice(np.arange(0, 5), 2, replace=False)) * G.lmax / 4

    def coefs(rng, c):
        k = int(rng.integers(4))
        return [("list", list(c)), ("lists", c.tolist()), ("tuple", tuple(c)), ("array", layouts(rng, c)[1])][k]

    def bounds(rng, b):
        return [("list", b.tolist()), ("tuple", tuple(b)), ("array", layouts(rng, b)[1])][int(rng.integers(3))]
    return lambda c, s, b, m: [ap.cheby_op(G, c, s), ap.cheby_rect(G, b, s, order=m), ap.compute_cheby_coeff(f, m=m)], \
        dict(c=(coefs, c), s=(array, s), b=(bounds, b), m=(integer, 9))


@op
def jackson(rng, G):
    from pygsp.filters import approximations as ap

    def ends(rng, b):
        return [("list", b.tolist()), ("tuple", tuple(b)), ("array", layouts(rng, b)[1]), ("int", b.astype(int)),
                ("ints", b.astype(int).tolist())][int(rng.integers(5))]
    b = np.sort(rng.choice(np.arange(0, 9), 2, replace=False)).astype(float)
    return lambda b, d, m: ap.compute_jackson_cheby_coeff(b, d, m), dict(b=(ends, b), d=(ends, np.array([0., 8])), m=(integer, 6))


def mask_for(rng, G):
    M = rng.uniform(size=G.N) < .6
    L = G.L.toarray()
    for c in ref.components(L - np.diag(np.diag(L))):
        M[c[0]] = True
    return M


@op
def regression(rng, G):
    from pygsp import learning
    y = some(rng, (G.N,) + [(), (2,)][int(rng.integers(2))])
    t = float(rng.choice([0, 1, 2.5]))
    return lambda y, M, tau: learning.regression_tikhonov(G, y, M, tau), \
        dict(y=(array, y), M=(mask, mask_for(rng, G)), tau=(number, t))


@op
def classification(rng, G):
    from pygsp import learning
    M = mask_for(rng, G)
    y = rng.integers(0, 3, G.N).astype(float)
    t = float(rng.choice([0, 1, 2.5]))
    return lambda y, M, tau: learning.classification_tikhonov(G, y, M, tau), dict(y=(array, y), M=(mask, M), tau=(number, t))


@op
def simplex(rng, G):
    from pygsp import learning
    M = mask_for(rng, G)
    y = rng.integers(0, 3, G.N).astype(float)
    y[:3] = [0, 1, 2]
    M[:3] = True
    return lambda y, M, tau: learning.classification_tikhonov_simplex(G, y, M, tau, maxit=20, verbosity="NONE"), \
        dict(y=(array, y), M=(mask, M), tau=(number, float(rng.choice([1, .5]))))


def plain(G):
    W = G.W.toarray()
    return not ref.directed(W) and len(ref.components(W)) == 1 and G.N >= 4 and G.lap_type == "combinatorial" \
        and not G.has_loops() and W.min() >= 0


@op
def kron(rng, G):
    from pygsp import reduction
    if not plain(G):
        return None
    v = np.sort(rng.permutation(G.N)[:int(rng.integers(2, G.N))])

    def both(ind, L):
        a, b = reduction.kron_reduction(G, ind), reduction.kron_reduction(L, ind)
        return [a.W, b]
    return both, dict(ind=(index, v), L=(lap, G.L.toarray()))


@op
def interpolation(rng, G):
    from pygsp import reduction
    if not plain(G):
        return None
    v = np.sort(rng.permutation(G.N)[:int(rng.integers(2, G.N))])
    f = some(rng, (len(v),) + [(), (2,)][int(rng.integers(2))])
    return lambda f, v: reduction.interpolate(G, f, v, order=15), dict(f=(array, f), v=(index, v))


@op
def sparsify(rng, G):
    from pygsp import reduction
    if not plain(G):
        return None
    return lambda L, e, s: reduction.graph_sparsify(L, e, seed=s), dict(L=(lap, G.L.toarray()), e=(number, .75), s=(integer, 5))


@op
def pyramid(rng, G):
    from pygsp import reduction, graphs
    if not plain(G) or G.N < 8:
        return None
    Gs = reduction.graph_multiresolution(graphs.Graph(G.W), 1, sparsify=False, compute_full_eigen=True)
    s = some(rng, (G.N,))
    ca, pe = reduction.pyramid_analysis(Gs, s, method="exact")
    return lambda s, c, p: [reduction.pyramid_analysis(Gs, s, method="exact"), reduction.pyramid_synthesis(Gs, c, p, method="exact")], \
        dict(s=(array, s), c=(lambda r, a: layouts(r, a), ca[-1]), p=(lambda r, a: ("list", [layouts(r, v)[1] for v in a]), pe))


@op
def symmetrization(rng, G):
    from pygsp import utils
    W = some(rng, (G.N, G.N)) * (rng.uniform(size=(G.N, G.N)) < .5)
    how = str(rng.choice(["average", "maximum", "fill", "tril", "triu"]))

    def mat(rng, a):
        while True:
            k, m = matrix(rng, a)
            if not k.endswith("list") and "dia" not in k:  # SciPy adds truncated diagonals wrongly
                return k, m
    return lambda W: utils.symmetrize(W, how), dict(W=(mat, W))


@op
def distances(rng, G):
    from pygsp import utils
    x, y = some(rng, (2, 5)), some(rng, (2, 3))
    z = some(rng, (2, 6))
    z[0, 0] += 1
    return lambda x, y, z: [utils.distanz(x, y), utils.distanz(x), utils.rescale_center(z)], \
        dict(x=(array, x), y=(array, y), z=(array, z))


@op
def resistance(rng, G):
    from pygsp import utils
    if not plain(G):
        return None
    return lambda L: utils.resistance_distance(L), dict(L=(lap, G.L.toarray()))


@op
def logscale(rng, G):
    from pygsp import utils
    return lambda lmin, lmax, n: utils.compute_log_scales(lmin, lmax, n), \
        dict(lmin=(number, 1), lmax=(number, 8), n=(integer, 5))


@op
def neighbours(rng, G):
    from pygsp import graphs
    n = int(rng.integers(8, 16))
    X = rng.permutation(8 * n)[:2 * n].reshape(n, 2) / (4. if rng.uniform() < .5 else 1)
    kind = str(rng.choice(["knn", "radius"]))
    kw = dict(center=bool(rng.integers(2)), rescale=False)

    def call(X, k, sigma, eps):
        g = graphs.NNGraph(X, NNtype=kind, k=k, sigma=sigma, epsilon=eps, **kw)
        return [g.W, g.coords]
    return call, dict(X=(array, X), k=(integer, 3), sigma=(number, 10), eps=(number, 1000))


@op
def images(rng, G):
    from pygsp import graphs
    img = some(rng, (5, 4), 0, 9) + np.arange(20).reshape(5, 4)

    def call(img, shape):
        a, b = graphs.ImgPatches(img, patch_shape=shape, k=4, rescale=False, sigma=9), graphs.Grid2dImgPatches(img, patch_shape=shape)
        return [a.W, b.W]

    def pair(rng, p):
        return [("tuple", tuple(p)), ("list", list(p)), ("numpy", np.array(p)), ("ints", tuple(np.int32(v) for v in p))][
            int(rng.integers(4))]
    def exact(rng, a):
        while True:  # the neighbours are sensitive to rounding
            k, b = array(rng, a)
            if "float32" not in k:
                return k, b
    return call, dict(img=(exact, img), shape=(pair, (3, 3)))


@op
def blocks(rng, G):
    from pygsp import graphs
    n = int(rng.integers(8, 20))
    z = np.sort(rng.integers(0, 3, n))
    M = rng.integers(1, 4, (3, 3)) / 4.
    M = np.triu(M) + np.triu(M, 1).T
    p = rng.integers(1, 4, 3) / 4.

    def call(N, k, z, M, p, q, seed):
        return [graphs.StochasticBlockModel(N, k, z=z, M=M, seed=seed).W, graphs.StochasticBlockModel(N, k, z=z, p=p, q=q, seed=seed).W]
    return call, dict(N=(integer, n), k=(integer, 3), z=(index, z), M=(real, M), p=(real, p), q=(number, .25), seed=(integer, 7))


@op
def angles(rng, G):
    from pygsp import graphs
    a = rng.permutation(24)[:9] / 4.
    return lambda a: graphs.RandomRing(9, a).W, dict(a=(real, a))


@op
def sizes(rng, G):
    """Integer parameters of the models."""
    from pygsp import graphs
    n, k, s = int(rng.integers(6, 14)), int(rng.integers(2, 4)), int(rng.integers(0, 50))
    m = str(rng.choice(["Ring", "Path", "Grid2d", "Torus", "Star", "Comet", "FullConnected", "LowStretchTree", "Sensor",
                        "RandomRegular", "BarabasiAlbert", "ErdosRenyi", "Community", "SwissRoll", "Sphere", "Cube", "TwoMoons",
                        "DavidSensorNet", "RandomRing"]))
    f = {"Ring": lambda n, k, s, p: graphs.Ring(n, k), "Path": lambda n, k, s, p: graphs.Path(n),
         "Grid2d": lambda n, k, s, p: graphs.Grid2d(n, k, diagonal=p), "Torus": lambda n, k, s, p: graphs.Torus(n, n),
         "Star": lambda n, k, s, p: graphs.Star(n), "Comet": lambda n, k, s, p: graphs.Comet(n, k),
         "FullConnected": lambda n, k, s, p: graphs.FullConnected(n), "LowStretchTree": lambda n, k, s, p: graphs.LowStretchTree(k),
         "Sensor": lambda n, k, s, p: graphs.Sensor(n, k=k, seed=s),
         "RandomRegular": lambda n, k, s, p: graphs.RandomRegular(2 * n, k, seed=s),
         "BarabasiAlbert": lambda n, k, s, p: graphs.BarabasiAlbert(n, m0=k, m=k, seed=s),
         "ErdosRenyi": lambda n, k, s, p: graphs.ErdosRenyi(n, p, seed=s),
         "Community": lambda n, k, s, p: graphs.Community(5 * n, Nc=k, world_density=p / 8, comm_density=p, min_comm=4, seed=s),
         "SwissRoll": lambda n, k, s, p: graphs.SwissRoll(n, dim=k, seed=s),
         "Sphere": lambda n, k, s, p: graphs.Sphere(radius=p, nb_pts=n + 6, seed=s),
         "Cube": lambda n, k, s, p: graphs.Cube(radius=p, nb_pts=n + 6, seed=s),
         "TwoMoons": lambda n, k, s, p: graphs.TwoMoons("synthesized", N=n, sigmad=p / 4, distance=p, seed=s),
         "DavidSensorNet": lambda n, k, s, p: graphs.DavidSensorNet(n, seed=s),
         "RandomRing": lambda n, k, s, p: graphs.RandomRing(n, seed=s)}[m]
    v = float(rng.choice([.25, .5, 1])) if m != "Community" else .5

    def call(**kw):
        g = f(**kw)
        return [g.W, getattr(g, "coords", None), g.signals]
    return call, dict(n=(integer, n), k=(integer, k), s=(integer, s), p=(number, v))


@op
def partial(rng, G):
    from pygsp import graphs

    def call(k):
        H = graphs.Graph(G.W, lap_type=G.lap_type)
        H.compute_fourier_basis(k)
        return np.r_[H.e, G.e[-1]]
    return call, dict(k=(integer, int(rng.integers(1, G.N))))


@op
def spectral_features(rng, G):
    from pygsp import features
    if G.N > 16:
        return None

    def call(M):
        return features.compute_spectrogram(G, M=M)
    return call, dict(M=(integer, 4))


@op
def drawing(rng, G):
    import matplotlib.pyplot as plt
    from pygsp import graphs
    if ref.directed(G.W.toarray()) or not G.n_edges or G.has_loops():
        return None
    H = graphs.Graph(G.W, coords=rng.normal(size=(G.N, 2)))
    s, z = some(rng, (G.N,)), rng.integers(0, 9, G.N).astype(float)
    s[:2] = [-7, 5]
    z[:2] = [0, 8]
    w, c = rng.integers(0, 9, G.n_edges).astype(float), some(rng, (G.n_edges,))
    c[0] = -7
    h = rng.permutation(G.N)[:3]

    def call(s, z, w, c, h, limits):
        fig, ax = plt.subplots()
        try:
            H.plot(s, z, h, edges=True, edge_color=c, edge_width=w, limits=limits, ax=ax)
            fig.canvas.draw()
            return [[np.array(p.get_facecolors()) if hasattr(p, "get_facecolors") else None,
                     np.array(p.get_edgecolor()), np.array(p.get_linewidths(), float),
                     np.array(p.get_sizes(), float) if hasattr(p, "get_sizes") else None,
                     np.array(p.get_offsets(), float)] for p in ax.collections] + [ax.get_title()]
        finally:
            plt.close("all")
    return call, dict(s=(real, s), z=(real, z), w=(real, w), c=(real, c), h=(index, h), limits=(real, np.array([-8., 8.])))


@op
def spectrum_plot(rng, G):
    import matplotlib.pyplot as plt
    from pygsp import graphs
    H = graphs.Path(G.N)
    s = some(rng, (G.N,))

    def call(s, h):
        fig, ax = plt.subplots()
        try:
            H.set_coordinates("line1D")
            H.plot(s, highlight=h, ax=ax)
            return [[np.array(l.get_xdata(), float), np.array(l.get_ydata(), float)] for l in ax.lines]
        finally:
            plt.close("all")
    return call, dict(s=(real, s), h=(index, rng.permutation(G.N)[:2]))


# ---------------------------------------------------------------- monitor
def values(x):
    """Only what the numbers are."""
    x = freeze(x)
    if isinstance(x, (list, tuple)):
        return [values(v) for v in x]
    if isinstance(x, dict):
        return {k: values(v) for k, v in x.items()}
    if isinstance(x, (bool, int, float, np.generic)):
        return np.asarray(x)
    return x


def same(a, b, tol):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, np.ndarray):
        b = np.asarray(b)
        if a.shape != b.shape or b.dtype == object:
            return False
        if a.dtype == object:
            return repr(a) == repr(b)
        a, b = a.astype(float), b.astype(float)
        m = np.isfinite(a)
        if (np.isfinite(b) != m).any():
            return False
        sc = np.abs(a[m]).max(initial=0)
        return bool(np.all(np.abs(a[m] - b[m]) <= tol * max(sc, 1e-300)))
    return repr(a) == repr(b)


@R.family(quick=1600, thorough=40000)
def representation(ctx, rng):
    import warnings
    name = sorted(OPS)[int(rng.integers(len(OPS)))]
    G, W, d = gen.spectral_graph(rng, nmin=4, nmax=14, models=0, scaled=False, connected=bool(rng.uniform() < .6),
                                 directed=False if rng.uniform() < .7 else None, loops=False if rng.uniform() < .7 else None,
                                 lap="combinatorial" if rng.uniform() < .6 else None)
    if not (G.L.toarray() != 0).any():
        ctx.skip("no edge")
    G.compute_fourier_basis()
    made = OPS[name](rng, G)
    if made is None:
        ctx.skip("not for this graph")
    call, args = made
    # the plain representation first
    plain_ = {}
    for k, (how, v) in args.items():
        if how is integer:
            plain_[k] = int(v)
        elif how is number:
            plain_[k] = float(v)
        elif how is matrix:
            plain_[k] = np.array(v, float)
        elif how is lap:
            plain_[k] = sparse.csr_matrix(v)
        elif how is mask:
            plain_[k] = np.array(v, bool)
        elif how is index:
            plain_[k] = np.array(v)
        elif isinstance(v, (list, tuple)):
            plain_[k] = v
        else:
            plain_[k] = np.array(v, float)
    ctx.describe(op=name, W=W, args=repr({k: np.asarray(v).tolist() if isinstance(v, np.ndarray) else repr(v)
                                          for k, v in plain_.items()}))
    ctx.note(name)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        want = values(call(**plain_))
        for _ in range(4):
            kinds, given = {}, {}
            for k, (how, v) in args.items():
                if rng.uniform() < .25:
                    given[k] = plain_[k]
                else:
                    kinds[k], given[k] = how(rng, v)
            what = lambda: f"{name} {kinds} "
            try:
                got = values(call(**given))
            except Exception as e:
                ctx.ok(False, "representation-accepted", lambda: f"{what()}: {type(e).__name__}: {e}")
            tol = 3e-4 if any("float32" in v for v in kinds.values()) else 1e-8
            if name in ("regression", "classification", "simplex", "interpolation"):
                tol = max(tol, 1e-4)
            ctx.ok(same(want, got, tol), "representation-independent", lambda: f"{what()}: {want} became {got}")
            ctx.note("representations", len(kinds))
