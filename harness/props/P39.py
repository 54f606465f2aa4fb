"""P39: omitted arguments act as their documented defaults; positions follow the documented order."""
import warnings

import numpy as np
from scipy import sparse

import gen
from core import Registry

R = Registry()
TECHNIQUE = ("runtime monitoring: twin-run oracle; the same call is executed with arguments omitted, passed as their documented "
             "default, passed by name and passed by position, and the observed answers are compared")
R.rule = "callable x subset of omitted arguments x values of the others x seed; distinct by content hash"
R.assumptions = ["documented defaults are those of the reference documentation at the pinned commit (TwoMoons's N and sigmad, "
                 "for which the text and the signature disagree, are left out)",
                 "random models are given a seed, and estimates of lmax by Lanczos are replaced by bounds or the exact value"]


class Opt:
    """An optional argument: its documented default (a value, or a function of the other arguments) and other valid values."""

    def __init__(self, name, default, other, derived=False, often=.5):
        self.name, self.default, self.other, self.derived, self.often = name, default, other, derived, often


def integers(lo, hi):
    return lambda r: int(r.integers(lo, hi))


def reals(lo, hi):
    return lambda r: float(np.round(r.uniform(lo, hi), 3))


def boolean(r):
    return bool(r.integers(2))


def one_of(*values):
    return lambda r: values[int(r.integers(len(values)))]


SEED = Opt("seed", None, integers(0, 1000), often=2)  # Always given.


def knn(**first):
    return [Opt("NNtype", "knn", one_of("knn", "radius")), Opt("use_flann", False, one_of(False)),
            Opt("center", True, boolean), Opt("rescale", True, boolean), Opt("k", 10, integers(2, 6)),
            Opt("sigma", None, reals(.2, 2)), Opt("epsilon", .01, reals(.3, 2)), Opt("plotting", {}, one_of({"vertex_size": 7})),
            Opt("symmetrize_type", "average", one_of("average", "fill", "maximum")),
            Opt("dist_type", "euclidean", one_of("euclidean", "manhattan", "max_dist", "minkowski")), Opt("order", 0, integers(1, 4))]


def image(r):
    return (r.uniform(size=(int(r.integers(4, 8)), int(r.integers(4, 8)))),)


def ones(r):
    n = int(r.integers(4, 9))
    W = np.triu(r.integers(0, 3, (n, n)), 1).astype(float)
    return (W + W.T,)


MODELS = {
    "Graph": (ones, [Opt("lap_type", "combinatorial", one_of("normalized", "combinatorial")), Opt("coords", None, one_of(None)),
                     Opt("plotting", {}, one_of({"edge_width": 3.}, {"vertex_size": 20, "limits": np.array([-1, 1, -1, 1])}))]),
    "BarabasiAlbert": (None, [Opt("N", 1000, integers(8, 40), often=.95), Opt("m0", 1, integers(1, 4)), Opt("m", 1, one_of(1)), SEED]),
    "Comet": (None, [Opt("N", 32, integers(14, 50)), Opt("k", 12, integers(2, 12))]),
    "Community": (None, [Opt("N", 256, integers(30, 120), often=.8), Opt("Nc", lambda a: int(np.round(np.sqrt(a["N"]) / 2)), integers(2, 5), True),
                         Opt("min_comm", lambda a: int(np.round(a["N"] / a["Nc"] / 3)), integers(2, 6), True),
                         Opt("min_deg", None, one_of(None)), Opt("comm_sizes", None, one_of(None)), Opt("size_ratio", 1, reals(1, 3)),
                         Opt("world_density", lambda a: 1 / a["N"], reals(0, .1), True), Opt("comm_density", None, reals(.2, 1), often=.2),
                         Opt("k_neigh", None, integers(1, 5), often=.3),
                         Opt("epsilon", lambda a: np.sqrt(2 * np.sqrt(a["N"])) / 2, reals(.5, 3), True), SEED]),
    "Cube": (None, [Opt("radius", 1, reals(.5, 3)), Opt("nb_pts", 300, integers(20, 60), often=.9), Opt("nb_dim", 3, one_of(2, 3)),
                    Opt("sampling", "random", one_of("random")), SEED]),
    "Sphere": (None, [Opt("radius", 1, reals(.5, 3)), Opt("nb_pts", 300, integers(20, 60), often=.9), Opt("nb_dim", 3, one_of(2, 3)),
                      Opt("sampling", "random", one_of("random")), SEED]),
    "DavidSensorNet": (None, [Opt("N", 64, one_of(500, 64, 33), often=.6), SEED]),
    "ErdosRenyi": (None, [Opt("N", 100, integers(8, 30), often=.7), Opt("p", .1, reals(.3, .9)), Opt("directed", False, boolean),
                          Opt("self_loops", False, boolean), Opt("connected", False, boolean), Opt("n_try", 10, one_of(1, 20)), SEED]),
    "StochasticBlockModel": (None, [Opt("N", 1024, integers(8, 30), often=.97), Opt("k", 5, integers(1, 4)), Opt("z", None, one_of(None)),
                                    Opt("M", None, one_of(None)), Opt("p", .7, reals(.3, .9)),
                                    Opt("q", lambda a: .3 / a["k"], reals(.1, .5), True), Opt("directed", False, boolean),
                                    Opt("self_loops", False, boolean), Opt("connected", False, boolean),
                                    Opt("n_try", 10, one_of(1, 20)), SEED]),
    "FullConnected": (None, [Opt("N", 10, integers(1, 20))]),
    "Grid2d": (None, [Opt("N1", 16, integers(2, 12)), Opt("N2", lambda a: a["N1"], integers(2, 12), True), Opt("diagonal", 0., reals(.1, 2))]),
    "Torus": (None, [Opt("Nv", 16, integers(3, 12)), Opt("Mv", lambda a: a["Nv"], integers(3, 12), True)]),
    "Ring": (None, [Opt("N", 64, integers(3, 40)), Opt("k", 1, integers(1, 3))]),
    "Path": (None, [Opt("N", 16, integers(1, 40)), Opt("directed", False, boolean)]),
    "Star": (None, [Opt("N", 10, integers(2, 40))]),
    "LowStretchTree": (None, [Opt("k", 6, integers(1, 5), often=.8)]),
    "Minnesota": (None, [Opt("connected", True, boolean)]),
    "RandomRegular": (None, [Opt("N", 64, one_of(12, 20, 26), often=.8), Opt("k", 6, one_of(2, 4)), Opt("max_iter", 10, integers(5, 20)), SEED]),
    "RandomRing": (None, [Opt("N", 64, integers(4, 40)), Opt("angles", None, one_of(None)), SEED]),
    "Sensor": (None, [Opt("N", 64, one_of(16, 25, 36)), Opt("k", 6, integers(2, 8)), Opt("distributed", False, boolean), SEED]),
    "SwissRoll": (None, [Opt("N", 400, integers(10, 40), often=.9), Opt("a", 1, reals(.5, 3)), Opt("b", 4, reals(3.5, 8)), Opt("dim", 3, one_of(2, 3)),
                         Opt("thresh", 1e-6, reals(.01, .5)), Opt("s", lambda a: np.sqrt(2 / a["N"]), reals(.1, 2), True),
                         Opt("noise", False, boolean), Opt("srtype", "uniform", one_of("uniform", "classic")), SEED]),
    "TwoMoons": (None, [Opt("moontype", "standard", one_of("synthesized"), often=.6), Opt("dim", 2, one_of(2)), Opt("sigmag", .05, reals(.05, .5)),
                        Opt("N", 400, one_of(20, 31, 60), often=2), Opt("sigmad", .07, reals(.02, .3), often=2), Opt("distance", .5, reals(0, 1)), SEED]),
    "NNGraph": (lambda r: (r.normal(size=(int(r.integers(14, 30)), int(r.integers(1, 4)))),), knn()),
    "ImgPatches": (image, [Opt("patch_shape", (3, 3), one_of((2, 3), (1, 1), (5, 2)))]),
    "Grid2dImgPatches": (image, [Opt("aggregate", lambda a: (lambda Wp, Wg: Wp + Wg), one_of(lambda Wp, Wg: 2 * Wp + Wg), True)]),
}


def scales_default(a):
    from pygsp import utils
    return utils.compute_log_scales(a["G"].lmax / a["lpfactor"], a["G"].lmax, a["Nf"] - 1)


def tight_scales(a):
    return (1 / (2 * a["G"].lmax)) * np.power(2, np.arange(a["Nf"] - 2, -1, -1))


def meyer_scales(a):
    return (4. / (3 * a["G"].lmax)) * np.power(2., np.arange(a["Nf"] - 2, -1, -1))


NF = Opt("Nf", 6, integers(2, 9))
FILTERS = {
    "Abspline": [NF, Opt("lpfactor", 20, reals(5, 40)), Opt("scales", scales_default, lambda r: None, True, often=0)],
    "MexicanHat": [NF, Opt("lpfactor", 20, reals(5, 40)), Opt("scales", scales_default, lambda r: None, True, often=0),
                   Opt("normalize", False, boolean)],
    "Meyer": [NF, Opt("scales", meyer_scales, lambda r: None, True, often=0)],
    "SimpleTight": [NF, Opt("scales", tight_scales, lambda r: None, True, often=0)],
    "HalfCosine": [Opt("Nf", 6, integers(3, 9))],
    "Itersine": [NF, Opt("overlap", 2, one_of(2, 4))],
    "Expwin": [Opt("band_min", None, reals(0, .4)), Opt("band_max", .2, reals(.4, 1)), Opt("slope", 1, reals(.5, 3))],
    "Rectangular": [Opt("band_min", None, reals(0, .4)), Opt("band_max", .2, reals(.4, 1))],
    "Heat": [Opt("scale", 10, reals(1, 30)), Opt("normalize", False, boolean)],
    "Wave": [Opt("time", 10, integers(1, 20)), Opt("speed", 1, reals(.1, 1.9))],
    "Held": [Opt("a", 2 / 3, reals(.4, .9))],
    "Simoncelli": [Opt("a", 2 / 3, reals(.4, .9))],
    "Papadakis": [Opt("a", 3 / 4, reals(.4, .9))],
    "Regular": [Opt("degree", 3, integers(0, 6))],
}


def plans(rng, opts):
    """Which arguments are given a value of their own; the others are left to their default."""
    if rng.uniform() < .15:
        return {o.name: o.other(rng) for o in opts if o.often > 1}
    return {o.name: o.other(rng) for o in opts if rng.uniform() < o.often}


def complete(opts, given, extra=None):
    """Every argument, omitted ones by their documented default."""
    a = dict(extra or {})
    for o in opts:
        if o.name in given:
            a[o.name] = given[o.name]
        else:
            a[o.name] = o.default(a) if o.derived else o.default
    return {o.name: a[o.name] for o in opts}


def attempt(f):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return "value", f()
    except Exception as e:
        return "error", type(e).__name__


def variants(rng, opts, given, extra=None):
    """[(label, positional arguments, keyword arguments, exactly equal)]"""
    full = complete(opts, given, extra)
    derived = {o.name for o in opts if o.derived and o.name not in given}
    rest = [o.name for o in opts if o.name not in given]
    some = {n for n in rest if rng.uniform() < .5}
    names = [o.name for o in opts]
    k = int(rng.integers(1, len(names) + 1))
    shuffled = list(full.items())
    rng.shuffle(shuffled)
    out = [("all-by-name", (), dict(shuffled)),
           ("some-by-name", (), {n: full[n] for n in names if n in given or n in some}),
           ("all-by-position", tuple(full.values()), {}),
           ("first-by-position", tuple(full[n] for n in names[:k]), {n: v for n, v in given.items() if n not in names[:k]})]
    return out


def compare(ctx, got, want, mech, tol=1e-9):
    """Two answers: numbers, arrays, graphs, filter banks, images, or a sequence of those."""
    from pygsp import filters, graphs
    ctx.ok(type(got) is type(want), mech, lambda: f"{type(got)} instead of {type(want)}")
    if isinstance(want, (tuple, list)):
        ctx.ok(len(got) == len(want), mech, lambda: f"{len(got)} results instead of {len(want)}")
        for g, w in zip(got, want):
            compare(ctx, g, w, mech, tol)
    elif isinstance(want, dict):
        ctx.ok(set(got) == set(want), mech, lambda: f"{set(got)} instead of {set(want)}")
        for k in want:
            compare(ctx, got[k], want[k], mech, tol)
    elif isinstance(want, graphs.Graph):
        ctx.close(got.W, want.W, mech, tol, msg="W")
        ctx.close(got.L, want.L, mech, tol, msg="L")
        ctx.ok(got.lap_type == want.lap_type, mech, lambda: f"lap_type {got.lap_type} instead of {want.lap_type}")
        compare(ctx, getattr(got, "coords", None), getattr(want, "coords", None), mech, tol)
        compare(ctx, dict(got.signals), dict(want.signals), mech, tol)
        compare(ctx, dict(got.plotting), dict(want.plotting), mech, tol)
    elif isinstance(want, filters.Filter):
        x = np.linspace(0, want.G.lmax, 60)
        ctx.ok((got.Nf, got.n_features_in, got.n_features_out) == (want.Nf, want.n_features_in, want.n_features_out), mech)
        ctx.close(got.evaluate(x), want.evaluate(x), mech, tol)
    elif isinstance(want, np.ndarray) and want.dtype == object:
        compare(ctx, list(got.ravel()), list(want.ravel()), mech, tol)
    elif sparse.issparse(want) or isinstance(want, (np.ndarray, float, complex, np.floating)):
        ctx.close(got, want, mech, tol, scale=max(1e-12, float(np.max(np.abs(want.data if sparse.issparse(want) else want), initial=0))))
    else:
        ctx.ok(got == want, mech, lambda: f"{got!r:.200} instead of {want!r:.200}")


def judge(ctx, rng, call, opts, given, extra=None, finish=lambda x: x, tol=1e-9):
    """The call with omitted arguments, against every other way to write it."""
    base = attempt(lambda: finish(call(**given)))
    ctx.note("calls:" + base[0])
    for label, args, kw in variants(rng, opts, given, extra):
        res = attempt(lambda: finish(call(*args, **kw)))
        ctx.ok(res[0] == base[0], "same-outcome", lambda: f"{label}: {base[0]} {base[1]!r:.100} with {sorted(given)} given, but {res[0]} {res[1]!r:.100}")
        if base[0] == "error":
            ctx.ok(res[1] == base[1], "same-error", lambda: f"{label}: {base[1]}, {res[1]}")
        else:
            compare(ctx, res[1], base[1], label, tol)


@R.family(quick=200, thorough=7000)
def models(ctx, rng):
    from pygsp import graphs
    name = list(MODELS)[ctx.rng_index % len(MODELS)]
    first, opts = MODELS[name]
    pos = first(rng) if first else ()
    given = plans(rng, opts)
    if name == "BarabasiAlbert" and "m" not in given and "m0" not in given and "N" in given and rng.uniform() < .3:
        given.update(m0=3, m=2)
    if name == "NNGraph" and given.get("dist_type") == "minkowski":
        given.setdefault("order", 2)
    if name == "NNGraph" and given.get("NNtype") == "radius":
        given.setdefault("epsilon", 1.5)
    if name == "SwissRoll" and given.get("dim") == 2:
        given.pop("s", None)
    extra = {}
    forward = {}
    if name == "ImgPatches" and rng.uniform() < .5:  # Passed on to NNGraph, except for features and coordinates.
        forward = dict(k=int(rng.integers(2, 6)), dist_type="manhattan")
    elif name not in ("Graph", "Grid2dImgPatches", "ImgPatches", "NNGraph") and rng.uniform() < .2:
        forward = dict(lap_type="normalized")
    ctx.describe(model=name, pos=pos, given={k: v if not callable(v) else "callable" for k, v in given.items()}, forward=forward)
    ctx.note("model:" + name)
    judge(ctx, rng, lambda *a, **k: getattr(graphs, name)(*pos, *a, **k, **forward), opts, given, extra)


@R.family(quick=100, thorough=4000)
def banks(ctx, rng):
    from pygsp import filters
    W = gen.adjacency(rng, int(rng.integers(4, 12)), directed=False, weighted=True, loops=False)
    from pygsp import graphs
    g = graphs.Graph(W, lap_type=str(rng.choice(["combinatorial", "normalized"])))
    if g.n_edges == 0:
        ctx.skip("no edge")
    if rng.uniform() < .7:
        g.compute_fourier_basis()
    else:
        g.estimate_lmax("bounds")
    name = list(FILTERS)[ctx.rng_index % len(FILTERS)]
    opts = FILTERS[name]
    given = plans(rng, opts)
    given = {k: v for k, v in given.items() if k != "scales"}
    if "Nf" in given and name == "HalfCosine":
        given["Nf"] = max(3, given["Nf"])
    ctx.describe(bank=name, given=given, W=W)
    ctx.note("bank:" + name)
    judge(ctx, rng, lambda *a, **k: getattr(filters, name)(g, *a, **k), opts, given, dict(G=g))


# ---------------------------------------------------------------- methods and functions
class World:
    def __init__(self, rng):
        from pygsp import graphs
        while True:
            n = int(rng.integers(6, 14))
            self.W = gen.adjacency(rng, n, directed=False, weighted=True, loops=False)
            self.W = sparse.csr_matrix(self.W).toarray()
            i = np.arange(n)
            self.W[i, (i + 1) % n] = self.W[(i + 1) % n, i] = rng.uniform(.5, 2, n)
            self.n = n
            break
        self.seed = int(rng.integers(2**31))
        self.coords = rng.normal(size=(n, 2))
        self.s = rng.normal(size=n)
        self.graphs = graphs
        self.name = str(rng.choice(["Heat", "MexicanHat", "Itersine", "Abspline"]))
        self.mask = rng.permutation(np.arange(n) < max(2, n // 2))
        self.labels = rng.integers(0, 3, n)
        self.labels[np.flatnonzero(self.mask)[:2]] = 0, 1

    def graph(self, basis=True):
        g = self.graphs.Graph(self.W, coords=self.coords)
        if basis:
            g.compute_fourier_basis()
        else:
            g.estimate_lmax("bounds")
        np.random.seed(self.seed)
        return g

    def bank(self, Nf=None):
        from pygsp import filters
        return getattr(filters, self.name)(self.graph())


OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


@op
def compute_laplacian(w, rng):
    def call(*a, **k):
        g = w.graphs.Graph(w.W, lap_type="normalized" if flip else "combinatorial")
        g.compute_laplacian(*a, **k)
        return g
    flip = boolean(rng)
    return call, [Opt("lap_type", "combinatorial", one_of("normalized", "combinatorial"))]


@op
def compute_fourier_basis(w, rng):
    def call(*a, **k):
        g = w.graphs.Graph(w.W)
        g.compute_fourier_basis(*a, **k)
        return [np.array(g.e), np.abs(g.U).shape]
    return call, [Opt("n_eigenvectors", None, lambda r: int(r.integers(2, w.n)))]


@op
def estimate_lmax(w, rng):
    def call(*a, **k):
        g = w.graphs.Graph(w.W)
        g.estimate_lmax(*a, **k)
        return float(g.lmax)
    return call, [Opt("method", "lanczos", one_of("bounds"), often=.3)], 2e-2


@op
def set_coordinates(w, rng):
    def call(*a, **k):
        g = w.graph()
        g.set_coordinates(*a, **k)
        return np.array(g.coords)
    return call, [Opt("kind", "spring", one_of("random2D", "random3D", "ring2D", "laplacian_eigenmap2D")), SEED]


@op
def to_and_from_networkx(w, rng):
    import networkx as nx

    def call(*a, **k):
        g = nx.Graph()
        for i in range(w.n):
            g.add_node(i)
        for i, j in zip(*np.nonzero(np.triu(w.W))):
            g.add_edge(int(i), int(j), weight=float(w.W[i, j]), other=float(2 + w.W[i, j]))
        return w.graphs.Graph.from_networkx(g, *a, **k)
    return call, [Opt("weight", "weight", one_of("other", "missing"))]


@op
def filter(w, rng):
    which = str(rng.choice(["filter", "analyze", "synthesize"]))
    bank = w.bank()
    s = w.s if which != "synthesize" else np.stack([w.s * (1 + i) for i in range(bank.Nf)], 1)[:, None, :]
    if which == "synthesize" and bank.Nf == 1:
        s = w.s
    return (lambda *a, **k: np.array(getattr(bank, which)(s, *a, **k))), [Opt("method", "chebyshev", one_of("exact")), Opt("order", 30, integers(1, 60))]


@op
def complement(w, rng):
    bank = w.bank()
    A, B = bank.estimate_frame_bounds(bank.G.e)
    dense = bank.evaluate(np.linspace(0, bank.G.lmax, 4001))
    top = float((np.abs(dense)**2).sum(0).max())

    def call(*a, **k):
        return bank.complement(*a, **k)
    return call, [Opt("frame_bound", None, lambda r: 1.1 * top)]


@op
def estimate_frame_bounds(w, rng):
    bank = w.bank()
    return (lambda *a, **k: [float(v) for v in bank.estimate_frame_bounds(*a, **k)]), \
        [Opt("x", lambda a: np.linspace(0, bank.G.lmax, 1000), lambda r: bank.G.e, True)]


@op
def chebyshev_coefficients(w, rng):
    from pygsp.filters import approximations
    bank = w.bank()
    m = int(rng.integers(3, 12))

    def call(*a, **k):
        return np.asarray(approximations.compute_cheby_coeff(bank, *a, **k), float)
    return call, [Opt("m", 30, integers(2, 40)), Opt("N", lambda a: a["m"] + 1, lambda r: 60, True)]


@op
def log_scales(w, rng):
    from pygsp import utils
    lo, hi, n = sorted(rng.uniform(.1, 10, 2)) + [int(rng.integers(2, 7))]
    return (lambda *a, **k: utils.compute_log_scales(lo, hi, n, *a, **k)), [Opt("t1", 1, reals(.5, 1.5)), Opt("t2", 2, reals(2, 4))]


@op
def distanz(w, rng):
    from pygsp import utils
    x, y = rng.normal(size=(2, 3, 5))
    return (lambda *a, **k: utils.distanz(x, *a, **k)), [Opt("y", lambda a: x.copy(), lambda r: y, True)]


@op
def symmetrize(w, rng):
    from pygsp import utils
    W = rng.uniform(size=(6, 6)) * (rng.uniform(size=(6, 6)) < .5)
    return (lambda *a, **k: utils.symmetrize(W, *a, **k)), [Opt("method", "average", one_of("maximum", "fill", "tril", "triu"))]


@op
def sparsify(w, rng):
    from pygsp import reduction
    return (lambda *a, **k: reduction.graph_sparsify(w.graph(False), .6, *a, **k)), [Opt("maxiter", 10, integers(5, 30)), SEED]


@op
def interpolate(w, rng):
    from pygsp import reduction
    keep = np.flatnonzero(w.mask)
    values = w.s[keep]

    def call(*a, **k):
        g = w.graph(False)
        return reduction.interpolate(g, values, keep, *a, **k)
    return call, [Opt("order", 100, integers(5, 150)), Opt("reg_eps", .005, reals(.001, .1))]


@op
def multiresolution(w, rng):
    from pygsp import reduction
    levels = int(rng.integers(1, 3))

    def call(*a, **k):
        Gs = reduction.graph_multiresolution(w.graph(), levels, *a, **k)
        return [Gs[1].W if len(Gs) > 1 else None, [g.mr["idx"] for g in Gs[1:]], [g._e is None for g in Gs[1:]]]
    # Weights of the reduced graphs; eigenvalue data only where asked for.
    return call, [Opt("sparsify", True, boolean), Opt("sparsify_eps", lambda a: min(10. / np.sqrt(w.n), .3), reals(.3, .9), True),
                  Opt("downsampling_method", "largest_eigenvector", one_of("largest_eigenvector")), Opt("reduction_method", "kron", one_of("kron")),
                  Opt("compute_full_eigen", False, boolean), Opt("reg_eps", .005, reals(.001, .1))], 1e-6


@op
def pyramid(w, rng):
    from pygsp import reduction
    Gs = None
    np.random.seed(w.seed)
    Gs = reduction.graph_multiresolution(w.graph(), 2, sparsify=False)
    for g in Gs:
        g.compute_fourier_basis()

    def call(**k):
        ca, pe = reduction.pyramid_analysis(Gs, w.s, method="exact", **k)
        return [list(ca), list(pe)]
    return call, [Opt("h_filters", lambda a: (lambda x: 1 / (2 * x + 1)), one_of(lambda x: np.exp(-x)), True),
                  Opt("reg_eps", .005, reals(.001, .1))], 1e-7, "names"


@op
def pyramid_synthesis(w, rng):
    from pygsp import reduction
    np.random.seed(w.seed)
    Gs = reduction.graph_multiresolution(w.graph(), 2, sparsify=False)
    for g in Gs:
        g.compute_fourier_basis()
    ca, pe = reduction.pyramid_analysis(Gs, w.s, method="exact")

    def call(*a, **k):
        rec, c = reduction.pyramid_synthesis(Gs, ca[-1], pe, *a, **k)
        return [np.array(rec), list(c)]
    return call, [Opt("order", 100, integers(5, 150)), Opt("use_exact", False, boolean), Opt("least_squares", False, one_of(False)),
                  Opt("reg_eps", .005, reals(.001, .1))], 1e-7, "names"


@op
def regression(w, rng):
    from pygsp import learning
    return (lambda *a, **k: learning.regression_tikhonov(w.graph(), w.s.copy(), w.mask, *a, **k)), [Opt("tau", 0, reals(.1, 5))], 1e-6


@op
def classification(w, rng):
    from pygsp import learning
    return (lambda *a, **k: learning.classification_tikhonov(w.graph(), w.labels.copy(), w.mask, *a, **k)), [Opt("tau", 0, reals(.1, 5))], 1e-6


@op
def simplex(w, rng):
    from pygsp import learning
    return (lambda *a, **k: learning.classification_tikhonov_simplex(w.graph(), w.labels.copy(), w.mask, *a, **k, verbosity="NONE")), \
        [Opt("tau", .1, reals(.05, 2))], 1e-5


@op
def spectrogram(w, rng):
    from pygsp import features

    def call(*a, **k):
        g = w.graph()
        features.compute_spectrogram(g, *a, **k)
        return np.array(g.spectr)
    gmax = w.graph().lmax
    M = int(rng.choice([100, rng.integers(3, 30)]))
    return call, [Opt("atom", lambda a: lambda x: np.exp(-M * (x / gmax)**2), one_of(lambda x: 1 / (1 + x)), True), Opt("M", 100, one_of(M), often=2 * (M != 100))], 1e-7


@op
def plot(w, rng):
    import matplotlib
    import matplotlib.pyplot as plt
    s = [w.s, None, "r", np.abs(w.s)][int(rng.integers(4))]
    s2 = w.s

    def call(*a, **k):
        g = w.graph()
        fig, _ = g.plot(*a, **k)
        fig.canvas.draw()
        out = np.asarray(fig.canvas.buffer_rgba()).astype(float)
        plt.close(fig)
        return out
    return call, [Opt("vertex_color", None, lambda r: s2), Opt("vertex_size", None, one_of(40., 10.)), Opt("highlight", [], lambda r: [0, 2]),
                  Opt("edges", None, boolean), Opt("edge_color", None, one_of("b")), Opt("edge_width", None, one_of(3.)),
                  Opt("indices", False, boolean), Opt("colorbar", True, boolean), Opt("limits", None, one_of((-1., 1.))),
                  Opt("ax", None, one_of(None)), Opt("title", None, one_of("some title")), Opt("backend", None, one_of("matplotlib"))], 1e-9


@op
def plot_bank(w, rng):
    import matplotlib.pyplot as plt
    bank = w.bank()

    def call(*a, **k):
        fig, _ = bank.plot(*a, **k)
        fig.canvas.draw()
        out = np.asarray(fig.canvas.buffer_rgba()).astype(float)
        plt.close(fig)
        return out
    return call, [Opt("n", 500, integers(20, 100)), Opt("eigenvalues", True, boolean),
                  Opt("sum", lambda a: bank.Nf > 1, boolean, True), Opt("labels", lambda a: bank.Nf > 1, boolean, True),
                  Opt("title", None, one_of("some title")), Opt("ax", None, one_of(None))], 1e-9


@R.family(quick=190, thorough=7500)
def calls(ctx, rng):
    name = list(OPS)[ctx.rng_index % len(OPS)]
    w = World(rng)
    spec = OPS[name](w, rng)
    call, opts = spec[:2]
    tol = spec[2] if len(spec) > 2 else 1e-9
    given = plans(rng, opts)
    ctx.describe(op=name, given={k: v if not callable(v) else "callable" for k, v in given.items()}, W=w.W, s=w.s, bank=w.name)
    ctx.note("op:" + name)
    if len(spec) > 3:  # Documented, but collected by **kwargs: by name only.
        inner = call
        names = [o.name for o in opts]

        def call(*a, **k):
            return inner(**dict(zip(names, a)), **k)
    judge(ctx, rng, call, opts, given, tol=tol)


DRAWS = {
    "BarabasiAlbert": dict(N=60, m0=3, m=2), "Community": dict(N=60), "Cube": dict(nb_pts=50), "Sphere": dict(nb_pts=50), "ErdosRenyi": dict(N=30, p=.5),
    "StochasticBlockModel": dict(N=40, k=2, p=.6, q=.3), "RandomRegular": dict(N=40, k=4), "RandomRing": dict(N=20), "Sensor": dict(N=36),
    "SwissRoll": dict(N=30), "TwoMoons": dict(moontype="synthesized", N=40), "DavidSensorNet": dict(N=33),
}


@R.family(quick=12, thorough=150)
def unseeded(ctx, rng):
    """Without a seed, every graph (or random layout) is a new draw."""
    from pygsp import graphs
    name = list(DRAWS)[ctx.rng_index % len(DRAWS)]
    kw = dict(DRAWS[name])
    if name == "Sensor":
        kw["distributed"] = boolean(rng)
    ctx.describe(model=name, kw=kw, index=ctx.rng_index)
    draws = [getattr(graphs, name)(**kw, **({"seed": None} if i == 2 else {})) for i in range(3)]
    for i, j in ((0, 1), (1, 2)):
        a, b = draws[i], draws[j]
        ctx.ok(a.W.shape != b.W.shape or abs(a.W - b.W).max() > 0 or not np.array_equal(a.coords, b.coords), "new-draw", "the same graph twice")
    kind = str(rng.choice(["random2D", "random3D", "spring"]))
    pos = []
    for _ in range(2):
        draws[0].set_coordinates(kind)
        pos.append(np.array(draws[0].coords))
    ctx.ok(not np.array_equal(*pos), "new-layout", "the same layout twice")
