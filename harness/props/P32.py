"""P32: graphs and filters truthfully describe the parameters they were built with."""
import re

import numpy as np

import gen
import ref
from core import Registry

R = Registry()
TECHNIQUE = ("runtime monitoring: random constructor parameters, oracle parses the representation and attributes back and "
             "rebuilds the object from them")
R.rule = "random parameters for every graph model and filter family; distinct by class and parameters"
R.assumptions = ["numbers may be displayed rounded: a displayed number stands for every value which rounds to it",
                 "the parameters which must be displayed are those each class displays at the pinned commit",
                 "parameters given as lists or arrays are only required to be held by the attribute"]


def parse(text):
    """ClassName(k=v, ...) -> name, ordered list of pairs.  Commas in brackets do not count."""
    m = re.fullmatch(r"(\w+)\((.*)\)", text, re.S)
    if not m:
        return None, None
    parts, depth, cur = [], 0, ""
    for ch in m.group(2):
        depth += ch in "([{"
        depth -= ch in ")]}"
        if ch == "," and not depth:
            parts.append(cur)
            cur = ""
        else:
            cur += ch
    parts.append(cur)
    return m.group(1), [tuple(p.strip().split("=", 1)) if "=" in p else (p.strip(), None) for p in parts]


def shows(text, value):
    """Whether the displayed text stands for the value."""
    if isinstance(value, (list, tuple, np.ndarray)) and np.ndim(value) == 1 and text.startswith(("[", "(")):
        items = [t for t in re.split(r"[,\s]+", text.strip("[]()")) if t]
        return len(items) == len(value) and all(shows(t, v) for t, v in zip(items, value))
    if isinstance(value, (bool, np.bool_, str)) or value is None:
        return text == str(value)
    try:
        x = float(text)
    except ValueError:
        return False
    m = re.fullmatch(r"[-+]?\d+(?:\.(\d+))?(?:e([-+]\d+))?", text)
    if not m:
        return x == value
    unit = 10. ** (-len(m.group(1) or "") + int(m.group(2) or 0))
    if isinstance(value, (int, np.integer)) and not m.group(1) and not m.group(2):
        return x == value
    return abs(x - value) <= unit * (.5 + 1e-6)


# ---------------------------------------------------------------- graphs
u = gen.u


def nn(r):
    """Options every nearest-neighbour model accepts."""
    kw = {}
    if r.uniform() < .5:
        kw["sigma"] = u(r, .1, 3)
    if r.uniform() < .3:
        kw["symmetrize_type"] = str(r.choice(["average", "maximum", "fill"]))
    if r.uniform() < .3:
        kw["dist_type"] = str(r.choice(["euclidean", "manhattan", "max_dist"]))
    return kw


def cloud(r):
    kw = dict(nn(r), Xin=r.normal(size=(int(r.integers(12, 25)), int(r.integers(1, 4)))))
    if r.uniform() < .5:
        kw.update(k=int(r.integers(1, 10)))
    for name in ("center", "rescale"):
        if r.uniform() < .5:
            kw[name] = bool(r.integers(2))
    if r.uniform() < .3:
        kw.update(NNtype="radius", epsilon=u(r, 2, 9), sigma=u(r, .1, 3))
    if r.uniform() < .2:
        kw.update(dist_type="minkowski", order=int(r.integers(1, 4)))
    return kw


MODELS = dict(gen.MODEL_KW)
MODELS.update(
    NNGraph=cloud,
    BarabasiAlbert=lambda r: dict(N=int(r.integers(6, 25)), m0=int(r.integers(2, 6)), m=int(r.integers(1, 3)), seed=gen._s(r)),
    StochasticBlockModel=lambda r: dict(N=int(r.integers(6, 20)), k=int(r.integers(1, 4)), p=u(r, .4, 1), q=u(r, 0, .4),
                                        directed=bool(r.integers(2)), self_loops=bool(r.integers(2)), seed=gen._s(r)),
    ErdosRenyi=lambda r: dict(N=int(r.integers(4, 20)), p=u(r, .05, 1), directed=bool(r.integers(2)),
                              self_loops=bool(r.integers(2)), seed=gen._s(r)),
    Community=lambda r: dict(N=int(r.integers(24, 40)), Nc=int(r.integers(2, 4)), min_comm=int(r.integers(2, 8)),
                             size_ratio=u(r, 1, 3), world_density=u(r, 0, .2), seed=gen._s(r),
                             **[{}, dict(comm_density=u(r, .2, .9)), dict(k_neigh=int(r.integers(1, 4))),
                                dict(epsilon=u(r, 1, 3))][int(r.integers(4))]),
    Sensor=lambda r: (lambda d: dict(N=int(r.choice([16, 25, 36])) if d else int(r.integers(10, 30)), k=int(r.integers(2, 8)),
                                     distributed=d, seed=gen._s(r)))(bool(r.integers(2))),
    SwissRoll=lambda r: dict(N=int(r.integers(10, 30)), a=u(r, .5, 2), b=u(r, 3, 6), dim=int(r.choice([2, 3])),
                             thresh=float(r.choice([1e-6, 1e-3, 1e-9])), s=u(r, .2, 3), noise=bool(r.integers(2)),
                             srtype=str(r.choice(["uniform", "classic"])), seed=gen._s(r)),
    TwoMoons=lambda r: dict(moontype="synthesized", N=int(r.integers(14, 30)), sigmag=u(r, .05, 1), sigmad=u(r, .01, .3),
                            distance=u(r, .2, 2), seed=gen._s(r)),
    Sphere=lambda r: dict(nb_pts=int(r.integers(15, 30)), radius=u(r, .2, 9), seed=gen._s(r), **nn(r)),
    Cube=lambda r: dict(nb_pts=int(r.integers(18, 40)), radius=u(r, .2, 9), nb_dim=int(r.choice([2, 3])), seed=gen._s(r), **nn(r)),
    ImgPatches=lambda r: dict(img=r.uniform(size=(int(r.integers(4, 7)), int(r.integers(4, 7)))),
                              patch_shape=tuple(int(v) for v in r.integers(1, 4, 2)), k=int(r.integers(2, 9))),
    Minnesota=lambda r: dict(connected=bool(r.integers(2))),
)
# Parameters of the constructor each class displays.
SHOWN = dict(
    BarabasiAlbert="m0 m seed", Comet="k", Community="Nc min_comm size_ratio world_density comm_density k_neigh epsilon seed",
    Cube="radius nb_pts nb_dim seed sigma symmetrize_type dist_type", DavidSensorNet="seed",
    ErdosRenyi="p directed self_loops seed", FullConnected="", Grid2d="N1 N2", LowStretchTree="k", Path="directed",
    RandomRegular="k seed", RandomRing="seed", Ring="k", Sensor="k distributed seed",
    Sphere="radius nb_pts seed sigma symmetrize_type dist_type", Star="",
    StochasticBlockModel="k p q directed self_loops seed", SwissRoll="a b dim thresh s noise srtype seed", Torus="Nv Mv",
    TwoMoons="moontype sigmag sigmad distance seed", ImgPatches="patch_shape k", Minnesota="connected",
    NNGraph="NNtype center rescale k sigma epsilon symmetrize_type dist_type order")
UNHELD = {"N", "diagonal", "Xin"}  # Constructor parameters without an attribute of that name (or transformed).


def check_repr(ctx, obj, name, head, kw, must):
    cls, pairs = parse(repr(obj))
    ctx.ok(cls == name, "class-name", lambda: f"{repr(obj)} for a {name}")
    ctx.ok([p[0] for p in pairs[:2]] == [h[0] for h in head] and [p[1] for p in pairs[:2]] == [str(h[1]) for h in head],
           "counts", lambda: f"{repr(obj)} expected {head}")
    shown = dict(pairs)
    ctx.ok(len(shown) == len(pairs), "no-duplicates", lambda: repr(obj))
    for k in must:
        if k in kw:
            ctx.ok(k in shown, "parameter-displayed", lambda: f"{name}: {k} missing in {repr(obj)}")
    for k, v in kw.items():
        if k in shown and np.ndim(v) <= 1:
            ctx.ok(shows(shown[k], v), "parameter-value", lambda: f"{name}: {k}={v!r} displayed in {repr(obj)}")
    for k, t in shown.items():  # What is displayed is what the object holds.
        if k not in ("in", "out") and hasattr(obj, k) and t is not None:
            ctx.ok(shows(t, getattr(obj, k)), "displays-attribute", lambda: f"{name}: {k}={getattr(obj, k)!r} in {repr(obj)}")
    return shown


@R.family(quick=900, thorough=20000)
def models(ctx, rng):
    from pygsp import graphs
    name = str(rng.choice(sorted(MODELS)))
    if name == "Minnesota" and rng.uniform() < .8:
        name = "Grid2d"
    kw = MODELS[name](rng)
    if rng.uniform() < .25 and name not in ("NNGraph", "ImgPatches"):
        for k in [k for k in kw if k in ("k", "m0", "radius", "s", "size_ratio", "noise", "distance", "directed") and rng.uniform() < .5]:
            if not (name in ("RandomRegular", "BarabasiAlbert", "LowStretchTree", "Comet")):
                del kw[k]
    ctx.describe(model=name, kw=kw)
    G = getattr(graphs, name)(**kw)
    W = G.W.toarray()
    check_repr(ctx, G, name, [("n_vertices", len(W)), ("n_edges", ref.n_edges(W))], kw, SHOWN[name].split())
    ctx.same([G.N, G.Ne, G.n_vertices, G.n_edges], [len(W), ref.n_edges(W)] * 2, "counts")
    for k, v in kw.items():
        if k not in UNHELD and hasattr(G, k):
            a = getattr(G, k)
            ctx.ok(np.array_equal(np.asarray(a, dtype=None if a is not None else object), np.asarray(v, dtype=None if v is not None else object)),
                   "attribute-holds-parameter", lambda: f"{name}.{k} = {a!r}, given {v!r}")
    ctx.note("model:" + name)
    # The attributes are enough to build the same graph again.
    kw2 = {k: getattr(G, k) if k not in UNHELD and hasattr(G, k) else v for k, v in kw.items()}
    H = getattr(graphs, name)(**kw2)
    ctx.same(H.W, W, "rebuilt-from-attributes", name)
    ctx.ok(repr(H) == repr(G), "rebuilt-from-attributes", lambda: f"{repr(H)} {repr(G)}")
    # Shortened representations are prefixes.
    full = parse(repr(G))[1]
    for limit in (2, 3, 4, 6):
        c, part = parse(G.__repr__(limit=limit))
        want = full if len(full) <= limit else full[:limit] + [("...", None)]
        ctx.ok(c == name and part == want, "shortened", lambda: f"limit={limit}: {G.__repr__(limit=limit)} of {repr(G)}")


@R.family(quick=200, thorough=3000)
def defaults(ctx, rng):
    """Parameters which were left out are described by the value in use."""
    from pygsp import graphs
    k = int(rng.integers(7))
    n = int(rng.integers(3, 9))
    ctx.describe(case=k, n=n)
    if k == 0:
        g = graphs.Grid2d(n)
        ctx.same([g.N1, g.N2, g.N], [n, n, n * n], "resolved")
        must = dict(N1=n, N2=n)
    elif k == 1:
        g = graphs.Torus(n)
        ctx.same([g.Nv, g.Mv, g.N], [n, n, n * n], "resolved")
        must = dict(Nv=n, Mv=n)
    elif k == 2:
        N = int(rng.integers(20, 60))
        s = gen._s(rng)
        g = graphs.Community(N, seed=s)
        Nc = int(round(np.sqrt(N) / 2))
        must = dict(Nc=Nc, min_comm=int(round(N / (3 * Nc))), world_density=1 / N, size_ratio=1, seed=s)
        ctx.ok(g.info["node_com"].max() + 1 == Nc, "resolved")
        ctx.ok(np.bincount(g.info["node_com"]).min() >= must["min_comm"], "resolved")
    elif k == 3:
        N = int(rng.integers(10, 40))
        g = graphs.SwissRoll(N, seed=1)
        must = dict(a=1, b=4, dim=3, thresh=1e-6, s=np.sqrt(2 / N), noise=False, srtype="uniform", seed=1)
    elif k == 4:
        X = rng.normal(size=(15, 2))
        g = graphs.NNGraph(X)
        must = dict(NNtype="knn", use_flann=False, center=True, rescale=True, k=10, epsilon=.01, symmetrize_type="average",
                    dist_type="euclidean", order=0)
        D = ref.distances(np.asarray(g.Xin) * 0 + g.coords)
        ctx.close(g.sigma, np.sort(D, 1)[:, 1:11].mean(), "resolved", 1e-9)
        must["sigma"] = g.sigma
    elif k == 5:
        g = graphs.Ring(n + 2)
        must = dict(k=1)
    else:
        g = graphs.BarabasiAlbert(n + 2, seed=3)
        must = dict(m0=1, m=1, seed=3)
    shown = dict(parse(repr(g))[1])
    for p, v in must.items():
        ctx.ok(p in shown and shows(shown[p], v), "default-displayed", lambda: f"{p}={v} in {g!r}")
        ctx.ok(not hasattr(g, p) or np.allclose(getattr(g, p), v) if not isinstance(v, str) else getattr(g, p) == v, "default-held",
               lambda: f"{p}: {getattr(g, p)} expected {v}")


@R.family(quick=250, thorough=4000)
def derived(ctx, rng):
    """Graphs made from others, and plain graphs."""
    from pygsp import graphs
    W = gen.adjacency(rng, nmin=2)
    n = len(W)
    G = graphs.Graph(W)
    ctx.describe(W=W)
    check_repr(ctx, G, "Graph", [("n_vertices", n), ("n_edges", ref.n_edges(W))], {}, [])
    v = np.sort(rng.permutation(n)[:int(rng.integers(1, n + 1))])
    S = G.subgraph(v)
    check_repr(ctx, S, "Graph", [("n_vertices", len(v)), ("n_edges", ref.n_edges(W[np.ix_(v, v)]))], {}, [])
    name, kw, M = gen.model(rng)
    S = M.subgraph(np.arange(M.N))
    check_repr(ctx, S, "Graph", [("n_vertices", M.N), ("n_edges", M.n_edges)], {}, [])
    if not ref.directed(W) and ref.n_edges(W) and not np.diag(W).any():
        G.set_coordinates(rng.normal(size=(n, 2)))
        H = graphs.LineGraph(G)
        check_repr(ctx, H, "LineGraph", [("n_vertices", G.n_edges), ("n_edges", ref.n_edges(H.W.toarray()))], {}, [])


# ---------------------------------------------------------------- filters
def some(r, seq):
    return {0: list, 1: tuple, 2: np.array}[int(r.integers(3))](seq)


FILTERS = dict(
    Heat=lambda r: dict(scale=some(r, [u(r, .1, 90) for _ in range(int(r.integers(1, 5)))]) if r.uniform() < .6 else u(r, .1, 90),
                        normalize=bool(r.integers(2))),
    Wave=lambda r: dict(time=some(r, [u(r, 0, 20) for _ in range(int(r.integers(1, 4)))]) if r.uniform() < .6 else u(r, 0, 20),
                        speed=u(r, 0, 1.9)),
    Rectangular=lambda r: dict(band_min=None if r.uniform() < .4 else u(r, 0, .5), band_max=None if r.uniform() < .3 else u(r, .5, 1)),
    Expwin=lambda r: dict(band_min=None if r.uniform() < .4 else u(r, 0, .5), band_max=None if r.uniform() < .3 else u(r, .5, 1),
                          slope=float(r.integers(1, 30))),
    MexicanHat=lambda r: dict(Nf=int(r.integers(2, 7)), lpfactor=u(r, 2, 90), normalize=bool(r.integers(2))),
    Abspline=lambda r: dict(Nf=int(r.integers(2, 7)), lpfactor=u(r, 2, 90)),
    Meyer=lambda r: dict(Nf=int(r.integers(2, 7))),
    SimpleTight=lambda r: dict(Nf=int(r.integers(2, 7))),
    HalfCosine=lambda r: dict(Nf=int(r.integers(3, 8))),
    Itersine=lambda r: dict(Nf=int(r.integers(4, 9)), overlap=int(r.choice([2, 3, 4]))),
    Regular=lambda r: dict(degree=int(r.integers(0, 6))),
    Held=lambda r: dict(a=u(r, .1, 1)), Simoncelli=lambda r: dict(a=u(r, .1, 1)), Papadakis=lambda r: dict(a=u(r, .1, 1.2)),
)
FSHOWN = dict(Heat="scale normalize", Wave="time speed", Rectangular="band_min band_max", Expwin="band_min band_max slope",
              MexicanHat="lpfactor normalize", Abspline="lpfactor", Itersine="overlap", Held="a", Simoncelli="a", Papadakis="a",
              Meyer="", SimpleTight="", HalfCosine="", Regular="")


def size(name, kw):
    if name == "Heat":
        return np.size(kw["scale"])
    if name == "Wave":
        return np.size(kw["time"])
    if name in ("Held", "Simoncelli", "Papadakis", "Regular"):
        return 2
    return kw.get("Nf", 1)


@R.family(quick=900, thorough=20000)
def banks(ctx, rng):
    from pygsp import filters, graphs
    W = gen.adjacency(rng, nmin=3, nmax=10, connected=True, directed=False)
    G = graphs.Graph(W)
    G.compute_fourier_basis()
    name = str(rng.choice(sorted(FILTERS)))
    kw = FILTERS[name](rng)
    if rng.uniform() < .2 and name in ("Wave", "Expwin", "MexicanHat", "Itersine"):
        kw.pop(str(rng.choice(sorted(k for k in kw if k != "Nf"))))
        if name == "Wave" and "time" not in kw:
            kw["time"] = [10]
    if name == "Itersine" and "overlap" not in kw:
        kw["overlap"] = 2
    ctx.describe(W=W, filter=name, kw=kw)
    f = getattr(filters, name)(G, **kw)
    Nf = size(name, kw)
    disp = {k: np.atleast_1d(v) if k in ("scale", "time", "speed") else v for k, v in kw.items() if v is not None}
    shown = check_repr(ctx, f, name, [("in", 1), ("out", Nf)], disp, FSHOWN[name].split())
    for k, v in kw.items():
        if v is None:
            ctx.ok(shown.get(k, "None") == "None", "absent-parameter", lambda: repr(f))
    for k, v in kw.items():
        if hasattr(f, k) and k != "Nf":
            a = getattr(f, k)
            ctx.ok(a is v or np.array_equal(np.atleast_1d(a), np.atleast_1d(v)), "attribute-holds-parameter",
                   lambda: f"{name}.{k} = {a!r}, given {v!r}")
    ctx.same([f.Nf, f.n_filters, len(f), f.n_features_in, f.n_features_out], [Nf, Nf, Nf, 1, Nf], "counts")
    ctx.same(list(f.shape), [Nf, 1], "shape")
    ctx.ok(f.G is G, "graph")
    # The attributes are enough to build the same bank again.
    kw2 = {k: getattr(f, k) if k != "Nf" and hasattr(f, k) else v for k, v in kw.items()}
    h = getattr(filters, name)(G, **kw2)
    x = rng.uniform(0, G.lmax, 30)
    ctx.same(h.evaluate(x), f.evaluate(x), "rebuilt-from-attributes", name)
    if name in ("Abspline", "MexicanHat", "Meyer", "SimpleTight") and Nf > 1:
        h = getattr(filters, name)(G, scales=f.scales, **kw)
        ctx.close(h.evaluate(x), f.evaluate(x), "rebuilt-from-attributes", 1e-12, scale=max(np.abs(f.evaluate(x)).max(), 1e-12))
        ctx.same(len(f.scales), Nf - 1, "counts")
    # Compositions.
    b = f + f[0]
    check_repr(ctx, b, "Filter", [("in", 1), ("out", Nf + 1)], {}, [])
    check_repr(ctx, f[0], "Filter", [("in", 1), ("out", 1)], {}, [])
    ctx.note("filter:" + name)
