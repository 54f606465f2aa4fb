"""P37: optional dependencies are optional."""
import os
import sys
import tempfile

import numpy as np

import gen
import ref
from core import Registry
from isolate import Lost, isolated
from props import P28
from props.P28 import alike, freeze, raw

R = Registry()
R.factor = 2
TECHNIQUE = ("runtime monitoring with fault injection: optional dependencies made missing or broken in forked processes, "
             "differential oracle with the complete installation")
R.rule = ("seeded subsets of missing or broken optional dependencies x sequences of operations on seeded graphs; distinct by "
          "content hash")
R.assumptions = ["the optional dependencies are those the project declares: matplotlib, pyqtgraph, NetworkX, graph-tool, FLANN, "
                 "scikit-learn, PyUNLocBoX, scikit-image",
                 "approximate nearest neighbours are allowed to be exact when FLANN is missing, and not compared when it is there"]

OPTIONAL = {"matplotlib": ["matplotlib", "mpl_toolkits", "pylab"], "pyqtgraph": ["pyqtgraph", "OpenGL"], "networkx": ["networkx"],
            "graph_tool": ["graph_tool"], "pyflann": ["pyflann"], "sklearn": ["sklearn"], "pyunlocbox": ["pyunlocbox"],
            "skimage": ["skimage"]}
ERRORS = dict(missing=lambda n: ModuleNotFoundError(f"No module named {n!r}"), imports=lambda n: ImportError(f"cannot load {n}"),
              library=lambda n: OSError(f"lib{n}.so: undefined symbol"), runtime=lambda n: RuntimeError(f"{n} is broken"),
              attribute=lambda n: AttributeError(f"module {n!r} has no attribute 'core'"))


class Block:
    """Import hook making packages fail."""

    def __init__(self, names, how):
        self.tops = {t for n in names for t in OPTIONAL[n]}
        self.how = how
        self.tried = set()

    def find_spec(self, name, path=None, target=None):
        top = name.partition(".")[0]
        if top in self.tops:
            self.tried.add(top)
            raise ERRORS[self.how](name)
        return None

    def install(self, tops=()):
        for m in list(sys.modules):
            if m.partition(".")[0] in self.tops or m.partition(".")[0] in tops:
                del sys.modules[m]
        sys.meta_path.insert(0, self)


# ---------------------------------------------------------------- operations
# name: (what is needed, function(rng, G) -> call).  Needs are alternatives of sets: any of them is enough.
OPS = {}


def op(*needs):
    def deco(f):
        OPS[f.__name__] = ([set(n.split()) for n in needs] or [set()], f)
        return f
    return deco


def layout(G, rng):
    if not hasattr(G, "coords") or np.ndim(G.coords) != 2 or G.coords.shape[1] not in (2, 3):
        G.set_coordinates(rng.normal(size=(G.N, 2)))


CORE = sorted(set(P28.OPS) - {"networkx", "graphtool", "saving", "simplex", "plots", "features", "pyramid", "multiresolution",
                              "sparsify", "construct", "model"})


@op()
def numerical(rng, G):
    for _ in range(20):
        made = P28.OPS[CORE[int(rng.integers(len(CORE)))]](rng, G)
        if made is not None:
            return made[0]


@op()
def models(rng, G):
    from pygsp import graphs
    names = sorted(gen.MODEL_KW)
    name = names[int(rng.integers(len(names)))]
    kw = gen.MODEL_KW[name](rng)
    return lambda: getattr(graphs, name)(**kw)


@op()
def neighbours(rng, G):
    from pygsp import graphs
    X = rng.normal(size=(int(rng.integers(12, 40)), int(rng.integers(1, 4))))
    kw = dict(k=int(rng.integers(1, 8)), center=bool(rng.integers(2)), rescale=bool(rng.integers(2)))
    kw["dist_type"] = str(rng.choice(["euclidean", "manhattan", "max_dist", "minkowski"]))
    if kw["dist_type"] == "minkowski":
        kw["order"] = int(rng.choice([1, 2, 3, 4]))
    if rng.uniform() < .5:
        kw["sigma"] = float(rng.uniform(.1, 2))
    if rng.uniform() < .3:
        kw["symmetrize_type"] = str(rng.choice(["average", "maximum", "fill"]))

    def call(exact):
        g = graphs.NNGraph(X, use_flann=not exact, **kw)
        return [g.W.toarray(), g.sigma, g.coords, g.Xin]
    return call


@op("matplotlib")
def plot_graph(rng, G):
    layout(G, rng)
    s = rng.normal(size=G.N) + 3
    k = int(rng.integers(3))

    def call():
        if k == 0:
            fig, ax = G.plot()
        elif k == 1:
            fig, ax = G.plot(s, highlight=[0], colorbar=False)
        else:
            fig, ax = G.plot_signal(s)
        xy = ax.collections[0].get_offsets()
        from pygsp import plotting
        plotting.close_all()
        return np.asarray(xy).shape
    return call


@op("matplotlib")
def plot_filter(rng, G):
    f = gen.filterbank(rng, G)[2]

    def call():
        fig, ax = f.plot(n=20)
        from pygsp import plotting
        plotting.close_all()
        return len(ax.lines)
    return call


@op("pyqtgraph")
def plot_interactive(rng, G):
    layout(G, rng)
    s = rng.normal(size=G.N) + 3
    k = int(rng.integers(2))

    def call():
        from pygsp import plotting
        if k == 0:
            G.plot(backend="pyqtgraph", edges=False)
        else:
            G.plot(s, backend="pyqtgraph", edges=False)
        n = len(plotting._qtg_widgets)
        plotting.close_all()
        return n
    return call


@op("matplotlib")
def plot_unknown(rng, G):
    """Closing figures."""
    from pygsp import plotting
    return lambda: [plotting.close_all(), plotting.close()]


@op()
def close_all(rng, G):
    from pygsp import plotting
    return lambda: plotting.close_all()


@op("networkx")
def to_networkx(rng, G):
    from pygsp import graphs
    G.set_signal(rng.normal(size=G.N), "x")
    return lambda: graphs.Graph.from_networkx(G.to_networkx())


@op("graph_tool")
def to_graphtool(rng, G):
    from pygsp import graphs
    G.set_signal(rng.normal(size=G.N), "x")
    return lambda: graphs.Graph.from_graphtool(G.to_graphtool())


def files(rng, G, backend, fmts, whole=False):
    from pygsp import graphs
    G.set_signal(rng.normal(size=G.N), "x")
    fmt = str(rng.choice(fmts))
    kw = {} if backend is None else dict(backend=backend)

    def call():
        with tempfile.TemporaryDirectory() as d:
            path = os.path.join(d, "g." + fmt)
            try:
                G.save(path, **kw)
            except ImportError:
                assert not os.listdir(d), "a file was left behind"
                raise
            H = graphs.Graph.load(path, **kw)
            if whole:
                return H
            # The formats differ in how many digits and which types they keep.
            return [np.round(H.W.toarray().astype(float) / np.abs(H.W).max(), 4) + 0., sorted(H.signals), H.N, H.is_directed()]
    return call


@op("networkx")
def file_networkx(rng, G):
    return files(rng, G, "networkx", ["graphml", "gml", "gexf"])


@op("graph_tool")
def file_graphtool(rng, G):
    return files(rng, G, "graph-tool", ["graphml", "gml"])


@op("networkx", "graph_tool")
def file_any(rng, G):
    return files(rng, G, None, ["graphml", "graphml", "gml"])


@op("networkx", "graph_tool")
def load_any(rng, G):
    """Loading a file which exists."""
    from pygsp import graphs
    # Vertices are named by both formats, as when another tool wrote the file.
    fmt, n, sig = str(rng.choice(["graphml", "gml"])), G.N, bool(rng.integers(2))
    if fmt == "gml":
        text = "graph [\n" + "".join(f'node [\n id {i}\n label "{i}"\n' + (f" x {i}.25\n" if sig else "") + "]\n" for i in range(n))
        text += "".join(f"edge [\n source {i}\n target {i + 1}\n weight {i + 1}.5\n]\n" for i in range(n - 1)) + "]\n"
    else:
        text = ('<?xml version="1.0" encoding="UTF-8"?><graphml xmlns="http://graphml.graphdrawing.org/xmlns">'
                '<key id="k0" for="edge" attr.name="weight" attr.type="double"/>'
                '<key id="k1" for="node" attr.name="x" attr.type="double"/><graph edgedefault="undirected">')
        text += "".join(f'<node id="n{i}">' + (f'<data key="k1">{i}.25</data>' if sig else "") + "</node>" for i in range(n))
        text += "".join(f'<edge source="n{i}" target="n{i + 1}"><data key="k0">{i + 1}.5</data></edge>' for i in range(n - 1))
        text += "</graph></graphml>"

    def call():
        with tempfile.TemporaryDirectory() as d:
            path = os.path.join(d, "g." + fmt)
            with open(path, "w") as f:
                f.write(text)
            H = graphs.Graph.load(path)
            return [H.W.toarray(), H.signals]
    return call


@op("pyunlocbox")
def simplex(rng, G):
    from pygsp import learning
    y = rng.integers(0, 3, G.N)
    M = rng.uniform(size=G.N) < .7
    M[0] = True
    G.estimate_lmax("bounds")
    return lambda: learning.classification_tikhonov_simplex(G, y, M, tau=.5, maxit=20, verbosity="NONE")


@op("skimage")
def patches(rng, G):
    from pygsp import graphs
    img = rng.uniform(size=(5, 6))
    name = str(rng.choice(["ImgPatches", "Grid2dImgPatches"]))
    return lambda: getattr(graphs, name)(img, patch_shape=(3, 3), k=4, use_flann=False)


# ---------------------------------------------------------------- cases
def graph(rng):
    from pygsp import graphs
    while True:
        W = gen.adjacency(rng, nmin=4, nmax=14, directed=False if rng.uniform() < .7 else None, connected=bool(rng.uniform() < .6),
                          large=False)
        if not gen.edgeless(W):
            break
    g = graphs.Graph(W, lap_type=str(rng.choice(["combinatorial", "normalized"])))
    if rng.uniform() < .5:
        g.compute_fourier_basis()
    else:
        g.estimate_lmax("bounds")
    return g


def job(seed, names, absent, how):
    """In a child: the outcome of every operation, and whether the graph changed."""
    import warnings
    warnings.simplefilter("ignore")
    b = Block(absent, how)
    b.install(["pygsp"])
    import pygsp  # noqa: F401
    out, imported = [], set(b.tried)
    for i, name in enumerate(names):
        rng = np.random.default_rng([seed, i])
        G = graph(rng)
        call = OPS[name][1](rng, G)
        if call is None:
            out.append(None)
            continue
        before = raw(G)
        try:
            if name == "neighbours":
                exact = "pyflann" not in absent
                res = ("value", freeze(call(exact)))
            else:
                res = ("value", freeze(call()))
        except ImportError as e:
            res = ("missing", str(e))
        except Exception as e:
            import traceback
            res = ("error", type(e).__name__ + ": " + str(e), traceback.format_exc()[-800:])
        out.append(res + (raw(G) == before,))
    return out, sorted(imported), sorted(b.tried)


# The name by which the message calls the dependency.
CALLED = {"graph_tool": "graph-tool", "sklearn": "scikit-learn"}


@R.family(quick=130, thorough=3000, timeout=300)
def without(ctx, rng):
    absent = [n for n in sorted(OPTIONAL) if rng.uniform() < .4] if rng.uniform() < .7 else sorted(OPTIONAL)
    how = str(rng.choice(sorted(ERRORS))) if rng.uniform() < .5 else "missing"
    names = [str(v) for v in rng.choice(sorted(OPS), 9)]
    seed = int(rng.integers(2**31))
    ctx.describe(True, absent=absent, how=how, names=names, seed=seed)
    try:
        want = isolated(lambda: job(seed, names, [], how))
        got = isolated(lambda: job(seed, names, absent, how))
    except Lost as e:
        ctx.ok(False, "interpreter-survives", str(e))
    if want[0] != "value":
        ctx.ok(False, "complete-installation-works", str(want[1:])[:800])
    ctx.ok(got[0] == "value", "library-imports", lambda: f"without {absent} ({how}): {got[1:]}")
    for name, w, (g) in zip(names, want[1][0], got[1][0]):
        if w is None:
            continue
        needs = OPS[name][0]
        enough = any(not n & set(absent) for n in needs)
        what = lambda: f"{name} without {absent} ({how}): {str(g[:-1])[:700]}, and with everything {str(w[:-1])[:300]}"
        if w[0] == "error":
            ctx.ok(g[0] in ("error", "missing"), "same-failure", what)
        elif enough:
            tol = 1e-6 if name in ("neighbours", "numerical", "simplex", "models") else 1e-3
            ctx.ok(g[0] == "value" and alike(w[1], g[1], tol), "works-without", what)
            ctx.note("worked:" + name)
        else:
            ctx.ok(g[0] == "missing", "import-error", what)
            missing = set.union(*needs) & set(absent)
            text = g[1].lower()
            ctx.ok(any(m in text or CALLED.get(m, m) in text for m in missing), "dependency-named", what)
            ctx.ok(g[-1], "graph-unchanged", what)
            ctx.note("refused:" + name)
    # Importing the library does not need, nor try, any of them.
    ctx.ok(not got[1][1], "imported-lazily", lambda: f"{got[1][1]}")


@R.family(quick=12, thorough=200, timeout=300)
def recovers(ctx, rng):
    """A dependency that becomes available is found by the next call."""
    name = str(rng.choice(["plot_graph", "to_networkx", "file_networkx", "to_graphtool", "simplex", "patches", "file_any", "plot_filter"]))
    seed = int(rng.integers(2**31))
    ctx.describe(True, name=name, seed=seed)

    def run():
        import warnings
        warnings.simplefilter("ignore")
        gone = sorted(set.union(*OPS[name][0]))
        b = Block(gone, "missing")
        b.install(["pygsp"])
        r = np.random.default_rng(seed)
        G = graph(r)
        call = OPS[name][1](r, G)
        first = None
        try:
            call()
        except ImportError:
            first = "missing"
        sys.meta_path.remove(b)
        return first, freeze(call())
    try:
        out = isolated(run)
    except Lost as e:
        ctx.ok(False, "interpreter-survives", str(e))
    ctx.ok(out[0] == "value", "recovers", lambda: str(out[1:])[:600])
    ctx.ok(out[1][0] == "missing", "import-error", lambda: name)


@R.family(quick=100, thorough=2000, timeout=120)
def fallbacks(ctx, rng):
    """Nearest neighbours without FLANN, and without scikit-learn."""
    from pygsp import graphs
    X = rng.normal(size=(int(rng.integers(12, 60)), int(rng.integers(1, 5))))
    kw = dict(k=int(rng.integers(1, 10)), center=bool(rng.integers(2)), rescale=bool(rng.integers(2)))
    kw["dist_type"] = str(rng.choice(["euclidean", "manhattan", "max_dist", "minkowski", "minkowski"]))
    if kw["dist_type"] == "minkowski":
        kw["order"] = float(rng.choice([1, 1.5, 2, 3, 4, 10]))
    if rng.uniform() < .4:
        kw["sigma"] = float(rng.uniform(.1, 2))
    absent = ["pyflann", "sklearn"][:int(rng.integers(1, 3))]
    how = str(rng.choice(sorted(ERRORS)))
    ctx.describe(True, X=X, kw=kw, absent=absent, how=how)

    def call(block, flann):
        Block(block, how).install()
        g = graphs.NNGraph(X, use_flann=flann, **kw)
        return g.W.toarray(), float(g.sigma)
    try:
        want = isolated(lambda: call([], False))
        got = isolated(lambda: call(absent, True))
    except Lost as e:
        ctx.ok(False, "interpreter-survives", str(e))
    ctx.ok(want[0] == "value", "complete-installation-works", lambda: str(want[1:])[:600])
    ctx.ok(got[0] == "value", "works-without", lambda: str(got[1:])[:600])
    ctx.note(f"neighbours without {' and '.join(absent)} {kw['dist_type']}")
    ctx.close(got[1][0], want[1][0], "fallback-exact", 1e-9, scale=1)
    ctx.close(got[1][1], want[1][1], "fallback-exact", 1e-9, scale=want[1][1])
    # By the definition of the distance.
    Y = np.asarray(graphs.NNGraph(X, **kw).coords)
    p = {"euclidean": 2, "manhattan": 1, "max_dist": np.inf}.get(kw["dist_type"], kw.get("order"))
    D = np.linalg.norm(Y[:, None] - Y[None], ord=p, axis=2)
    W = np.zeros_like(D)
    for i in range(len(D)):
        j = np.argsort(np.where(np.arange(len(D)) == i, np.inf, D[i]))[:kw["k"]]
        W[i, j] = np.exp(-D[i, j] ** 2 / want[1][1])
    ctx.close(got[1][0], (W + W.T) / 2, "fallback-exact", 1e-9, scale=1)
