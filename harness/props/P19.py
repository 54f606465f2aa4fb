"""P19: deterministic graph models have exactly the documented structure."""
import os

import numpy as np
from scipy.sparse import csgraph

from core import Registry
import gen
import ref

R = Registry()
R.rule = ("every deterministic model over random admissible sizes and options (and Laplacian types), line graphs of random graphs "
          "(directed, loops, parallel arcs), the data models against the raw data files; distinct by content hash of the parameters")
R.assumptions = ["tori have at least three vertices per dimension, comets a central vertex of degree one or more",
                 "data files in /repo are the reference for the models built from data"]
TECHNIQUE = "runtime monitoring: graph models built over random sizes, dense structures computed from the definitions as oracle"


def path_w(n, directed=False):
    W = np.zeros((n, n))
    for i in range(n - 1):
        W[i, i + 1] = 1
        if not directed:
            W[i + 1, i] = 1
    return W


def ring_w(n, k=1):
    W = np.zeros((n, n))
    for i in range(n):
        for d in range(1, k + 1):
            W[i, (i + d) % n] = W[(i + d) % n, i] = 1
    return W


def kron_sum(A, B):
    """Vertex (a, b) is a * len(B) + b."""
    return np.kron(A, np.eye(len(B))) + np.kron(np.eye(len(A)), B)


def angle(n):
    a = 2 * np.pi * np.arange(n) / n
    return np.stack((np.cos(a), np.sin(a)), 1)


def common(ctx, g, W, lap, coords=None):
    ctx.same(g.W.toarray().astype(float), W, "adjacency")
    ctx.same(g.n_vertices, len(W), "n-vertices")
    ctx.same(g.n_edges, ref.n_edges(W), "n-edges")
    ctx.same(g.is_directed(), ref.directed(W), "directedness")
    ctx.same(g.lap_type, lap, "lap-type")
    ctx.close(g.L, ref.laplacian(W, lap), "laplacian", 1e-12, scale=1 + np.abs(W).sum(1).max(initial=0))
    if coords is not None:
        ctx.close(g.coords, coords, "coordinates", 1e-12, scale=max(1, np.abs(coords).max(initial=0)))
    limits_cover(ctx, g)


def limits_cover(ctx, g):
    lim = g.plotting.get("limits")
    if lim is None or not hasattr(g, "coords"):
        return
    lim = np.asarray(lim, float)
    c = g.coords
    ctx.same(lim.size, 2 * c.shape[1], "limits-dimension")
    lo, hi = lim[::2], lim[1::2]
    eps = 1e-9 * (1 + np.abs(lim).max())
    ctx.ok(bool((c.min(0) >= lo - eps).all() and (c.max(0) <= hi + eps).all()), "limits-show-all-vertices",
           lambda: f"{lim} for coordinates in {c.min(0)}..{c.max(0)}")


@R.family(quick=700, thorough=12000)
def simple(ctx, rng):
    from pygsp import graphs
    lap = str(rng.choice(["combinatorial", "normalized"]))
    name = str(rng.choice(["Path", "Ring", "Grid2d", "Torus", "Star", "Comet", "FullConnected"]))
    big = rng.uniform() < .15
    ctx.note(name)
    kw = dict(lap_type=lap) if lap == "normalized" or rng.uniform() < .5 else {}
    if name == "Path":
        n, d = int(rng.integers(1, 200 if big else 20)), bool(rng.uniform() < .5)
        ctx.describe(n > 1, model=name, n=n, directed=d, lap=lap)
        g = graphs.Path(n, directed=d, **kw) if d or rng.uniform() < .5 else graphs.Path(n, **kw)
        common(ctx, g, path_w(n, d), lap, np.stack((np.arange(n), np.zeros(n)), 1))
    elif name == "Ring":
        n = int(rng.integers(3, 120 if big else 20))
        k = int(rng.integers(0, n // 2 + 1)) if rng.uniform() < .7 else n // 2
        ctx.describe(k > 0, model=name, n=n, k=k, lap=lap)
        g = graphs.Ring(n, k, **kw) if k != 1 or rng.uniform() < .5 else graphs.Ring(n, **kw)
        common(ctx, g, ring_w(n, k), lap, angle(n))
        ctx.ok((ref.degree(g.W.toarray()) == min(2 * k, n - 1)).all(), "ring-regular")
    elif name == "Grid2d":
        n1, n2 = int(rng.integers(1, 9)), int(rng.integers(1, 9))
        diag = float(rng.choice([0, 0, 1, .5, round(rng.uniform(.1, 3), 2)]))
        square = rng.uniform() < .2
        if square:
            n2 = n1
        ctx.describe(n1 * n2 > 1, model=name, n1=n1, n2=n2, diagonal=diag, lap=lap)
        if square:
            g = graphs.Grid2d(n1, diagonal=diag, **kw)
        else:
            g = graphs.Grid2d(n1, n2, diagonal=diag, **kw)
        P, Q = path_w(n1), path_w(n2)
        common(ctx, g, kron_sum(P, Q) + diag * np.kron(P, Q), lap,
               np.array([(j / n2, (n1 - 1 - i) / n1) for i in range(n1) for j in range(n2)]))
    elif name == "Torus":
        nv, mv = int(rng.integers(3, 10)), int(rng.integers(3, 10))
        square = rng.uniform() < .2
        if square:
            mv = nv
        ctx.describe(True, model=name, nv=nv, mv=mv, lap=lap)
        g = graphs.Torus(nv, **kw) if square else graphs.Torus(nv, mv, **kw)
        coords = []
        for j in range(mv):
            for i in range(nv):
                r = 1.5 + np.sin(2 * np.pi * j / mv)
                coords.append((r * np.cos(2 * np.pi * i / nv), r * np.sin(2 * np.pi * i / nv), np.cos(2 * np.pi * j / mv)))
        common(ctx, g, kron_sum(ring_w(mv), ring_w(nv)), lap, np.array(coords))
    elif name in ("Star", "Comet"):
        n = int(rng.integers(2, 150 if big else 20))
        k = n - 1 if name == "Star" else int(rng.integers(1, n))
        ctx.describe(True, model=name, n=n, k=k, lap=lap)
        g = graphs.Star(n, **kw) if name == "Star" else graphs.Comet(n, k, **kw)
        W = np.zeros((n, n))
        W[0, 1:k + 1] = W[1:k + 1, 0] = 1
        for i in range(k, n - 1):
            W[i, i + 1] = W[i + 1, i] = 1
        c = np.zeros((n, 2))
        a = 2 * np.pi * np.arange(1, k + 1) / k
        c[1:k + 1] = np.stack((np.cos(a), np.sin(a)), 1)
        c[k + 1:, 0] = np.arange(2, n - k + 1)
        common(ctx, g, W, lap, c)
    else:
        n = int(rng.integers(1, 80 if big else 20))
        ctx.describe(n > 1, model=name, n=n, lap=lap)
        common(ctx, graphs.FullConnected(n, **kw), np.ones((n, n)) - np.eye(n), lap)


@R.family(quick=20, thorough=60)
def spectra(ctx, rng):
    """The documented Fourier bases: DCT, DFT, Kronecker products."""
    from pygsp import graphs
    n, m = int(rng.integers(3, 14)), int(rng.integers(3, 10))
    ctx.describe(n=n, m=m)
    p = 2 - 2 * np.cos(np.pi * np.arange(n) / n)
    r = 2 - 2 * np.cos(2 * np.pi * np.arange(n) / n)
    p2 = 2 - 2 * np.cos(np.pi * np.arange(m) / m)
    r2 = 2 - 2 * np.cos(2 * np.pi * np.arange(m) / m)
    for g, e in ((graphs.Path(n), p), (graphs.Ring(n), r), (graphs.Grid2d(n, m), p[:, None] + p2),
                 (graphs.Torus(n, m), r[:, None] + r2)):
        g.compute_fourier_basis()
        ctx.close(g.e, np.sort(e.ravel()), "closed-form-spectrum", 1e-10, scale=8)
    g = graphs.Path(n)
    g.compute_fourier_basis()
    dct = np.cos(np.pi * (np.arange(n)[:, None] + .5) * np.arange(n)[None] / n)
    dct /= np.linalg.norm(dct, axis=0)
    ctx.close(np.abs((g.U * dct).sum(0)), np.ones(n), "path-dct", 1e-8)


@R.family(quick=12, thorough=40)
def low_stretch_tree(ctx, rng):
    from pygsp import graphs
    k = 1 + ctx.rng_index % 5
    lap = str(rng.choice(["combinatorial", "normalized"]))
    ctx.describe(k=k, lap=lap)
    g = graphs.LowStretchTree(k, lap_type=lap)
    W = g.W.toarray().astype(float)
    n = 4 ** k
    ctx.same(W.shape, (n, n), "n-vertices")
    ctx.same(W, W.T, "undirected")
    ctx.ok(not g.is_directed() and not g.is_weighted() and not g.has_loops(), "simple-binary")
    ctx.same(np.unique(W), [0, 1], "unit-weights")
    ctx.same(W.sum() / 2, n - 1, "tree-edges")
    ctx.same(g.n_edges, n - 1, "tree-edges")
    ctx.ok(len(ref.components(W)) == 1 and g.is_connected(), "tree-connected")
    side = 2 ** k
    ctx.same(sorted(map(tuple, g.coords.tolist())), [(i, j) for i in range(1, side + 1) for j in range(1, side + 1)], "grid-points")
    s, t = np.nonzero(np.triu(W))
    d = np.abs(g.coords[s] - g.coords[t]).sum(1)
    ctx.same(d, np.ones(n - 1), "edges-join-grid-neighbors")
    q = n // 4
    for i in range(4):
        ctx.same(W[i * q:(i + 1) * q, i * q:(i + 1) * q], W[:q, :q], "self-similar")
    cross = s // q != t // q
    ctx.same(cross.sum(), 3, "quadrants-joined")
    ctx.ok(np.isin(np.r_[g.coords[s][cross], g.coords[t][cross]], [side // 2, side // 2 + 1]).all(), "joined-at-center")
    ctx.same(g.root, q, "root")
    limits_cover(ctx, g)


@R.family(quick=1, thorough=3, timeout=200)
def low_stretch_tree_large(ctx, rng):
    """Thousands of vertices: the tree of level k + 1 is four times the tree of level k."""
    from pygsp import graphs
    k = [6, 7][ctx.rng_index % 2]
    ctx.describe(k=k, i=ctx.rng_index // 2)
    g = graphs.LowStretchTree(k)
    n, side = 4 ** k, 2 ** k
    W = g.W.tocoo()
    ctx.same(g.n_vertices, n, "n-vertices")
    ctx.ok((W.data == 1).all() and (g.W != g.W.T).nnz == 0 and not g.is_directed(), "unit-weights")
    ctx.same((W.nnz, g.n_edges), (2 * (n - 1), n - 1), "tree-edges")
    ctx.ok(csgraph.connected_components(g.W)[0] == 1, "tree-connected")
    x, y = np.asarray(g.coords).T.astype(int)
    ctx.same(np.sort(x * (side + 1) + y), np.sort(np.add.outer(np.arange(1, side + 1) * (side + 1), np.arange(1, side + 1)).ravel()), "grid-points")
    ctx.same(np.abs(x[W.row] - x[W.col]) + np.abs(y[W.row] - y[W.col]), np.ones(W.nnz), "edges-join-grid-neighbors")
    q = n // 4
    small = graphs.LowStretchTree(k - 1).W
    for i in range(4):
        ctx.ok((g.W[i * q:(i + 1) * q, i * q:(i + 1) * q] != small).nnz == 0, "self-similar")
    cross = W.row // q != W.col // q
    ctx.same(cross.sum(), 6, "quadrants-joined")
    ctx.ok(np.isin(np.r_[x[W.row[cross]], y[W.row[cross]]], [side // 2, side // 2 + 1]).all(), "joined-at-center")
    ctx.same(g.root, q, "root")
    limits_cover(ctx, g)


@R.family(quick=300, thorough=5000)
def line_graph(ctx, rng):
    from pygsp import graphs
    info = {}
    W = gen.adjacency(rng, nmin=1, nmax=10, negative=rng.uniform() < .1, info=info, large=False)
    n = len(W)
    if not W.any():
        ctx.skip("no edges, hence no vertices")
    src = graphs.Graph(W.copy(), lap_type=str(rng.choice(["combinatorial", "normalized"])))
    if rng.uniform() < .7:
        src.set_coordinates(rng.uniform(size=(n, int(rng.choice([1, 2, 3])))))
    before = ref.snapshot(src) if hasattr(ref, "snapshot") else None
    ctx.describe(W=W)
    lap = str(rng.choice(["combinatorial", "normalized"]))
    g = graphs.LineGraph(src, lap_type=lap)
    s, t, _ = src.get_edge_list()
    m = len(s)
    A = np.zeros((m, m))
    for i in range(m):
        for j in range(m):
            if i != j and {int(s[i]), int(t[i])} & {int(s[j]), int(t[j])}:
                A[i, j] = 1
    ctx.same(g.W.toarray().astype(float), A, "edges-sharing-a-vertex")
    ctx.same(g.lap_type, lap, "lap-type")
    ctx.same(g.n_vertices, m, "one-vertex-per-edge")
    ctx.ok(not g.is_directed() and not g.has_loops(), "simple")
    ctx.same(hasattr(g, "coords"), hasattr(src, "coords"), "coordinates-given")
    if hasattr(src, "coords"):
        ctx.close(g.coords, (src.coords[s] + src.coords[t]) / 2, "midpoints", 1e-12)
    ctx.same(src.W, W, "source-untouched")
    if before is not None:
        ctx.ok(str(ref.snapshot(src)) == str(before), "source-untouched")


@R.family(quick=60, thorough=400)
def rejected(ctx, rng):
    from pygsp import graphs
    n = int(rng.integers(3, 30))
    k = int(n // 2 + rng.integers(1, 5))
    c = int(n + rng.integers(0, 5))
    small = int(rng.integers(0, 3))
    ctx.describe(n=n, k=k, c=c, small=small)
    ctx.raises(lambda: graphs.Ring(n, k), ValueError, "ring-too-many-neighbors")
    ctx.raises(lambda: graphs.Ring(small), ValueError, "ring-too-small")
    ctx.raises(lambda: graphs.Comet(n, c), ValueError, "comet-degree")


def raw(name):
    import pygsp
    from scipy import io
    return io.loadmat(os.path.join(os.path.dirname(pygsp.__file__), "data", "pointclouds", name + ".mat"))


def dense(x):
    return np.asarray(x.todense()) if hasattr(x, "todense") else np.asarray(x)


@R.family(quick=8, thorough=16, timeout=300)
def data_models(ctx, rng):
    from pygsp import graphs
    which = ["Logo", "Minnesota", "MinnesotaRaw", "Airfoil", "Bunny", "TwoMoons", "David64", "David500"][ctx.rng_index % 8]
    lap = "normalized" if ctx.rng_index >= 8 else "combinatorial"
    ctx.describe(model=which, lap=lap)
    # The data of a graph are its own: whatever is done to one, the next is as documented.
    for kw in [{}, dict(connected=False)] if which.startswith("Minnesota") else [{}]:
        args = (int(which[5:]),) if which.startswith("David") else ()
        old = getattr(graphs, "DavidSensorNet" if args else which.replace("Raw", ""))(*args, **kw)
        old.W.data[:] = 3
        old.L.data[:] = 5
        old.coords[:] = 7
        for a in list(getattr(old, "info", {}).values()) + [getattr(old, "labels", None)]:
            if isinstance(a, np.ndarray):
                a[:] = 0
    if which == "Logo":
        g, d = graphs.Logo(lap_type=lap), raw("logogsp")
        W, c = dense(d["W"]).astype(float), d["coords"]
        for k in "gsp":
            ctx.same(g.info["idx_" + k], d["idx_" + k].astype(int) - 1, "logo-letters")
            ctx.ok(g.info["idx_" + k].min() >= 0 and g.info["idx_" + k].max() < g.N, "logo-letters")
        ctx.same((g.N, g.Ne), (1130, 3131), "size")
    elif which.startswith("Minnesota"):
        d = raw("minnesota")
        W, c = dense(d["A"]).astype(float), d["xy"]
        if which == "Minnesota":
            g = graphs.Minnesota(lap_type=lap)
            W[348, 354] = W[354, 348] = 1
            W = (W > 0).astype(float)
            ctx.ok(g.is_connected() and not g.is_weighted(), "minnesota-connected")
            ctx.same((g.N, g.Ne), (2642, 3304), "size")
        else:
            g = graphs.Minnesota(connected=False, lap_type=lap)
            ctx.ok(not g.is_connected(), "minnesota-original")
            ctx.same((g.N, g.Ne), (2642, 3303), "size")
    elif which == "Airfoil":
        g, d = graphs.Airfoil(lap_type=lap), raw("airfoil")
        n = len(d["x"])
        W = np.zeros((n, n))
        i, j = d["i_inds"].ravel().astype(int) - 1, d["j_inds"].ravel().astype(int) - 1
        W[i, j] += .5
        W[j, i] += .5
        c = np.stack((d["x"].ravel(), d["y"].ravel()), 1)
        ctx.same((g.N, g.Ne), (4253, 12289), "size")
    elif which in ("Bunny", "TwoMoons"):
        if which == "Bunny":
            g, X = graphs.Bunny(lap_type=lap), raw("bunny")["bunny"].astype(float)
            ctx.same(g.N, 2503, "size")
        else:
            g, X = graphs.TwoMoons(lap_type=lap), raw("two_moons")["features"][:2].T.astype(float)
            ctx.same(g.N, 2000, "size")
            ctx.same(g.labels, np.repeat([0., 1.], 1000), "labels")
        D = np.sqrt(np.maximum(((X ** 2).sum(1)[:, None] + (X ** 2).sum(1)[None] - 2 * X @ X.T), 0))
        np.fill_diagonal(D, np.inf)
        if which == "Bunny":
            near, sigma = D <= .02, D[D <= .02].mean()
            edge = np.abs(D - .02) < 1e-9
        else:
            kth = np.sort(D, 1)[:, 4]
            near, sigma = D <= kth[:, None], .05
            edge = np.zeros_like(near)
        W = np.where(near, np.exp(-np.where(near, D, 0) ** 2 / sigma if which == "TwoMoons" else -np.where(near, D, 0) ** 2 / g.sigma), 0)
        W = (W + W.T) / 2
        got = g.W.toarray()
        ok = ~edge
        ctx.same((got != 0)[ok], (W != 0)[ok], "true-neighbors")
        ctx.close(got[ok], W[ok], "gaussian-weights", 1e-6)
        ctx.close(g.coords, X, "coordinates", 1e-12)
        ctx.same(g.lap_type, lap, "lap-type")
        return
    else:
        n = int(which[5:])
        g, d = graphs.DavidSensorNet(n, lap_type=lap), raw("david" + str(n))
        W, c = dense(d["W"]).astype(float), d["coords"]
        ctx.same(g.N, n, "size")
    ctx.same(g.W.toarray().astype(float), W, "adjacency")
    ctx.close(g.coords, c.astype(float), "coordinates", 1e-12)
    ctx.ok(not g.is_directed(), "undirected")
    ctx.same(g.lap_type, lap, "lap-type")
    limits_cover(ctx, g)


@R.family(quick=3, thorough=200)
def large(ctx, rng):
    """Every model at a thousand vertices."""
    from pygsp import graphs
    n = int(rng.integers(400, 1300))
    k = int(rng.integers(1, n // 2 + 1))
    a = int(rng.integers(3, 50))
    b = n // a
    diag = float(rng.choice([0, .5]))
    d = bool(rng.integers(2))
    ctx.describe(n=n, k=k, a=a, b=b, diagonal=diag, directed=d)
    g = graphs.Path(n, directed=d)
    ctx.same(g.W, path_w(n, d), "path")
    ctx.close(g.coords, np.stack((np.arange(n), np.zeros(n)), 1), "path-coordinates", 1e-12)
    r = min(k, 60) if rng.uniform() < .7 else k
    g = graphs.Ring(n, r)
    ctx.same(g.W, ring_w(n, r), "ring")
    ctx.close(g.coords, angle(n), "ring-coordinates", 1e-12)
    P, Q = path_w(a), path_w(b)
    g = graphs.Grid2d(a, b, diagonal=diag)
    ctx.same(g.W, kron_sum(P, Q) + diag * np.kron(P, Q), "grid")
    ctx.close(g.coords, np.array([(j / b, (a - 1 - i) / a) for i in range(a) for j in range(b)]), "grid-coordinates", 1e-12)
    if b > 2:
        g = graphs.Torus(a, b)
        ctx.same(g.W, kron_sum(ring_w(b), ring_w(a)), "torus")
        i, j = np.tile(np.arange(a), b) * 2 * np.pi / a, np.repeat(np.arange(b), a) * 2 * np.pi / b
        s = 1.5 + np.sin(j)
        ctx.close(g.coords, np.stack((s * np.cos(i), s * np.sin(i), np.cos(j)), 1), "torus-coordinates", 1e-12)
    W = np.zeros((n, n))
    W[0, 1:k + 1] = W[1:k + 1, 0] = 1
    for i in range(k, n - 1):
        W[i, i + 1] = W[i + 1, i] = 1
    g = graphs.Comet(n, k)
    ctx.same(g.W, W, "comet")
    c = np.zeros((n, 2))
    c[1:k + 1] = np.roll(angle(k), -1, 0)
    c[k + 1:, 0] = np.arange(2, n - k + 1)
    ctx.close(g.coords, c, "comet-coordinates", 1e-12)
    W[:] = 0
    W[0, 1:] = W[1:, 0] = 1
    ctx.same(graphs.Star(n).W, W, "star")
    ctx.same(graphs.FullConnected(n).W, np.ones((n, n)) - np.eye(n), "full")
    # The line graph: edges are adjacent if they share a vertex.
    _, W = gen.large(rng, 100, 500)
    src = graphs.Graph(W)
    s, t, _ = (np.asarray(x, int) for x in src.get_edge_list())
    B = np.zeros((len(s), src.N), bool)
    B[np.arange(len(s)), s] = B[np.arange(len(s)), t] = True
    B = B.astype(np.float32)
    A = (B @ B.T > 0).astype(float)
    np.fill_diagonal(A, 0)
    ctx.same(graphs.LineGraph(src).W, A, "line-graph")
