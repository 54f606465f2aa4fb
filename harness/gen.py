"""Seeded generators of graphs, signals, filters and representations."""
import os

import numpy as np
from scipy import sparse

# Share of the random graphs which are larger than the families ask for: code may switch at a size.
LARGE = float(os.environ.get("VERIF_LARGE", ".05"))
# Share of the random signals of an extreme magnitude.
EXTREME = float(os.environ.get("VERIF_EXTREME", ".05"))

STRUCTS = ["er", "er", "er", "dense", "path", "ring", "star", "complete", "tree",
           "bipartite", "components", "grid", "barbell", "twins", "empty", "isolated",
           "cycle_union", "lollipop"]


def structure(rng, n, kind):
    """Symmetric 0/1 dense matrix without loops."""
    A = np.zeros((n, n))
    if kind == "er":
        p = rng.choice([0.1, 0.2, 0.3, 0.5])
        A = np.triu(rng.uniform(size=(n, n)) < p, 1).astype(float)
    elif kind == "dense":
        A = np.triu(rng.uniform(size=(n, n)) < 0.85, 1).astype(float)
    elif kind in ("path", "ring"):
        for i in range(n - 1):
            A[i, i + 1] = 1
        if kind == "ring" and n > 2:
            A[0, n - 1] = 1
    elif kind == "star":
        A[0, 1:] = 1
    elif kind == "complete":
        A = np.triu(np.ones((n, n)), 1)
    elif kind == "tree":
        for i in range(1, n):
            A[rng.integers(0, i), i] = 1
    elif kind == "bipartite":
        m = max(1, n // 2)
        A[:m, m:] = (rng.uniform(size=(m, n - m)) < 0.5)
    elif kind == "components":
        k = int(rng.integers(2, 4))
        lab = rng.integers(0, k, n)
        A = np.triu((lab[:, None] == lab[None]) & (rng.uniform(size=(n, n)) < 0.6), 1).astype(float)
    elif kind == "grid":
        w = max(1, int(np.sqrt(n)))
        for i in range(n):
            if (i + 1) % w and i + 1 < n:
                A[i, i + 1] = 1
            if i + w < n:
                A[i, i + w] = 1
    elif kind == "barbell":
        m = n // 2
        A[:m, :m] = 1
        A[m:, m:] = 1
        if 0 < m < n:
            A[m - 1, m] = 1
        A = np.triu(A, 1)
    elif kind == "twins":
        B = np.triu(rng.uniform(size=(n, n)) < 0.3, 1)
        B = (B + B.T).astype(float)
        idx = np.arange(n)
        idx[n // 2:] = idx[:n - n // 2]
        A = np.triu(B[np.ix_(idx, idx)], 1)
    elif kind == "isolated":
        m = max(1, n // 2)
        A[:m, :m] = np.triu(rng.uniform(size=(m, m)) < 0.5, 1)
    elif kind == "cycle_union":
        m = n // 2
        for lo, hi in ((0, m), (m, n)):
            for i in range(lo, hi - 1):
                A[i, i + 1] = 1
            if hi - lo > 2:
                A[lo, hi - 1] = 1
    elif kind == "lollipop":
        m = max(1, n // 2)
        A[:m, :m] = np.triu(np.ones((m, m)), 1)
        for i in range(m - 1, n - 1):
            A[i, i + 1] = 1
    A = np.triu(A, 1)
    return A + A.T


def adjacency(rng, n=None, directed=None, weighted=None, loops=None, negative=False,
              scale=None, connected=False, kind=None, nmax=14, nmin=1, relabel=True,
              info=None, large=True):
    """Random dense adjacency.  directed/weighted/loops: None = random."""
    if n is None:
        n = int(rng.integers(nmin, nmax + 1))
        if rng.uniform() < LARGE and large and nmax >= 8:
            n = int(nmax * 10 ** rng.uniform(0, 1))
    if kind is None:
        kind = str(rng.choice(STRUCTS))
    A = structure(rng, n, kind)
    if connected:
        perm = rng.permutation(n)
        for a, b in zip(perm[:-1], perm[1:]):
            if rng.uniform() < 0.7 or not reachable(A, a)[b]:
                A[a, b] = A[b, a] = 1
    if relabel:
        p = rng.permutation(n)
        A = A[np.ix_(p, p)]
    if directed is None:
        directed = rng.uniform() < 0.35
    if weighted is None:
        weighted = rng.choice(["unit", "int", "float", "float"])
    elif weighted is True:
        weighted = "float"
    elif weighted is False:
        weighted = "unit"
    W = A.copy()
    if weighted == "int":
        W = W * rng.integers(1, 6, size=(n, n))
    elif weighted == "float":
        W = W * rng.uniform(0.1, 3, size=(n, n))
    W = np.triu(W, 1)
    W = W + W.T
    if negative:
        S = np.triu(np.where(rng.uniform(size=(n, n)) < 0.3, -1.0, 1.0), 1)
        W = W * (S + S.T)
    if directed:
        mode = rng.choice(["drop", "asym", "orient"])
        if mode == "drop":
            W = W * (rng.uniform(size=(n, n)) < 0.7)
        elif mode == "asym":
            if weighted == "int":
                W = W * rng.integers(1, 3, size=(n, n))
            else:
                W = W * rng.uniform(0.5, 1.5, size=(n, n))
        else:
            keep = np.triu(rng.uniform(size=(n, n)) < 0.5, 1)
            W = W * (keep + (1 - keep.T) * np.tril(np.ones((n, n)), -1))
    if loops is None:
        loops = rng.uniform() < 0.2
    if loops and n:
        d = (rng.uniform(size=n) < 0.4) * (rng.integers(1, 5, n) if weighted != "float"
                                           else rng.uniform(0.1, 3, n))
        W = W + np.diag(d)
    if scale is not None:
        W = W * scale
    if info is not None:
        info.update(n=n, kind=kind, directed=bool(directed), weighted=str(weighted), loops=bool(loops))
    return W


def large(rng, lo=300, hi=2000, directed=None, loops=None, weighted=None, connected=False):
    """(description, CSR matrix): a graph of hundreds to thousands of vertices with about n to 8n edges.

    Rings and paths (long diameters), random graphs (possibly of hundreds of components), grids, trees, preferential
    hubs and stars (degrees above 255), unions of small cliques, vertices in random order."""
    from scipy import sparse
    n = int(rng.integers(lo, hi + 1))
    kinds = ["ring", "path", "random", "grid", "tree", "hubs", "star", "cliques", "dust"]
    kind = str(rng.choice([k for k in kinds if not connected or k not in ("random", "cliques", "dust")]))
    if kind in ("ring", "path"):
        r, c = np.arange(n - 1), np.arange(1, n)
        if kind == "ring":
            r, c = np.r_[r, n - 1], np.r_[c, 0]
    elif kind in ("random", "dust"):
        r, c = rng.integers(0, n, (2, 4 * n if kind == "random" else n // 2))
    elif kind == "grid":
        a = int(n ** .5)
        n = a * a
        i = np.arange(n).reshape(a, a)
        r, c = np.r_[i[:, 1:].ravel(), i[1:].ravel()], np.r_[i[:, :-1].ravel(), i[:-1].ravel()]
    elif kind == "tree":
        r = np.arange(1, n)
        c = (rng.random(n - 1) * r).astype(int)
    elif kind == "hubs":
        r = np.r_[np.arange(1, n), np.arange(n), np.arange(n)]
        c = (np.r_[np.arange(1, n), np.arange(n), np.arange(n)] * rng.random(3 * n - 1) ** 4).astype(int)
    elif kind == "star":
        r, c = np.zeros(n - 1, int), np.arange(1, n)
    else:
        m = int(rng.integers(2, 9))
        r, c = np.arange(n), np.arange(n) // m * m
        r, c = np.r_[r, np.arange(n)], np.r_[c, np.minimum(np.arange(n) // m * m + 1, n - 1)]
    keep = r != c
    r, c = r[keep], c[keep]
    p = rng.permutation(n) if rng.uniform() < .6 else np.arange(n)
    weighted = rng.uniform() < .6 if weighted is None else weighted
    w = rng.uniform(.5, 1.5, r.size) if weighted else np.ones(r.size)
    W = sparse.coo_matrix((w, (p[r], p[c])), (n, n)).tocsr()
    W.sum_duplicates()
    if not weighted:
        W.data[:] = 1
    directed = rng.uniform() < .3 if directed is None else directed
    if not directed:
        W = W.maximum(W.T).tocsr()
    loops = rng.uniform() < .2 if loops is None else loops
    if loops:
        W = (W + sparse.diags((rng.uniform(size=n) < .3) * rng.integers(1, 4, n).astype(float))).tocsr()
        W.eliminate_zeros()
    return dict(n=n, kind=kind, weighted=bool(weighted), directed=bool(directed), loops=bool(loops), nnz=int(W.nnz),
                total=float(W.sum()), trace=float(np.round((W @ np.arange(n)) @ np.sin(np.arange(n)), 6))), W


def edgeless(W):
    """No edge but self-loops: all the frequencies are zero, up to rounding errors."""
    return not (W - np.diag(np.diag(W))).any()


def reachable(A, s):
    seen = np.zeros(len(A), bool)
    stack = [s]
    while stack:
        v = stack.pop()
        if seen[v]:
            continue
        seen[v] = True
        stack.extend(np.nonzero(A[v])[0])
    return seen


def count(rng, lo, hi, most=200):
    """A small number in [lo, hi), rarely a large one."""
    if rng.uniform() < LARGE:
        return int(max(lo, hi * (most / hi) ** rng.uniform()))
    return int(rng.integers(lo, hi))


CONTAINERS = ["ndarray", "list", "fortran", "csr", "csc", "coo", "lil", "dok", "bsr", "dia",
              "csr_array", "coo_array", "csr_zeros", "coo_dup", "csr_dup", "csc_dup", "csr_unsorted", "matrix", "view"]


def container(rng, W, kind=None):
    """The same matrix in another container.  Returns (kind, object)."""
    if kind is None:
        kind = str(rng.choice(CONTAINERS))
    n = W.shape[0]
    if kind == "ndarray":
        return kind, W.copy()
    if kind == "list":
        return kind, W.tolist()
    if kind == "fortran":
        return kind, np.asfortranarray(W)
    if kind == "matrix":
        return kind, np.matrix(W)
    if kind == "view":
        big = np.zeros((2 * n, 2 * n), W.dtype)
        big[::2, ::2] = W
        return kind, big[::2, ::2]
    if kind == "csr_array":
        return kind, sparse.csr_array(W)
    if kind == "coo_array":
        return kind, sparse.coo_array(W)
    if kind == "csr_zeros":
        r, c = np.nonzero(np.ones_like(W))
        keep = (W[r, c] != 0) | (rng.uniform(size=len(r)) < 0.3)
        r, c = r[keep], c[keep]
        return kind, sparse.csr_matrix((W[r, c], (r, c)), shape=(n, n))
    if kind == "coo_dup":
        r, c = np.nonzero(W)
        v = W[r, c]
        if W.dtype.kind == "f" and len(v):
            r, c, v = np.r_[r, r], np.r_[c, c], np.r_[v / 2, v / 2]
        return kind, sparse.coo_matrix((v, (r, c)), shape=(n, n))
    if kind in ("csr_dup", "csc_dup"):
        # Entries stored in two halves.  And entries which cancel.
        r, c = np.nonzero(W if kind == "csr_dup" else W.T)
        v = (W if kind == "csr_dup" else W.T)[r, c]
        if W.dtype.kind == "f" and len(v):
            r, c, v = np.r_[r, r], np.r_[c, c], np.r_[v / 2, v / 2]
        i, j = rng.integers(0, n, (2, 2)) if n else np.empty((2, 0), int)
        free = (W if kind == "csr_dup" else W.T)[i, j] == 0
        i, j = i[free][:1], j[free][:1]
        r, c, v = np.r_[r, i, i], np.r_[c, j, j], np.r_[v, np.full(len(i), 3, v.dtype), np.full(len(i), -3 if W.dtype.kind in "fi" else 0, v.dtype)]
        if W.dtype.kind not in "fi":
            r, c, v = r[:len(r) - 2 * len(i)], c[:len(r) - 2 * len(i)], v[:len(r) - 2 * len(i)]
        p = np.argsort(r, kind="stable")
        ptr = np.searchsorted(r[p], np.arange(n + 1))
        return kind, getattr(sparse, kind[:3] + "_matrix")((v[p], c[p], ptr), shape=(n, n))
    if kind == "csr_unsorted":
        M = sparse.csr_matrix(W)
        data, ind = M.data.copy(), M.indices.copy()
        for i in range(n):
            a, b = M.indptr[i], M.indptr[i + 1]
            p = rng.permutation(b - a) + a
            data[a:b], ind[a:b] = M.data[p], M.indices[p]
        return kind, sparse.csr_matrix((data, ind, M.indptr.copy()), shape=(n, n))
    return kind, getattr(sparse, kind + "_matrix")(W)


def u(rng, lo, hi):
    """Uniform, often at an end."""
    x = rng.uniform()
    return float(lo if x < .1 else hi if x < .2 else rng.uniform(lo, hi))


def signal(rng, n, shape=(), kind=None):
    if rng.uniform() < EXTREME and kind is None:
        return signal(rng, n, shape, "normal") * 10. ** rng.uniform(-25, 25)
    if kind is None:
        kind = str(rng.choice(["normal", "normal", "int", "delta", "uniform", "sparse"]))
    full = (n,) + tuple(shape)
    if kind == "normal":
        return rng.normal(size=full)
    if kind == "int":
        return rng.integers(-5, 6, size=full)
    if kind == "uniform":
        return rng.uniform(size=full) * 10
    if kind == "sparse":
        return rng.normal(size=full) * (rng.uniform(size=full) < 0.3)
    s = np.zeros(full)
    if n:
        s[rng.integers(0, n)] = 1
    return s


def scale(rng):
    return float(rng.choice([1, 1, 1, 1e-12, 1e-6, 1e-3, 50.0, 1e4, 1e8, 1e13]))


def spread(rng, W, share=.1, decades=25):
    """Sometimes, weights that are many orders of magnitude apart."""
    if rng.uniform() >= share or W.dtype != np.float64:
        return W
    F = np.triu(10.0 ** rng.uniform(-decades, decades, W.shape))
    if rng.uniform() < .5:  # a single one is extreme
        F[rng.permutation(F.size).reshape(F.shape) > F.size // 8] = 1
    F = np.triu(F)
    return W * (F + np.triu(F, 1).T)


def model(rng, name=None, small=True):
    """A graph from a random pygsp model: (name, kwargs, graph)."""
    from pygsp import graphs
    name = name or str(rng.choice(sorted(MODEL_KW)))
    kw = MODEL_KW[name](rng)
    return name, kw, getattr(graphs, name)(**kw)


def _s(rng):
    return int(rng.integers(0, 2**31))


MODEL_KW = {
    "Path": lambda r: dict(N=int(r.integers(2, 25)), directed=bool(r.uniform() < .4)),
    "Ring": lambda r: (lambda N: dict(N=N, k=int(r.integers(1, max(2, N // 2)))))(int(r.integers(3, 25))),
    "Grid2d": lambda r: dict(N1=int(r.integers(1, 6)), N2=int(r.integers(2, 6)), diagonal=float(r.choice([0., 0., .5, 1.]))),
    "Torus": lambda r: dict(Nv=int(r.integers(3, 6)), Mv=int(r.integers(3, 6))),
    "Comet": lambda r: (lambda N: dict(N=N, k=int(r.integers(1, N))))(int(r.integers(2, 25))),
    "Star": lambda r: dict(N=int(r.integers(2, 20))),
    "FullConnected": lambda r: dict(N=int(r.integers(2, 20))),
    "LowStretchTree": lambda r: dict(k=int(r.integers(1, 4))),
    "RandomRing": lambda r: dict(N=int(r.integers(3, 25)), seed=_s(r)),
    "RandomRegular": lambda r: dict(N=int(r.integers(8, 20)), k=int(r.choice([2, 4])), seed=_s(r)),
    "BarabasiAlbert": lambda r: dict(N=int(r.integers(5, 25)), m0=2, m=int(r.integers(1, 3)), seed=_s(r)),
    "ErdosRenyi": lambda r: dict(N=int(r.integers(4, 20)), p=float(r.uniform(.1, .7)), directed=bool(r.uniform() < .3), seed=_s(r)),
    "StochasticBlockModel": lambda r: dict(N=int(r.integers(6, 20)), k=2, p=.7, q=.2, seed=_s(r)),
    "Community": lambda r: dict(N=int(r.integers(20, 40)), Nc=3, seed=_s(r)),
    "Sensor": lambda r: dict(N=int(r.integers(10, 30)), k=int(r.integers(2, 6)), seed=_s(r)),
    "DavidSensorNet": lambda r: dict(N=int(r.integers(10, 30)), seed=_s(r)),
    "SwissRoll": lambda r: dict(N=int(r.integers(10, 30)), seed=_s(r)),
    "TwoMoons": lambda r: dict(moontype="synthesized", N=int(r.integers(12, 30)), seed=_s(r)),
    "Sphere": lambda r: dict(nb_pts=int(r.integers(15, 30)), seed=_s(r)),
    "Cube": lambda r: dict(nb_pts=int(r.integers(18, 40)), seed=_s(r)),
}


def spectral_graph(rng, nmin=2, nmax=16, lap=None, scaled=True, directed=None, models=0.3,
                   connected=False, loops=None, large=True):
    """A graph with non-negative weights and some random Laplacian type.

    Returns (graph, W_dense, description)."""
    from pygsp import graphs
    lap = lap or str(rng.choice(["combinatorial", "combinatorial", "normalized"]))
    if rng.uniform() < models and not connected:
        name, kw, _ = None, None, None
        name = str(rng.choice(sorted(MODEL_KW)))
        kw = MODEL_KW[name](rng)
        g = getattr(graphs, name)(lap_type=lap, **kw)
        return g, g.W.toarray().astype(float), dict(model=name, kw=kw, lap=lap)
    sc = scale(rng) if scaled else None
    W = adjacency(rng, nmin=nmin, nmax=nmax, scale=sc, connected=connected, directed=directed,
                  loops=loops, large=large)
    if scaled:
        W = spread(rng, W, float(os.environ.get("VERIF_SPREAD", ".06")), 6)
    g = graphs.Graph(W, lap_type=lap)
    return g, W, dict(W=W, lap=lap)


# ---------------------------------------------------------------- filter banks
FILTERS = ["Heat", "HeatBank", "Rectangular", "Expwin", "Wave", "MexicanHat", "Abspline",
           "Meyer", "HalfCosine", "Itersine", "SimpleTight", "Regular", "Held", "Simoncelli",
           "Papadakis", "poly", "lambda", "lambdas"]


def filterbank(rng, G, name=None):
    """(name, kwargs, bank)."""
    from pygsp import filters
    name = name or str(rng.choice(FILTERS))
    if name == "Heat":
        kw = dict(scale=float(rng.uniform(.1, 30)))
        return name, kw, filters.Heat(G, **kw)
    if name == "HeatBank":
        kw = dict(scale=[float(x) for x in rng.uniform(.1, 30, int(rng.integers(1, 5)))])
        return name, kw, filters.Heat(G, **kw)
    if name in ("Rectangular", "Expwin"):
        kw = dict(band_min=None if rng.uniform() < .5 else u(rng, 0, .5),
                  band_max=None if rng.uniform() < .3 else u(rng, .2, 1))
        return name, kw, getattr(filters, name)(G, **kw)
    if name == "Wave":
        kw = dict(time=[float(x) for x in rng.integers(0, 15, int(rng.integers(1, 4)))],
                  speed=float(rng.uniform(0, 1.9)))
        return name, kw, filters.Wave(G, **kw)
    if name in ("MexicanHat", "Abspline", "Meyer", "SimpleTight"):
        kw = dict(Nf=int(rng.integers(2 if name != "Abspline" else 3, 7)))
        return name, kw, getattr(filters, name)(G, **kw)
    if name == "HalfCosine":
        kw = dict(Nf=int(rng.integers(3, 8)))
        return name, kw, filters.HalfCosine(G, **kw)
    if name == "Itersine":
        kw = dict(Nf=int(rng.integers(2, 8)))
        return name, kw, filters.Itersine(G, **kw)
    if name == "Regular":
        kw = dict(degree=int(rng.integers(0, 5)))
        return name, kw, filters.Regular(G, **kw)
    if name in ("Held", "Simoncelli", "Papadakis"):
        kw = {}
        return name, kw, getattr(filters, name)(G, **kw)
    lm = max(float(G.lmax), 1e-300)
    if name == "poly":
        k = int(rng.integers(1, 4))
        cs = [rng.normal(size=int(rng.integers(1, 6))).tolist() for _ in range(k)]
        ks = [lambda x, c=c: np.polynomial.polynomial.polyval(np.asarray(x) / lm, c) for c in cs]
        return name, dict(coefs=cs), filters.Filter(G, ks)
    a = float(rng.uniform(.1, 5))
    if name == "lambda":
        return name, dict(a=a), filters.Filter(G, lambda x: 1 / (1 + a * np.asarray(x) / lm))
    return "lambdas", dict(a=a), filters.Filter(G, [lambda x: np.exp(-a * np.asarray(x) / lm),
                                                      lambda x: np.sin(a * np.asarray(x) / lm),
                                                      lambda x: 0 * np.asarray(x)])
