"""P21: nearest-neighbour graphs link the true neighbours with the right weights."""
import numpy as np

import gen
import ref
from core import Registry

R = Registry()
TECHNIQUE = "runtime monitoring: brute-force neighbour-search oracle over the built graphs"
R.rule = "seeded point clouds and options; distinct by content hash of points and options"
R.assumptions = [
    "k-nearest graphs whose k-th and (k+1)-th distances tie (margin below 1e-9) are compared on distances only",
    "FLANN is approximate: only the weights of the edges it finds are checked",
    "clouds of identical points are excluded when rescaling (the bounding radius is zero)"]

P = {"euclidean": 2, "manhattan": 1, "max_dist": np.inf}


def points(rng, nmin=2, nmax=24):
    n, d = int(rng.integers(nmin, nmax + 1)), int(rng.integers(1, 6))
    kind = str(rng.choice(["normal", "uniform", "clusters", "offset", "anisotropic", "int", "duplicates", "lattice"],
                          p=[.2, .2, .15, .1, .1, .1, .1, .05]))
    X = rng.normal(size=(n, d))
    if kind == "uniform":
        X = rng.uniform(size=(n, d))
    elif kind == "clusters":
        X = X * .1 + rng.integers(0, 3, (n, 1)) * 2
    elif kind == "offset":
        X = X + 100 * rng.normal(size=d)
    elif kind == "anisotropic":
        X = X * 10. ** rng.integers(-2, 3, d)
    elif kind == "int":
        X = rng.integers(-20, 20, (n, d))
    elif kind == "duplicates":
        X = X[rng.integers(0, max(1, n // 2), n)]
    elif kind == "lattice":
        X = rng.integers(0, 4, (n, d)).astype(float)
    if rng.uniform() < .2:
        X = np.asfortranarray(X)
    return X, kind


def transform(X, center, rescale):
    Y = X.astype(float)
    if center:
        Y = Y - Y.mean(0)
    if rescale:
        r = .5 * np.sqrt(((Y.max(0) - Y.min(0)) ** 2).sum())
        Y = Y * (len(X) ** (1 / min(X.shape[1], 3)) / 10 / r)
    return Y


def options(ctx, rng, X):
    opt = {}
    center, rescale = bool(rng.integers(2)), bool(rng.uniform() < .5)
    if np.ptp(X, axis=0).max() == 0:
        rescale = False
    if not center or rng.uniform() < .5:
        opt["center"] = center
    if not rescale or rng.uniform() < .5:
        opt["rescale"] = rescale
    dist, p = "euclidean", 2
    if rng.uniform() < .6:
        dist = str(rng.choice(["euclidean", "manhattan", "max_dist", "minkowski"]))
        opt["dist_type"] = dist
        if dist == "minkowski":
            opt["order"] = p = float(rng.choice([1, 1.5, 2, 3, 4.5]))
        else:
            p = P[dist]
            if rng.uniform() < .2:
                opt["order"] = 3  # Only used by minkowski.
    sym = "average"
    if rng.uniform() < .6:
        sym = opt["symmetrize_type"] = str(rng.choice(["average", "maximum", "fill", "tril", "triu"]))
    return opt, center, rescale, p, sym


def common(ctx, g, X, Y, center, rescale):
    ctx.same(g.n_vertices, len(X), "n-vertices")
    ctx.close(g.coords, Y, "coordinates", 1e-9)
    if center:
        ctx.ok(np.abs(np.mean(g.coords, 0)).max() <= 1e-9 * max(1, np.abs(X).max()), "centred")
    if rescale:
        ext = np.linalg.norm(np.ptp(g.coords, axis=0)) / 2
        ctx.close(ext, len(X) ** (1 / min(X.shape[1], 3)) / 10, "rescaled", 1e-9)
    ctx.same(g.W.diagonal(), np.zeros(len(X)), "no-self-loop")
    ctx.same(g.W.toarray(), g.W.toarray().T, "symmetric")
    ctx.ok(not g.is_directed(), "undirected")


@R.family(quick=500, thorough=12000)
def knn(ctx, rng):
    from pygsp import graphs
    X, kind = points(rng)
    n = len(X)
    opt, center, rescale, p, sym = options(ctx, rng, X)
    k = int(rng.integers(1, n)) if n < 12 or rng.uniform() < .7 else None
    sigma = None
    if rng.uniform() < .5:
        sigma = opt["sigma"] = float(rng.choice([.01, .1, 1, 5]))
    Y = transform(X, center, rescale)
    ctx.describe(n > 2, X=X, k=k, **opt)
    want, s, margin = ref.knn(Y, k or 10, p, sigma, sym)
    if not s > 0:
        ctx.skip("identical points")
    if k is not None:
        opt["k"] = k
    if rng.uniform() < .3:
        opt["NNtype"] = "knn"
    given = X.copy()
    g = graphs.NNGraph(X, **opt)
    common(ctx, g, X, Y, center, rescale)
    ctx.same(X, given, "points-unchanged")
    ctx.close(g.sigma, s, "sigma", 1e-9)
    W = g.W.toarray()
    scale = np.abs(Y).max()
    if margin > 1e-9 * scale:
        ctx.note("unambiguous")
        ctx.close(W, want, "weights", 1e-8, 1)
        if want.min(initial=1, where=want > 0) > 1e-100:
            ctx.same(W > 0, want > 0, "neighbours")
    else:
        ctx.note("ties")
        # Every vertex is still linked to k vertices, none farther than the k-th distance.
        D = ref.distances(Y, p)
        np.fill_diagonal(D, np.inf)
        kth = np.sort(D, 1)[:, (k or 10) - 1]
        E = np.exp(-np.where(np.isinf(D), 0, D) ** 2 / s)
        allowed = D <= kth[:, None] + 1e-9 * scale
        forced = D < kth[:, None] - 1e-9 * scale
        if sym == "tril":
            allowed, forced = np.tril(allowed) | np.tril(allowed).T, np.tril(forced) | np.tril(forced).T
        elif sym == "triu":
            allowed, forced = np.triu(allowed) | np.triu(allowed).T, np.triu(forced) | np.triu(forced).T
        else:
            allowed, forced = allowed | allowed.T, forced | forced.T
        ctx.ok(not (W > 0)[~allowed].any(), "only-near-linked")
        seen = E > 1e-100
        ctx.ok((W > 0)[forced & seen].all(), "nearer-linked")
        if sym in ("maximum", "fill"):
            ctx.ok(((W > 0).sum(1) >= np.minimum(k or 10, (seen & allowed).sum(1))).all(), "k-neighbours")
        if sym != "average":
            m = W > 0
            ctx.close(W[m], E[m], "weights-tied", 1e-8, 1)


@R.family(quick=350, thorough=8000)
def radius(ctx, rng):
    from pygsp import graphs
    X, kind = points(rng, nmin=1)
    opt, center, rescale, p, sym = options(ctx, rng, X)
    Y = transform(X, center, rescale)
    D = ref.distances(Y, p)
    top = D.max()
    eps = float(top * rng.uniform(0, 1.1)) if rng.uniform() < .8 else float(top / 1e3)
    if rng.uniform() < .1:
        eps = None
    sigma = None
    if rng.uniform() < .5:
        sigma = opt["sigma"] = float(rng.choice([.01, .1, 1, 5]))
    ctx.describe(len(X) > 2, X=X, epsilon=eps, **opt)
    want, s, margin = ref.radius_graph(Y, .01 if eps is None else eps, p, sigma, sym)
    if margin <= 1e-9 * max(np.abs(Y).max(), 1e-300):
        ctx.skip("distance at the radius")
    if eps is not None:
        opt["epsilon"] = eps
    if s is None:
        ctx.raises(lambda: graphs.NNGraph(X, NNtype="radius", **opt), ValueError, "empty-neighbourhoods-rejected")
        return
    if not s > 0:
        ctx.skip("only duplicates")
    if rng.uniform() < .2:
        opt["k"] = int(rng.integers(1, 40))  # Ignored.
    given = X.copy()
    g = graphs.NNGraph(X, NNtype="radius", **opt)
    ctx.same(X, given, "points-unchanged")
    common(ctx, g, X, Y, center, rescale)
    ctx.close(g.sigma, s, "sigma", 1e-9)
    ctx.close(g.W.toarray(), want, "weights", 1e-8, 1)
    if want.min(initial=1, where=want > 0) > 1e-100:
        ctx.same(g.W.toarray() > 0, want > 0, "neighbours")
    ctx.note("edges", int((want > 0).sum()))


@R.family(quick=60, thorough=1000)
def flann(ctx, rng):
    """Approximate search: edges found carry the Gaussian of the true distance."""
    from pygsp import graphs
    X, kind = points(rng, nmin=12, nmax=60)
    opt, center, rescale, p, _ = options(ctx, rng, X)
    opt["symmetrize_type"] = "maximum"
    k = int(rng.integers(1, 8))
    sigma = float(rng.choice([.1, 1, 5]))
    Y = transform(X, center, rescale)
    ctx.describe(True, X=X, k=k, sigma=sigma, **opt)
    g = graphs.NNGraph(X, use_flann=True, k=k, sigma=sigma, **opt)
    common(ctx, g, X, Y, center, rescale)
    W = g.W.toarray()
    E = np.exp(-ref.distances(Y, p) ** 2 / sigma)
    m = W > 0
    ctx.close(W[m], E[m], "weights-of-found", 1e-5, 1)
    ctx.ok(m.sum() >= 0, "ran")
    ctx.note("edges", int(m.sum()))


@R.family(quick=120, thorough=2000)
def rejected(ctx, rng):
    from pygsp import graphs
    X, _ = points(rng)
    n = len(X)
    k = n + int(rng.integers(0, 4))
    ctx.describe(True, X=X, k=k)
    opt = dict(center=bool(rng.integers(2)), rescale=bool(rng.integers(2)))
    ctx.raises(lambda: graphs.NNGraph(X, k=k, **opt), ValueError, "too-many-neighbours-rejected")
    if n <= 10:
        ctx.raises(lambda: graphs.NNGraph(X), ValueError, "default-k-rejected")
    if np.ptp(X, axis=0).max() > 0:
        ctx.raises(lambda: graphs.NNGraph(X, NNtype="unknown", k=1), ValueError, "unknown-type-rejected")
        ctx.raises(lambda: graphs.NNGraph(X, k=1, symmetrize_type="unknown"), ValueError, "unknown-symmetrization")


def image(rng):
    shape = (int(rng.integers(2, 7)), int(rng.integers(2, 7)))
    if rng.uniform() < .4:
        shape += (int(rng.choice([1, 3, 4])),)
    if rng.uniform() < .2:
        return rng.integers(0, 255, shape).astype(np.uint8)
    return rng.uniform(size=shape)


def patches(img, r, c):
    """Patches by mirror-indexing every pixel's window."""
    h, w = img.shape[:2]
    im = img.reshape(h, w, -1)

    def mirror(i, n):
        i = i % (2 * n)
        return i if i < n else 2 * n - 1 - i

    top, left = int((r - .5) / 2), int((c - .5) / 2)
    out = np.empty((h * w, r * c * im.shape[2]), im.dtype)
    for y in range(h):
        for x in range(w):
            out[y * w + x] = np.concatenate([im[mirror(y + i - top, h), mirror(x + j - left, w)]
                                             for i in range(r) for j in range(c)])
    return out


@R.family(quick=3, thorough=100, timeout=120)
def img_patches_large(ctx, rng):
    """Hundreds of pixels, patches of tens to hundreds of features."""
    shape = tuple(rng.integers(12, 26, 2)) + (() if rng.uniform() < .5 else (int(rng.choice([3, 4])),))
    img = rng.integers(0, 255, shape).astype(np.uint8) if rng.uniform() < .3 else rng.uniform(size=shape)
    check_patches(ctx, rng, img, 10, 40)


@R.family(quick=150, thorough=3000)
def img_patches(ctx, rng):
    check_patches(ctx, rng, image(rng), 5, 12)


def check_patches(ctx, rng, img, side, most):
    from pygsp import graphs
    r = int(rng.integers(1, side))
    c = int(rng.integers(1, side))
    shape = (r, c)
    kw = dict(patch_shape=shape)
    if rng.uniform() < .25:
        c, kw = r, dict(patch_shape=(r,))
    elif rng.uniform() < .25:
        r, c, kw = 3, 3, {}
    n = img.shape[0] * img.shape[1]
    k = int(rng.integers(1, min(n, most)))
    ctx.describe(True, img=img, k=k, **kw)
    X = patches(img, r, c)
    if np.ptp(X, axis=0).max() == 0:
        ctx.skip("constant image")
    given = img.copy()
    g = graphs.ImgPatches(img, k=k, **kw)
    ctx.same(img, given, "image-unchanged")
    ctx.close(g.Xin, X, "features", 1e-12)
    Y = transform(X, True, True)
    common(ctx, g, X, Y, True, True)
    want, s, margin = ref.knn(Y, k)
    if margin > 1e-9 * np.abs(Y).max() and s > 0:
        ctx.close(g.W.toarray(), want, "weights", 1e-8, 1)
        ctx.note("unambiguous")
    # Union with the grid.
    h, w = img.shape[:2]
    agg = {}
    how = str(rng.choice(["default", "max", "product"]))
    if how == "max":
        agg["aggregate"] = lambda Wp, Wg: Wp.maximum(Wg)
    elif how == "product":
        agg["aggregate"] = lambda Wp, Wg: Wp.multiply(Wg) + Wg
    u = graphs.Grid2dImgPatches(img, k=k, **kw, **agg)
    Wg = np.zeros((n, n))
    for i in range(n):
        if (i + 1) % w:
            Wg[i, i + 1] = Wg[i + 1, i] = 1
        if i + w < n:
            Wg[i, i + w] = Wg[i + w, i] = 1
    Wp = g.W.toarray()
    want = {"default": Wp + Wg, "max": np.maximum(Wp, Wg), "product": Wp * Wg + Wg}[how]
    ctx.close(u.W.toarray(), want, "union-weights", 1e-8, 1)
    ctx.same(u.n_vertices, n, "union-n-vertices")
    ctx.same(u.coords, graphs.Grid2d(h, w).coords, "union-coordinates")


@R.family(quick=40, thorough=500)
def point_models(ctx, rng):
    """Named point clouds are nearest-neighbour graphs of their documented points."""
    from pygsp import graphs
    seed = gen._s(rng)
    which = str(rng.choice(["Sphere", "Cube", "TwoMoons", "Bunny"], p=[.35, .35, .25, .05]))
    ctx.describe(True, which=which, seed=seed)
    if which == "Bunny":
        g = graphs.Bunny()
        p = 2
        want, s, margin = ref.radius_graph(g.coords, g.epsilon, p, g.sigma)
        ctx.close(g.W.toarray(), want, "radius-model", 1e-5, 1)
        return
    kw = dict(seed=seed)
    if which == "Sphere":
        kw.update(nb_pts=int(rng.integers(15, 80)), radius=float(rng.uniform(.5, 3)), nb_dim=int(rng.integers(2, 5)))
        g = graphs.Sphere(**kw)
        ctx.close(np.linalg.norm(g.Xin, axis=1), np.full(g.N, kw["radius"]), "on-sphere", 1e-9)
    elif which == "Cube":
        kw.update(nb_pts=int(rng.integers(24, 90)), radius=float(rng.uniform(.5, 3)))
        g = graphs.Cube(**kw)
        side = np.abs(g.Xin)
        ctx.ok(side.max() <= kw["radius"] * (1 + 1e-9), "inside-cube", lambda: f"{side.max()} {kw}")
    else:
        g = graphs.TwoMoons(moontype="synthesized", dim=2, sigmag=.05, N=int(rng.integers(30, 80)), seed=seed)
    if g.NNtype == "knn":
        want, s, margin = ref.knn(np.asarray(g.coords, float), g.k, 2, g.sigma)
        if margin > 1e-9:
            ctx.close(g.W.toarray(), want, "knn-model", 1e-8, 1)
            ctx.note("knn model " + which)
    else:
        want, s, margin = ref.radius_graph(np.asarray(g.coords, float), g.epsilon, 2, g.sigma)
        if margin > 1e-9:
            ctx.close(g.W.toarray(), want, "radius-model", 1e-8, 1)
            ctx.note("radius model " + which)


@R.family(quick=6, thorough=150)
def larger(ctx, rng):
    """Hundreds to thousands of points (deep search trees), up to fifty dimensions, sorted and clustered clouds."""
    from pygsp import graphs
    if rng.uniform() < .3:
        n, d = int(rng.integers(200, 400)), int(rng.integers(6, 51))
    else:
        n, d = int(rng.integers(200, 1400)), int(rng.integers(1, 6))
    kind = str(rng.choice(["normal", "uniform", "clusters", "sorted", "curve", "heavy"]))
    X = rng.normal(size=(n, d))
    if kind == "uniform":
        X = rng.uniform(size=(n, d))
    elif kind == "clusters":
        X = X * .05 + rng.integers(0, 3, (n, 1)) * 2
    elif kind == "sorted":
        X = np.sort(X, 0)
    elif kind == "curve":
        t = np.sort(rng.uniform(0, 6, n))
        X = np.stack([np.cos((i + 1) * t + i) for i in range(d)], 1)
    elif kind == "heavy":
        X = np.sign(X) * np.abs(X) ** 3
    opt, center, rescale, p, sym = options(ctx, rng, X)
    Y = transform(X, center, rescale)
    ctx.describe(True, n=n, d=d, kind=kind, total=float(X.sum()), **opt)
    scale = np.abs(Y).max()
    if rng.uniform() < .6:
        k = int(rng.integers(1, 40))
        want, s, margin = ref.knn(Y, k, p, None, sym)
        if margin <= 1e-10 * scale:
            ctx.skip("ties")
        g = graphs.NNGraph(X, k=k, **opt)
        ctx.note("knn")
    else:
        D = ref.distances(Y, p)
        eps = float(np.quantile(D[~np.eye(n, dtype=bool)], rng.uniform(.001, .1)))
        want, s, margin = ref.radius_graph(Y, eps, p, None, sym)
        if margin <= 1e-13 * scale:
            eps *= 1 + 1e-9
            want, s, margin = ref.radius_graph(Y, eps, p, None, sym)
        if margin <= 1e-13 * scale or s is None or not s > 0:
            ctx.skip("distance at the radius")
        g = graphs.NNGraph(X, NNtype="radius", epsilon=eps, **opt)
        ctx.note("radius")
    common(ctx, g, X, Y, center, rescale)
    ctx.close(g.sigma, s, "sigma", 1e-9)
    ctx.close(g.W.toarray(), want, "weights", 1e-8, 1)
    if want.min(initial=1, where=want > 0) > 1e-100:
        ctx.same(g.W.toarray() > 0, want > 0, "neighbours")
    ctx.note("edges", int((want > 0).sum() // 2))
