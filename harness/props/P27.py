"""P27: layouts give every vertex the documented coordinates."""
import numpy as np
from scipy import sparse

import gen
import ref
from core import Registry

R = Registry()
TECHNIQUE = "runtime monitoring: geometric, spectral and force-simulation oracles on coordinates"
R.rule = "seeded graphs, layout kinds, options and arrays; distinct by content hash"
R.assumptions = ["spectral embeddings: more vertices than eigenvectors, well-separated eigenvalues",
                 "spring layouts in two or three dimensions; force oracle over at most six iterations"]

KINDS = ["line1D", "line2D", "ring2D", "random2D", "random3D", "spring", "community2D",
         "laplacian_eigenmap2D", "laplacian_eigenmap3D"]


def make(rng, nmin=1, nmax=16, **kw):
    from pygsp import graphs
    W = gen.adjacency(rng, nmin=nmin, nmax=nmax, **kw)
    return graphs.Graph(W), W


def unchanged_graph(ctx, G, W):
    ctx.same(G.W.toarray(), W, "graph-unchanged")


@R.family(quick=500, thorough=12000)
def simple(ctx, rng):
    """Lines, rings and random boxes."""
    G, W = make(rng, nmax=60)
    n = G.N
    kind = str(rng.choice(KINDS[:5]))
    seed = gen._s(rng)
    ctx.describe(n > 1, n=n, kind=kind, seed=seed, W=W)
    if rng.uniform() < .5:  # a previous layout leaves no trace
        G.set_coordinates(str(rng.choice(KINDS[:6])))
        ctx.note("after another layout")
    G.set_coordinates(kind, seed=seed)
    X = G.coords
    k = np.arange(n)
    if kind == "line1D":
        ctx.same(X, k, "line")
    elif kind == "line2D":
        ctx.same(X, np.array([[i, 0] for i in range(n)]), "line")
    elif kind == "ring2D":
        ctx.close(X, np.array([[np.cos(2 * np.pi * i / n), np.sin(2 * np.pi * i / n)] for i in range(n)]), "ring", 1e-12, 1)
        ctx.close((X**2).sum(1), np.ones(n), "ring-radius", 1e-12)
    else:
        d = int(kind[-2])
        ctx.ok(X.shape == (n, d), "box-shape", lambda: str(X.shape))
        ctx.ok(((X >= 0) & (X < 1)).all(), "box-bounds")
        ctx.ok(len(np.unique(X)) == X.size, "box-distinct")
        G.set_coordinates(kind, seed=seed)
        ctx.same(G.coords, X, "seed-reproducible")
        G.set_coordinates(kind, seed=seed + 1)
        ctx.ok(not (G.coords == X).any(), "seeds-differ")
        G.set_coordinates(kind)
        Y = G.coords
        G.set_coordinates(kind)
        ctx.ok(not (G.coords == Y).any(), "unseeded-differ")
    ctx.note(kind)
    unchanged_graph(ctx, G, W)


@R.family(quick=4, thorough=40)
def box(ctx, rng):
    """The random boxes are filled uniformly."""
    from pygsp import graphs
    n = 4000
    kind = str(rng.choice(["random2D", "random3D"]))
    seed = gen._s(rng)
    ctx.describe(True, kind=kind, seed=seed)
    G = graphs.Graph(sparse.csr_matrix((n, n)))
    G.set_coordinates(kind, seed=seed)
    X = G.coords
    # standard errors: 0.0046 (mean), 0.0041 (second moment), 0.016 (correlations)
    ctx.close(X.mean(0), np.full(X.shape[1], .5), "uniform-mean", .06)
    ctx.close((X**2).mean(0), np.full(X.shape[1], 1 / 3), "uniform-moment", .1)
    ctx.close(np.corrcoef(X.T), np.eye(X.shape[1]), "uncorrelated", .12)
    h = np.histogram(X, bins=10, range=(0, 1))[0]
    ctx.close(h, np.full(10, X.size / 10), "uniform-histogram", .3)


@R.family(quick=600, thorough=15000)
def arrays(ctx, rng):
    """Coordinates given as an array, in any container; rejected otherwise."""
    G, W = make(rng)
    n = G.N
    form = str(rng.choice(["1d", "column", "2d", "3d", "row", "squeezable"]))
    X = rng.normal(size=(n, int(form[0])) if form in ("2d", "3d") else n)
    if rng.uniform() < .3:
        X = rng.integers(-9, 9, X.shape)
    given = X
    if form == "column":
        given = X[:, None]
    elif form == "row":
        given = X[None, :]
        if n in (2, 3):
            pass
    elif form == "squeezable":
        X = rng.normal(size=(n, int(rng.integers(2, 4))))
        given = X[:, None, :] if rng.uniform() < .5 else X[None]
    cont = str(rng.choice(["array", "list", "tuple", "fortran", "view"]))
    arg = given
    if cont == "list":
        arg = given.tolist()
    elif cont == "tuple":
        arg = tuple(given.tolist())
    elif cont == "fortran":
        arg = np.asfortranarray(given)
    elif cont == "view":
        arg = np.repeat(given, 2, axis=0)[::2]
    if n == 1 and form == "squeezable":
        given = X = rng.normal(size=(1, 2))
        arg = given
    ctx.describe(n > 1, X=X, form=form, cont=cont, n=n)
    ctx.note(f"{form} {cont}")
    before = ref.snapshot(arg)
    by = str(rng.choice(["set", "constructor"])) if form in ("1d", "2d", "3d") else "set"
    if by == "set":
        G.set_coordinates(arg)
    else:
        from pygsp import graphs
        G = graphs.Graph(W, coords=arg)
    ctx.ok(ref.snapshot(arg) == before, "argument-unchanged")
    ctx.same(G.coords, X, "coordinates-kept")
    unchanged_graph(ctx, G, W)
    # Rejected arrays and names leave the coordinates as they were.
    kept = G.coords
    m = int(rng.choice([j for j in (0, 1, 2, 3, n - 1, n + 1, 2 * n + 2) if j >= 0 and j != n]))
    bad = [np.ones((n, 4)), np.ones((m, 2)), np.ones((m, 3)), np.ones((n, 2, 2)), np.ones((n, 3, 2)),
           np.ones((n + 1,)), np.ones((3, n + 4)), np.ones((n, 0))]
    b = bad[int(rng.integers(len(bad)))]
    if n == 1 and b.squeeze().shape == ():  # the single coordinate of a single vertex
        b = np.ones((2, 2))
    if n == 1 and 0 not in b.shape and b.ndim == 3 or b.shape == (1, 3, 2) or b.shape == (1, 2, 2):
        b = np.ones((3, 3))
    if b.squeeze().shape in [(n,), (n, 2), (n, 3)]:
        b = np.ones((n + 1, 2))
    ctx.raises(lambda: G.set_coordinates(b), ValueError, "bad-shape-rejected", str(b.shape))
    ctx.raises(lambda: G.set_coordinates(str(rng.choice(["circle", "", "ring", "RING2D", "spring2D"]))),
               ValueError, "unknown-layout-rejected")
    ctx.ok(G.coords is kept and np.array_equal(G.coords, X), "rejected-unchanged")
    if not hasattr(G, "info"):
        ctx.raises(lambda: G.set_coordinates("community2D"), AttributeError, "no-communities-rejected")
        ctx.ok(G.coords is kept, "rejected-unchanged")


@R.family(quick=200, thorough=4000)
def eigenmap(ctx, rng):
    from pygsp import graphs
    n = int(rng.integers(3, 40)) if rng.uniform() < .8 else int(rng.integers(3, 6))
    W = gen.adjacency(rng, n=n, connected=True, weighted="float", loops=False, directed=rng.uniform() < .2)
    lap = str(rng.choice(["combinatorial", "normalized"]))
    d = int(rng.choice([2, 3])) if n > 3 else 2
    L = ref.laplacian(W, lap)
    ew, Uw = ref.eig(L)
    if (np.diff(ew[:d + 2]) < .02 * ew[-1]).any():
        ctx.skip()
    ctx.describe(True, W=W, lap=lap, d=d)
    G = graphs.Graph(W, lap_type=lap)
    how = str(rng.choice(["none", "full", "fewer", "other-laplacian"]))
    if how == "full":
        G.compute_fourier_basis()
    elif how == "fewer":
        G.compute_fourier_basis(2)
    elif how == "other-laplacian":
        G = graphs.Graph(W, lap_type="normalized" if lap == "combinatorial" else "combinatorial")
        G.compute_fourier_basis()
        G.compute_laplacian(lap)
    ctx.note(f"{lap} {d} {how}")
    G.set_coordinates(f"laplacian_eigenmap{d}D")
    X = G.coords
    ctx.ok(X.shape == (n, d), "eigenmap-shape", lambda: str(X.shape))
    ctx.close(X.T @ X, np.eye(d), "eigenmap-orthonormal", 1e-6)
    ctx.close(np.abs((X * Uw[:, 1:d + 1]).sum(0)), np.ones(d), "eigenmap-vectors", 1e-6)
    ctx.close(L @ X, X * ew[1:d + 1], "eigenmap-eigenpairs", 1e-6, ew[-1])


def forces(A, pos, k, fixed, iterations):
    """Fruchterman-Reingold, one vertex at a time."""
    pos = np.array(pos, float)
    n, d = pos.shape
    for it in range(iterations):
        t = .1 * (iterations + 1 - it) / (iterations + 1)
        new = pos.copy()
        for i in range(n):
            if i in fixed:
                continue
            delta = pos[i] - pos
            dist = np.maximum(np.linalg.norm(delta, axis=1), .01)[:, None]
            f = (delta / dist * k**2 / dist).sum(0)  # everybody repulses
            near = np.asarray(A[i], bool)
            f = f - (delta / dist * dist**2 / k)[near].sum(0)  # neighbours attract
            length = np.linalg.norm(f)
            new[i] = pos[i] + f * t / (length if length >= .01 else .1)
        pos = new
    return pos


@R.family(quick=300, thorough=6000)
def spring(ctx, rng):
    G, W = make(rng, nmax=12, loops=False)
    n = G.N
    kw = {}
    d = 2
    if rng.uniform() < .4:
        d = kw["dim"] = int(rng.choice([2, 3]))
    if rng.uniform() < .4:
        kw["scale"] = float(rng.uniform(.1, 20))
    c = np.zeros(d)
    if rng.uniform() < .4:
        c = rng.normal(size=d) * 10
        kw["center"] = [c, c[None], c.tolist(), [c.tolist()]][int(rng.integers(4))]
    if rng.uniform() < .3:
        kw["k"] = float(rng.uniform(.05, 2))
    it = 50
    if rng.uniform() < .8:
        it = kw["iterations"] = int(rng.integers(0, 7))
    fixed = []
    pos = None
    if rng.uniform() < .5:
        pos = rng.normal(size=(n, d)) * float(rng.choice([.1, 1, 10])) + float(rng.choice([0, 0, 30, -30]))
        kind = str(rng.choice(["array", "int", "list", "dict", "zeros"]))
        if kind == "int":
            pos = rng.integers(-9, 10, (n, d))
        if kind == "zeros":
            pos = pos * (rng.uniform(size=(n, 1)) < .3)
        kw["pos"] = pos
        if kind == "list":
            kw["pos"] = pos.tolist()
        elif kind == "dict":
            kw["pos"] = {i: tuple(pos[i]) for i in range(n)}
        if rng.uniform() < .6:
            m = int(rng.integers(1, n + 1))
            fixed = [int(i) for i in rng.permutation(n)[:m]]
            kw["fixed"] = [fixed, tuple(fixed), np.array(fixed), set(fixed)][int(rng.integers(4))]
    seed = gen._s(rng)
    ctx.describe(n > 1, W=W, seed=seed, **{k: v if not isinstance(v, set) else sorted(v) for k, v in kw.items()})
    ctx.note("options " + " ".join(sorted(kw)))
    before = {k: ref.snapshot(v) if not isinstance(v, (set, dict)) else repr(v) for k, v in kw.items()}
    G.set_coordinates("spring", seed=seed, **kw)
    X = G.coords.copy()
    ctx.ok(before == {k: ref.snapshot(v) if not isinstance(v, (set, dict)) else repr(v) for k, v in kw.items()},
           "arguments-unchanged")
    ctx.ok(X.shape == (n, d), "spring-shape", lambda: str(X.shape))
    ctx.ok(np.isfinite(X).all(), "spring-finite")
    G.set_coordinates("spring", seed=seed, **kw)
    ctx.same(G.coords, X, "seed-reproducible")
    scale = kw.get("scale", 1.)
    if fixed:
        ctx.same(X[fixed], pos[fixed].astype(float), "fixed-in-place")
    else:
        ctx.close(X.mean(0), c, "centred", 1e-9, np.abs(c).max() + scale)
        ext = np.abs(X - c).max()
        if n == 1:
            ctx.close(X[0], c, "single-at-centre", 1e-9, 1 + np.abs(c).max())
        elif ext > 0 or pos is None:
            ctx.close(ext, scale, "scaled", 1e-9, scale + np.abs(c).max())
    unchanged_graph(ctx, G, W)
    if pos is None:
        G.set_coordinates("spring", seed=seed + 1, **kw)
        if n > 2:
            ctx.ok(not np.array_equal(G.coords, X), "seeds-differ")
        start = np.random.default_rng(seed).uniform(size=(n, d)) if it == 0 else None
        start = None
    else:
        start = pos
    if start is not None and it <= 6:
        # A discontinuity (minimum distances and forces) may amplify roundings.
        k = kw.get("k")
        if k is None:
            k = 1 / np.sqrt(n)
            if fixed:
                k *= np.abs(pos).max() or 1
        want = forces(W != 0, start, k, fixed, it)
        near = forces(W != 0, start + rng.normal(size=start.shape) * 1e-9 * (np.abs(start).max() + 1), k, fixed, it)
        if not fixed:
            def place(p):
                p = p - p.mean(0)
                lim = np.abs(p).max()
                return p * (scale / lim if lim > 0 else 1) + c
            want, near = place(want), place(near)
        if np.abs(want - near).max() < 1e-6 * (1 + np.abs(want).max()):
            ctx.close(X, want, "force-directed", 1e-5, np.abs(want).max() + 1e-3)
            ctx.note("force oracle")


@R.family(quick=12, thorough=200)
def spring_quality(ctx, rng):
    """Linked vertices end up closer than the others."""
    from pygsp import graphs
    n = int(rng.integers(12, 40))
    kind = str(rng.choice(["path", "ring", "grid", "tree", "cliques"]))
    if kind == "cliques":
        m = n // 3
        W = np.kron(np.eye(3), np.ones((m, m)) - np.eye(m))
        W[0, m] = W[m, 0] = W[m + 1, 2 * m] = W[2 * m, m + 1] = 1
        G = graphs.Graph(W)
    else:
        G = {"path": lambda: graphs.Path(n), "ring": lambda: graphs.Ring(n),
             "grid": lambda: graphs.Grid2d(4, n // 4), "tree": lambda: None}[kind]()
        if G is None:
            W = np.zeros((n, n))
            for i in range(1, n):
                j = int(rng.integers(0, i))
                W[i, j] = W[j, i] = 1
            G = graphs.Graph(W)
    seed = gen._s(rng)
    ctx.describe(True, kind=kind, n=n, seed=seed, W=G.W.toarray())
    G.set_coordinates(seed=seed)  # the default
    D = ref.distances(G.coords)
    A = G.W.toarray() > 0
    off = ~A & ~np.eye(len(A), dtype=bool)
    ctx.note(kind)
    ctx.ok(D[A].mean() < .8 * D[off].mean(), "linked-closer", lambda: f"{kind} {D[A].mean()} {D[off].mean()}")
    ctx.ok(D[off].min() > 1e-3 or kind == "cliques", "spread", lambda: str(D[off].min()))


@R.family(quick=300, thorough=6000)
def community(ctx, rng):
    from pygsp import graphs
    n = int(rng.integers(1, 30))
    which = str(rng.choice(["info", "Community", "info-sizes"]))
    seed = gen._s(rng)
    if which == "Community":
        n = int(rng.integers(8, 60))
        k = int(rng.integers(1, 5))
        G = graphs.Community(n, Nc=k, seed=seed, **({"world_density": .1} if rng.uniform() < .3 else {}))
    else:
        G = graphs.Graph(gen.adjacency(rng, n=n))
        k = int(rng.integers(1, n + 1))
        lab = rng.integers(0, k, n)
        if rng.uniform() < .7:
            lab = np.unique(lab, return_inverse=True)[1]
        G.info = {"node_com": lab if rng.uniform() < .6 else lab.tolist()}
        if which == "info-sizes":
            G.info["comm_sizes"] = np.bincount(lab, minlength=k)
        if rng.uniform() < .4:
            G.info["world_rad"] = float(rng.uniform(1, 50))
    lab = np.asarray(G.info["node_com"])
    W = G.W.toarray()
    rad = G.info.get("world_rad", np.sqrt(n))
    sizes = np.asarray(G.info.get("comm_sizes", np.bincount(lab)))
    ctx.describe(n > 1, lab=lab, which=which, rad=rad, seed=seed, W=W)
    ctx.note(f"{which} {len(sizes)} communities")
    G.set_coordinates("community2D", seed=seed)
    X = G.coords
    ctx.ok(X.shape == (n, 2), "community-shape")
    nc = len(sizes)
    a = 2 * np.pi * np.arange(1, nc + 1) / nc
    centre = rad * np.stack([np.cos(a), np.sin(a)], 1)
    ctx.close(G.info["com_coords"], centre, "community-centres", 1e-9, rad)
    r = np.linalg.norm(X - centre[lab], axis=1)
    own = np.sqrt(sizes[lab])
    ctx.ok((r <= own * (1 + 1e-9)).all(), "around-centre", lambda: str(r / own))
    if n > 2:
        ctx.ok(len(np.unique(X, axis=0)) == n, "distinct-positions")
    if n >= 20:
        u = r / own
        ctx.ok(u.max() > .5 and u.min() < .5, "disc-filled", lambda: str(u))
        th = np.arctan2(*(X - centre[lab]).T)
        ctx.ok(th.max() > 0 > th.min(), "disc-all-around")
    G.set_coordinates("community2D", seed=seed)
    ctx.same(G.coords, X, "seed-reproducible")
    ctx.same(np.asarray(G.info["node_com"]), lab, "communities-unchanged")
    ctx.same(np.asarray(G.info["comm_sizes"]), sizes, "communities-unchanged")
    ctx.ok(G.info["world_rad"] == rad, "communities-unchanged")
    unchanged_graph(ctx, G, W)


@R.family(quick=4, thorough=300, timeout=120)
def large(ctx, rng):
    """Hundreds of vertices."""
    from pygsp import graphs
    d, S = gen.large(rng, 150, 700)
    n = S.shape[0]
    seed = gen._s(rng)
    ctx.describe(seed=seed, **d)
    g = graphs.Graph(S)
    k = np.arange(n)
    g.set_coordinates("line1D")
    ctx.same(g.coords, k, "line")
    g.set_coordinates("line2D")
    ctx.same(g.coords, np.stack((k, 0 * k), 1), "line")
    g.set_coordinates("ring2D")
    ctx.close(g.coords, np.stack((np.cos(2 * np.pi * k / n), np.sin(2 * np.pi * k / n)), 1), "ring", 1e-12, 1)
    m = min(n, 500)
    h = graphs.Graph(S[:m][:, :m])
    # Two steps of the simulation of forces.
    pos = rng.normal(size=(m, 2))
    want = forces(h.W.toarray() != 0, pos, 1 / np.sqrt(m), [], 2)
    near = forces(h.W.toarray() != 0, pos + rng.normal(size=pos.shape) * 1e-9, 1 / np.sqrt(m), [], 2)
    place = lambda p: (p - p.mean(0)) / np.abs(p - p.mean(0)).max()
    h.set_coordinates("spring", pos=pos, iterations=2, seed=seed)
    if np.abs(place(want) - place(near)).max() < 1e-6:
        ctx.close(h.coords, place(want), "force-directed", 1e-5, 1)
        ctx.note("force oracle")
    # Tens of communities.
    nc = int(rng.integers(2, 60))
    lab = np.sort(np.r_[np.arange(nc), rng.integers(0, nc, n - nc)]) if rng.uniform() < .5 else rng.integers(0, nc, n)
    lab = np.unique(lab, return_inverse=True)[1]
    nc = lab.max() + 1
    g.info = {"node_com": lab}
    g.set_coordinates("community2D", seed=seed)
    a = 2 * np.pi * np.arange(1, nc + 1) / nc
    centre = np.sqrt(n) * np.stack([np.cos(a), np.sin(a)], 1)
    u = np.linalg.norm(g.coords - centre[lab], axis=1) / np.sqrt(np.bincount(lab))[lab]
    ctx.ok((u <= 1 + 1e-9).all(), "around-centre", lambda: f"{u.max()} times the radius")
    ctx.ok(len(np.unique(g.coords, axis=0)) == n, "distinct-positions")
    # Loosely joined groups of different sizes: the smallest frequencies are far from the others and from each other.
    sizes = np.array([9, 14, 23, 37, 60]) * int(rng.integers(1, 4))
    lab = rng.permutation(np.repeat(np.arange(5), sizes))
    n = len(lab)
    W = np.triu(np.where(lab[:, None] == lab, rng.uniform(.5, 1, (n, n)), rng.uniform(0, .05, (n, n))), 1)
    W = W + W.T
    d = int(rng.choice([2, 3]))
    lap = str(rng.choice(["combinatorial", "normalized"]))
    L = ref.laplacian(W, lap)
    ew = np.linalg.eigvalsh(L)
    g = graphs.Graph(W, lap_type=lap)
    g.set_coordinates(f"laplacian_eigenmap{d}D")
    X = g.coords
    ctx.ok(X.shape == (n, d), "eigenmap-shape", lambda: str(X.shape))
    ctx.close(X.T @ X, np.eye(d), "eigenmap-orthonormal", 1e-6)
    ctx.close(L @ X, X * ew[1:d + 1], "eigenmap-eigenpairs", 1e-5, ew[-1])
