"""P20: random graph models satisfy their structural guarantees."""
import logging

import numpy as np
from core import Registry
import gen
import ref

R = Registry()
R.rule = ("every random model over random admissible parameters and seeds; structure recomputed from the definition; probabilities "
          "of 0 and 1 checked exactly, others by counting with a 6-sigma margin; non-termination is a violation; distinct by parameters")
R.assumptions = ["statistical checks only flag deviations beyond six standard deviations (five for preferential attachment)",
                 "undirected block models are given symmetric probability matrices, angles are distinct"]
TECHNIQUE = "runtime monitoring: random models over random parameters and seeds, structural invariants and frequency monitors as oracle"


BIG = False


def size(rng, lo, hi, most):
    """A size in [lo, hi), or in [hi, most) for the large graphs."""
    return int(rng.integers(hi, most) if BIG else rng.integers(lo, hi))


def lap_of(rng):
    return str(rng.choice(["combinatorial", "normalized"]))


def plausible(count, n, p, level=1e-10):
    """Whether a number of successes is plausible for n independent draws of probability p."""
    from scipy.stats import binom
    return min(binom.cdf(count, n, p), binom.sf(count - 1, n, p)) > level


def binary_simple(ctx, g, loops=False, directed=False):
    W = g.W.toarray().astype(float)
    ctx.ok(np.isin(W, [0, 1]).all(), "unit-weights")
    if not directed:
        ctx.same(W, W.T, "undirected")
        ctx.ok(not g.is_directed(), "undirected")
    if not loops:
        ctx.ok(not np.diag(W).any(), "no-loops")
    return W


class Warned:
    """Collect the warnings logged by any logger of the library (and keep them silent)."""

    def __enter__(self):
        self.messages = []
        self.disabled, self.handle = logging.root.manager.disable, logging.Logger.handle
        logging.disable(logging.NOTSET)

        def handle(logger, record):
            if not logger.name.startswith("pygsp"):
                return self.handle(logger, record)
            if record.levelno >= logging.WARNING:
                self.messages.append(record.getMessage())

        logging.Logger.handle = handle
        return self

    def __exit__(self, *a):
        logging.Logger.handle = self.handle
        logging.disable(self.disabled)


@R.family(quick=350, thorough=8000, timeout=60)
def random_regular(ctx, rng):
    from pygsp import graphs
    N = size(rng, 2, 40, 350)
    k = int(rng.integers(0, min(N, 9)))
    if rng.uniform() < .1:
        k = int(rng.integers(N, N + 3))  # Impossible.
    seed = gen._s(rng)
    iters = int(rng.integers(1, 30))
    ctx.describe(k > 0, N=N, k=k, seed=seed, max_iter=iters)
    if N * k % 2:
        ctx.raises(lambda: graphs.RandomRegular(N, k, seed=seed), ValueError, "odd-rejected")
        return
    with Warned() as w:
        g = graphs.RandomRegular(N, k, max_iter=iters, seed=seed)
    W = binary_simple(ctx, g)
    regular = bool((W.sum(1) == k).all())
    ctx.ok(regular or w.messages, "failure-reported", lambda: f"degrees {W.sum(1)}")
    ctx.ok(not (regular and w.messages), "success-not-reported-as-failure", lambda: str(w.messages))
    ctx.note("regular" if regular else "failed")
    if k >= N:
        ctx.ok(not regular or k == 0, "impossible-degree-fails")
    if (k <= 2 and N >= 3 * k or k <= 8 and N >= 100) and iters >= 25:
        ctx.ok(regular, "easy-graph-found")


@R.family(quick=150, thorough=3000)
def barabasi_albert(ctx, rng):
    from pygsp import graphs
    m0 = int(rng.integers(1, 7))
    m = int(rng.integers(1, m0 + 1))
    N = max(m0, gen.count(rng, m0, 40, 600))
    seed = gen._s(rng)
    ctx.describe(N > m0, N=N, m0=m0, m=m, seed=seed)
    g = graphs.BarabasiAlbert(N, m0=m0, m=m, seed=seed)
    ctx.same(g.n_vertices, N, "n-vertices")
    W = binary_simple(ctx, g)
    ctx.ok(not W[:m0, :m0].any(), "initial-vertices-disconnected")
    older = np.tril(W, -1).sum(1)
    ctx.same(older[m0:], np.full(N - m0, m), "m-edges-to-older-vertices")
    ctx.same(g.n_edges, m * (N - m0), "n-edges")
    ctx.raises(lambda: graphs.BarabasiAlbert(N, m0=m0, m=m0 + 1 + int(rng.integers(3))), ValueError, "m-above-m0")


@R.family(quick=2, thorough=8, timeout=300)
def preferential_attachment(ctx, rng):
    """Frequencies of attachment against (1 + degree) / sum."""
    from pygsp import graphs
    base, n = int(rng.integers(2**30)), 2500
    ctx.describe(base=base)
    hub, first = 0, 0
    for s in range(n):
        W = graphs.BarabasiAlbert(4, seed=base + s).W.toarray()
        # After three vertices: a path; the middle has degree 2, the ends 1.
        deg = W[:3, :3].sum(1)
        hub += bool(W[3, int(np.argmax(deg))])
        first += bool(W[2, 0])
    for count, p, what in ((hub, 3 / 7, "hub"), (first, .5, "first")):
        ctx.ok(plausible(count, n, p, 1e-7), "attachment-frequency", f"{what}: {count}/{n}, expected {p}")


@R.family(quick=250, thorough=5000)
def erdos_renyi(ctx, rng):
    from pygsp import graphs
    N = size(rng, 1, 45, 220)
    p = float(rng.choice([0, 1, .02, .1, .3, .5, .9]))
    kw = dict(directed=bool(rng.uniform() < .5), self_loops=bool(rng.uniform() < .5))
    connected = bool(rng.uniform() < .3)
    seed = gen._s(rng)
    ctx.describe(N > 1, N=N, p=p, connected=connected, seed=seed, **kw)
    if connected:
        n_try = int(rng.integers(1, 6))
        try:
            g = graphs.ErdosRenyi(N, p, connected=True, n_try=n_try, seed=seed, **kw)
        except ValueError:
            ctx.note("not-connected-rejected")
            ctx.ok(not (p == 1 and N > 0), "complete-graph-is-connected")
            return
        ctx.ok(ref.strongly_connected(g.W.toarray()), "connected")
    else:
        g = graphs.ErdosRenyi(N, p, seed=seed, **kw)
    W = binary_simple(ctx, g, kw["self_loops"], kw["directed"])
    ctx.same(g.n_vertices, N, "n-vertices")
    if connected and p < 1:
        return  # Conditioned, not independent.
    off = ~np.eye(N, dtype=bool)
    if not kw["directed"]:
        off = np.triu(off)
    n, count = off.sum(), W[off].sum()
    ctx.ok(plausible(count, n, p), "edge-frequency", f"{count}/{n}, p={p}")
    if kw["self_loops"]:
        count = np.diag(W).sum()
        ctx.ok(plausible(count, N, p), "loop-frequency", f"{count}/{N}, p={p}")
    if kw["directed"]:
        both = np.triu(W * W.T, 1).sum()
        n, q = N * (N - 1) / 2, p * p
        ctx.ok(plausible(both, n, q), "arcs-independent", f"{both}/{n}")


@R.family(quick=300, thorough=6000)
def stochastic_block_model(ctx, rng):
    from pygsp import graphs
    N, k = size(rng, 1, 40, 220), size(rng, 1, 5, 30)
    directed, loops = bool(rng.uniform() < .5), bool(rng.uniform() < .5)
    seed = gen._s(rng)
    exact = rng.uniform() < .6
    kw = dict(directed=directed, self_loops=loops, seed=seed)

    def prob(shape):
        return rng.integers(0, 2, shape).astype(float) if exact else rng.choice([0, .1, .3, .5, .8, 1.], shape)

    z = None
    if rng.uniform() < .6:
        z = rng.integers(0, k, N)
        if rng.uniform() < .4:
            z = np.sort(z)
        kw["z"] = z.copy() if rng.uniform() < .7 else z.tolist()
    how = str(rng.choice(["M", "M-list", "p,q scalar", "p vector", "q matrix", "default", "q integer"]))
    if how.startswith("M"):
        M = prob((k, k))
        if not directed:
            M = np.triu(M) + np.triu(M, 1).T
        kw["M"] = M.copy() if how == "M" else M.tolist()
    elif how == "default":
        M = np.full((k, k), .3 / k)
        np.fill_diagonal(M, .7)
    else:
        p = prob(k) if how != "p,q scalar" else float(prob(()))
        q = float(prob(()))
        if how.startswith("q"):
            q = prob((k, k))
            q = q if directed else np.triu(q) + np.triu(q, 1).T
        if how == "q integer":
            q = np.rint(q).astype(int)
        kw.update(p=p.copy() if isinstance(p, np.ndarray) else p, q=q.copy() if isinstance(q, np.ndarray) else q)
        M = np.full((k, k), q) if np.size(q) == 1 and not isinstance(q, np.ndarray) else q.astype(float)
        M = M.astype(float)
        np.fill_diagonal(M, p)
    ctx.describe(N > 1, N=N, k=k, how=how, z=z, M=M, directed=directed, loops=loops, seed=seed)
    before = ref.snapshot(kw)
    g = graphs.StochasticBlockModel(N, k, **kw)
    ctx.ok(ref.snapshot(kw) == before, "arguments-untouched")
    ctx.ok(isinstance(repr(g), str) and f"k={k}" in repr(g), "representable")
    W = binary_simple(ctx, g, loops, directed)
    ctx.same(g.n_vertices, N, "n-vertices")
    if z is None:
        z = np.asarray(g.z)
        ctx.ok(len(z) == N and z.min() >= 0 and z.max() < k and (np.diff(z) >= 0).all(), "default-classes")
        ctx.ok(all(plausible(np.sum(z < c), N, c / k) for c in range(1, k)), "default-classes-uniform", lambda: str(np.bincount(z)))
    else:
        ctx.same(np.asarray(g.z), z, "classes")
    ctx.close(np.asarray(g.M, float), M, "probabilities", 1e-12, scale=1)
    ctx.same(g.info["node_com"], z, "info-classes")
    ctx.same(g.info["comm_sizes"], np.bincount(z), "info-sizes")
    P = M[np.ix_(z, z)]
    mask = np.ones((N, N), bool) if directed else np.tri(N, dtype=bool)
    if not loops:
        mask &= ~np.eye(N, dtype=bool)
    ctx.ok((W[mask & (P == 0)] == 0).all(), "impossible-edges")
    ctx.ok((W[mask & (P == 1)] == 1).all(), "certain-edges")
    for a in range(k):
        for b in range(k):
            m = mask & (z[:, None] == a) & (z[None] == b)
            n, p = m.sum(), M[a, b]
            if n:
                ctx.ok(plausible(W[m].sum(), n, p), "block-frequency",
                       lambda: f"block {a},{b}: {W[m].sum()}/{n}, p={p}")


@R.family(quick=60, thorough=600)
def sbm_rejected(ctx, rng):
    from pygsp import graphs
    k = int(rng.integers(2, 5))
    M = np.full((k, k), .5)
    M[rng.integers(k), rng.integers(k)] = float(rng.choice([-.1, 1.1, 2]))
    how = int(rng.integers(7))
    N = int(rng.integers(4, 15))
    ctx.describe(k=k, how=how, N=N, M=M)
    kw = [dict(M=M), dict(M=M.tolist()), dict(p=1.5), dict(q=-.5), dict(p=np.full(k + 1, .5)), dict(q=np.full((k, k + 1), .5)),
          dict(p=0., q=0., connected=True)][how]
    ctx.raises(lambda: graphs.StochasticBlockModel(N, k, **kw), ValueError, "rejected")


@R.family(quick=250, thorough=5000, timeout=60)
def community(ctx, rng):
    from pygsp import graphs
    N = size(rng, 4, 90, 900)
    Nc = size(rng, 1, 6, 40) if rng.uniform() < .8 else None
    nc = Nc if Nc is not None else int(round(np.sqrt(N) / 2))
    if nc > N:
        ctx.skip("more communities than vertices")
    kw = dict(seed=gen._s(rng))
    if Nc is not None:
        kw["Nc"] = Nc
    min_comm = int(round(N / (3 * nc)))
    sizes = None
    if rng.uniform() < .4 and Nc is not None:
        cuts = np.sort(rng.integers(0, N + 1, Nc - 1))
        sizes = np.diff(np.r_[0, cuts, N]).astype(int)
        kw["comm_sizes"] = sizes.tolist() if rng.uniform() < .5 else sizes.copy()
    elif rng.uniform() < .4:
        min_comm = int(rng.integers(0, N // nc + 1))
        kw["min_comm"] = min_comm
    if rng.uniform() < .5:
        kw["size_ratio"] = float(rng.choice([.5, 1, 2, 3.5]))
    if rng.uniform() < .7:
        kw["world_density"] = float(rng.choice([0, .02, .1, .3, .35, .5, .8, 1]))
    intra = str(rng.choice(["density", "k", "k" if BIG else "eps", "eps", "default", "density+k"]))
    if intra.startswith("density"):
        kw["comm_density"] = float(rng.choice([0, .1, .25, .5, .9, 1]))
    if intra in ("k", "density+k"):
        kw["k_neigh"] = size(rng, 0, 12, 60)
    if intra == "eps":
        kw["epsilon"] = float(rng.choice([.2, .5, 1, 3]))
    ctx.describe(N=N, **kw)
    g = graphs.Community(N, **kw)
    W = binary_simple(ctx, g)
    ctx.same(g.n_vertices, N, "n-vertices")
    z = np.asarray(g.info["node_com"])
    ctx.ok(len(z) == N and (np.diff(z) >= 0).all() and z.min() >= 0 and z.max() < nc, "labels-sorted")
    cs = np.bincount(z, minlength=nc)
    ctx.same(g.info["comm_sizes"], cs, "community-sizes")
    if sizes is not None:
        ctx.same(cs, sizes, "requested-sizes")
    else:
        ctx.ok((cs >= min_comm).all(), "minimum-size")
    # Coordinates: in discs of radius sqrt(size) around centres on a circle of radius size_ratio sqrt(N).
    rad = kw.get("size_ratio", 1) * np.sqrt(N)
    a = 2 * np.pi * np.arange(1, nc + 1) / nc
    centers = rad * np.stack((np.cos(a), np.sin(a)), 1)
    ctx.close(g.info["com_coords"], centers, "centers", 1e-9, scale=rad)
    ctx.close(g.info["world_rad"], rad, "world-radius", 1e-12)
    dist = np.linalg.norm(g.coords - centers[z], axis=1)
    ctx.ok((dist <= np.sqrt(cs[z]) * (1 + 1e-9)).all(), "vertices-in-their-community-disc")
    D = ref.distances(g.coords)
    same = z[:, None] == z[None]
    off = ~np.eye(N, dtype=bool)
    if intra.startswith("density"):
        for c in range(nc):
            m = (z == c)
            M = cs[c] * (cs[c] - 1) / 2
            e = W[np.ix_(m, m)].sum() / 2
            ctx.ok(abs(e - kw["comm_density"] * M) < 1 + 1e-9, "community-density", lambda: f"{e} of {M}")
    elif intra == "k":
        A = np.zeros((N, N), bool)
        Dm = np.where(same & off, D, np.inf)
        for i in range(N):
            kk = min(kw["k_neigh"], cs[z[i]] - 1)
            A[i, np.argsort(Dm[i])[:kk]] = True
        A |= A.T
        ctx.same(W[same & off], A[same & off].astype(float), "community-neighbors")
    else:
        eps = kw.get("epsilon", np.sqrt(2 * np.sqrt(N)) / 2)
        sure = same & off & (np.abs(D - eps) > 1e-9)
        ctx.same(W[sure], (D <= eps)[sure].astype(float), "community-radius")
    M = (~same).sum() / 2
    wd = kw.get("world_density", 1 / N)
    e = W[~same].sum() / 2
    ctx.ok(abs(e - wd * M) < 1 + 1e-9, "world-density", lambda: f"{e} of {M} at {wd}")


@R.family(quick=60, thorough=600)
def community_rejected(ctx, rng):
    from pygsp import graphs
    N = int(rng.integers(6, 40))
    how = int(rng.integers(8))
    ctx.describe(how=how, N=N)
    kw = [dict(world_density=-.1), dict(world_density=1.2), dict(comm_density=1.5), dict(comm_density=-.5), dict(k_neigh=-1),
          dict(Nc=2, min_comm=N), dict(Nc=2, comm_sizes=[N]), dict(Nc=2, comm_sizes=[N, 1])][how]
    ctx.raises(lambda: graphs.Community(N, seed=0, **kw), ValueError, "rejected")


@R.family(quick=150, thorough=3000)
def random_ring(ctx, rng):
    from pygsp import graphs
    lap = lap_of(rng)
    if rng.uniform() < .5:
        angles = rng.uniform(0, 2 * np.pi, size(rng, 3, 40, 1500))
        if rng.uniform() < .5:
            angles.sort()
        arg = angles.copy() if rng.uniform() < .6 else angles.tolist()
        before = ref.snapshot(arg)
        ctx.describe(angles=angles, lap=lap)
        g = graphs.RandomRing(angles=arg, lap_type=lap)
        ctx.ok(ref.snapshot(arg) == before, "angles-untouched")
        angles = np.sort(angles)
        bad = angles.copy()
        bad[int(rng.integers(len(bad)))] = float(rng.choice([-.1, 6.4, 10]))
        ctx.raises(lambda: graphs.RandomRing(angles=bad), ValueError, "angles-out-of-range")
        ctx.raises(lambda: graphs.RandomRing(angles=angles[:2]), ValueError, "too-few")
    else:
        n, seed = size(rng, 3, 60, 1500), gen._s(rng)
        ctx.describe(n=n, seed=seed, lap=lap)
        g = graphs.RandomRing(n, seed=seed, lap_type=lap)
        angles = np.asarray(g.angles)
        ctx.ok(len(angles) == n and (np.diff(angles) >= 0).all() and angles.min() >= 0 and angles.max() < 2 * np.pi, "angles-sorted")
        ctx.raises(lambda: graphs.RandomRing(int(rng.integers(0, 3))), ValueError, "too-few")
    n = len(angles)
    W = np.zeros((n, n))
    for i in range(n):
        j = (i + 1) % n
        d = (angles[j] - angles[i]) % (2 * np.pi)
        W[i, j] = W[j, i] = (2 * np.pi / n) / d
    ctx.same(g.angles, angles, "angles")
    ctx.close(g.W, W, "inverse-angular-distances", 1e-9)
    ctx.close(g.coords, np.stack((np.cos(angles), np.sin(angles)), 1), "coordinates", 1e-12)
    ctx.same(g.lap_type, lap, "lap-type")


@R.family(quick=120, thorough=2500)
def sensor(ctx, rng):
    from pygsp import graphs
    lap, seed = lap_of(rng), gen._s(rng)
    distributed = bool(rng.uniform() < .5)
    m = size(rng, 3, 9, 31)
    if distributed and rng.uniform() < .05:
        m = int(rng.choice([29, 31]))
    N = m * m if distributed else size(rng, 8, 60, 900)
    k = size(rng, 1, 7, 50)
    ctx.describe(N=N, k=k, distributed=distributed, seed=seed, lap=lap)
    g = graphs.Sensor(N, k=k, distributed=distributed, seed=seed, lap_type=lap)
    ctx.same(g.coords.shape, (N, 2), "one-point-per-vertex")
    ctx.ok(g.coords.min() >= 0 and g.coords.max() <= 1, "unit-square")
    if distributed:
        cells = np.floor(g.coords * m + 1e-12).astype(int)
        ctx.same(sorted(map(tuple, cells.tolist())), [(i, j) for i in range(m) for j in range(m)], "one-point-per-cell")
        ctx.raises(lambda: graphs.Sensor(m * m + 1, distributed=True), ValueError, "perfect-square")
    W, s, margin = ref.knn(np.asarray(g.coords), k)
    if margin < 1e-9:
        ctx.skip("tie")
    ctx.close(g.W, W, "neighbor-graph", 1e-9)
    ctx.ok((ref.degree(g.W.toarray()) >= k).all(), "minimum-degree")
    ctx.raises(lambda: graphs.Sensor(int(rng.integers(1, k + 1)), k=k), ValueError, "too-many-neighbors")


@R.family(quick=2, thorough=3, timeout=300)
def sensor_sizes(ctx, rng):
    """Distributed sensors of every square size."""
    from pygsp import graphs
    sizes = range(3, 51) if ctx.rng_index == 0 else rng.integers(50, 70, 6).tolist()
    ctx.describe(sizes=list(sizes))
    for m in sizes:
        g = graphs.Sensor(m * m, k=1, distributed=True, seed=1)
        ctx.same(g.coords.shape, (m * m, 2), "one-point-per-vertex")


@R.family(quick=120, thorough=2500)
def cube_sphere(ctx, rng):
    from pygsp import graphs
    lap, seed = lap_of(rng), gen._s(rng)
    n = size(rng, 12, 120, 1500)
    r = float(rng.choice([1, 1, .5, 2, 10]))
    name = str(rng.choice(["Cube", "Sphere"]))
    dim = int(rng.choice([2, 3]))
    ctx.describe(model=name, n=n, radius=r, dim=dim, seed=seed)
    if rng.uniform() < .1:
        ctx.raises(lambda: getattr(graphs, name)(nb_pts=n, sampling="regular"), ValueError, "sampling")
        ctx.raises(lambda: graphs.Cube(nb_pts=n, nb_dim=int(rng.choice([1, 4, 5]))), NotImplementedError, "dimension")
        return
    kw = {} if r == 1 and rng.uniform() < .5 else dict(radius=r)
    g = getattr(graphs, name)(nb_pts=n, nb_dim=dim, seed=seed, lap_type=lap, **kw)
    ctx.same(g.n_vertices, n, "n-vertices")
    X = np.asarray(g.coords)
    ctx.same(X.shape, (n, dim), "coordinates-shape")
    if name == "Sphere":
        ctx.close(np.linalg.norm(X, axis=1), np.full(n, r), "on-the-sphere", 1e-9)
        ctx.ok((np.abs(X.mean(0)) < 6 * r / np.sqrt(dim * n)).all(), "sphere-not-one-sided")
    else:
        ctx.ok(X.min() >= -1e-12 * r and X.max() <= r * (1 + 1e-12), "in-the-cube")
        if dim == 3:
            faces = np.concatenate((np.abs(X) <= 1e-12 * r, np.abs(X - r) <= 1e-12 * r), 1)
            ctx.ok(faces.any(1).all(), "on-the-cube-faces")
            ctx.ok((faces.sum(0) >= n // 6).all(), "every-face-sampled", lambda: str(faces.sum(0)))
            for f in range(6):  # Points are spread over the two other dimensions of each face.
                Y = np.delete(X[faces[:, f]], f % 3, 1)
                if len(Y) >= 10:
                    ctx.ok(np.ptp(Y, 0).min() > .05 * r and abs(np.corrcoef(Y.T)[0, 1]) < .999, "points-spread-on-faces", lambda: str(Y))
    W, s, margin = ref.knn(X, 10)
    if margin < 1e-9:
        ctx.skip("tie")
    ctx.close(g.W, W, "neighbor-graph", 1e-9)


@R.family(quick=80, thorough=1500)
def swiss_roll(ctx, rng):
    from pygsp import graphs
    N, seed = size(rng, 5, 80, 700), gen._s(rng)
    a, b = sorted(rng.choice([1, 2, 3, 4, 5], 2, replace=False).tolist())
    dim, noise = int(rng.choice([2, 3])), bool(rng.uniform() < .3)
    srtype = str(rng.choice(["uniform", "classic"]))
    kw = dict(a=a, b=b) if rng.uniform() < .6 else {}
    a, b = (a, b) if kw else (1, 4)
    s, thresh = np.sqrt(2 / N), 1e-6
    if rng.uniform() < .4:
        kw["s"] = s = float(rng.uniform(.1, 1))
    if rng.uniform() < .4:
        kw["thresh"] = thresh = float(rng.choice([1e-3, .1, .5]))
    ctx.describe(N=N, seed=seed, dim=dim, noise=noise, srtype=srtype, **kw)
    g = graphs.SwissRoll(N, dim=dim, noise=noise, srtype=srtype, seed=seed, **kw)
    x = np.asarray(g.x)
    ctx.same(x.shape, (dim, N), "points-shape")
    if not noise:
        t = np.hypot(x[0], x[-1])
        ctx.ok((t >= a * np.pi - 1e-9).all() and (t <= b * np.pi + 1e-9).all(), "radius-range")
        ctx.close(x[0], t * np.cos(t), "on-the-spiral", 1e-9, scale=20)
        ctx.close(x[-1], t * np.sin(t), "on-the-spiral", 1e-9, scale=20)
        if dim == 3:
            ctx.ok(x[1].min() >= 0 and x[1].max() <= 21, "height")
    y = x - x.mean(1, keepdims=True)
    y = (y / y.max()).T
    ctx.close(g.coords, y, "rescaled-coordinates", 1e-9)
    W = np.exp(-ref.distances(y) ** 2 / (2 * s ** 2))
    np.fill_diagonal(W, 0)
    sure = np.abs(W - thresh) > 1e-9 * thresh
    W[W < thresh] = 0
    ctx.close(np.where(sure, g.W.toarray(), 0), np.where(sure, W, 0), "gaussian-weights", 1e-7)
    ctx.raises(lambda: graphs.SwissRoll(N, srtype="?"), ValueError, "srtype")
    ctx.raises(lambda: graphs.SwissRoll(N, dim=int(rng.choice([1, 4]))), ValueError, "dimension")


@R.family(quick=60, thorough=800)
def two_moons(ctx, rng):
    from pygsp import graphs
    if rng.uniform() < .1:
        ctx.describe(bad=True)
        ctx.raises(lambda: graphs.TwoMoons(moontype="?"), ValueError, "moontype")
        return
    N, seed = size(rng, 12, 80, 900), gen._s(rng)
    sigmad = float(rng.choice([0, .01, .05]))
    dist, sigmag = float(rng.choice([.2, .5, 1])), float(rng.choice([.05, .5]))
    ctx.describe(N=N, seed=seed, sigmad=sigmad, distance=dist, sigmag=sigmag)
    g = graphs.TwoMoons(moontype="synthesized", N=N, sigmad=sigmad, distance=dist, sigmag=sigmag, seed=seed)
    X = np.asarray(g.coords)
    ctx.same(X.shape, (N, 2), "one-point-per-vertex")
    ctx.same(g.labels, np.r_[np.zeros(N // 2), np.ones(N - N // 2)], "labels")
    first = np.arange(N) < N // 2
    c = np.where(first[:, None], [.5, -(dist - 1) / 2], [-.5, (dist - 1) / 2])
    d = X - c
    r = np.hypot(d[:, 0], d[:, 1])
    ctx.ok((np.abs(r - 1) <= 6 * sigmad + 1e-9).all(), "on-the-arcs")
    if sigmad == 0:
        ctx.ok((d[first, 1] <= 1e-12).all() and (d[~first, 1] >= -1e-12).all(), "half-moons")
    W, s, margin = ref.knn(X, 5, sigma=sigmag)
    if margin < 1e-9:
        ctx.skip("tie")
    ctx.close(g.W, W, "neighbor-graph", 1e-9)


@R.family(quick=60, thorough=800)
def david_sensor_net(ctx, rng):
    from pygsp import graphs
    N, seed = size(rng, 3, 120, 1200), gen._s(rng)
    if N in (64, 500) or 730 < N < 790:
        ctx.skip("stored graph, or no distance below the vanishing cutoff")
    lap = lap_of(rng)
    ctx.describe(N=N, seed=seed, lap=lap)
    g = graphs.DavidSensorNet(N, seed=seed, lap_type=lap)
    X = np.asarray(g.coords)
    ctx.same(X.shape, (N, 2), "one-point-per-vertex")
    ctx.ok(X.min() >= 0 and X.max() <= 1, "unit-square")
    cut = -.125 * N / 436.075 + .2183
    W = np.exp(np.log(.6) * (ref.distances(X) / cut) ** 2)
    sure = np.abs(W - .6) > 1e-9
    W[W < .6] = 0
    np.fill_diagonal(W, 0)
    ctx.close(np.where(sure, g.W.toarray(), 0), np.where(sure, W, 0), "cut-gaussian-weights", 1e-9)
    ctx.same(g.lap_type, lap, "lap-type")


@R.family(quick=2, thorough=100, timeout=300)
def attachment_large(ctx, rng):
    """Every attachment of a large graph against (1 + degree) / sum: the conditional ranks are uniform."""
    from scipy import stats
    from pygsp import graphs
    N, seed = int(rng.integers(500, 1100)), gen._s(rng)
    ctx.describe(N=N, seed=seed)
    W = graphs.BarabasiAlbert(N, seed=seed).W.toarray()
    deg = np.zeros(N)
    u = []
    z = np.zeros((3, 2))  # Martingales: observed minus expected, and variances.
    for i in range(1, N):
        t = int(np.nonzero(W[i, :i])[0][0])
        p = deg[:i] + 1
        p = p / p.sum()
        more = p[deg[:i] > deg[t]].sum()
        same = p[deg[:i] == deg[t]].sum()
        u.append(more + same * rng.uniform())
        for k, f in enumerate((np.log1p(deg[:i]), np.arange(i) / i, deg[:i] == 1)):
            z[k] += f[t] - p @ f, p @ f ** 2 - (p @ f) ** 2
        deg[t] += 1
        deg[i] += 1
    u = np.array(u)
    for name, x in (("all", u), ("late", u[len(u) // 2:])):
        pv = stats.kstest(x, "uniform").pvalue
        ctx.ok(pv > 1e-10, "attachment-ranks", lambda: f"{name}: p-value {pv}")
    z = z[:, 0] / np.sqrt(z[:, 1])
    ctx.ok((np.abs(z) < 6.5).all(), "attachment-degrees-and-ages", lambda: f"{z} standard deviations (log-degree, age, leaves)")


@R.family(quick=12, thorough=4000, timeout=300)
def distributions(ctx, rng):
    """What many seeds give together: every pair of vertices equally often, every region equally often."""
    from scipy import stats
    from pygsp import graphs
    model = ["pairs", "community", "sizes", "points", "pairs", "community"][ctx.rng_index % 6]
    first = gen._s(rng)
    S = 200
    seeds = range(first, first + S)

    def counts(make, P, what):
        total = sum(make(s).W.toarray().astype(float) for s in seeds)
        n = len(P)
        for i in range(n):
            for j in range(n):
                ctx.ok(plausible(total[i, j], S, P[i, j], 1e-11), "pair-frequency", lambda: f"{what} {i},{j}: {total[i, j]}/{S}, expected {P[i, j]}")

    if model == "pairs":
        n = int(rng.integers(4, 16))
        which = ["ErdosRenyi", "StochasticBlockModel", "RandomRegular"][int(rng.integers(3))]
        directed = bool(rng.uniform() < .5)
        ctx.note(which)
        if which == "RandomRegular":
            n, k = 2 * (n // 2), int(rng.integers(1, 4))
            ctx.describe(model=which, n=n, k=k, seed=first)
            S, made = 0, []
            for s in seeds:
                g = graphs.RandomRegular(n, k, seed=s)
                if (g.W.sum(0) == k).all():
                    S += 1
                    made.append(g)
            seeds = range(S)
            ctx.ok(S > 100, "regular", lambda: f"{S} of 200")
            counts(made.__getitem__, np.full((n, n), k / (n - 1)) * (1 - np.eye(n)), which)
            return
        if which == "ErdosRenyi":
            p = float(rng.choice([.1, .3, .5, .9]))
            ctx.describe(model=which, n=n, p=p, directed=directed, seed=first)
            P = np.full((n, n), p)
            make = lambda s: graphs.ErdosRenyi(n, p, directed=directed, seed=s)
        else:
            k = int(rng.integers(1, 5))
            z = np.sort(rng.integers(0, k, n))
            M = rng.choice([0, .1, .4, .8, 1], (k, k))
            if not directed:
                M = np.triu(M) + np.triu(M, 1).T
            ctx.describe(model=which, n=n, z=z, M=M, directed=directed, seed=first)
            P = M[np.ix_(z, z)]
            make = lambda s: graphs.StochasticBlockModel(n, k, z=z, M=M, directed=directed, seed=s)
        counts(make, P * (1 - np.eye(n)), which)
    elif model == "community":
        sizes = rng.integers(1, 8, int(rng.integers(2, 5)))
        n, nc = int(sizes.sum()), len(sizes)
        wd, cd = float(rng.choice([.1, .3, .4, .6, .8])), float(rng.choice([.3, .5, .8]))
        ctx.describe(model="Community", sizes=sizes, world=wd, density=cd, seed=first)
        z = np.repeat(np.arange(nc), sizes)
        P = np.zeros((n, n))
        inter = z[:, None] != z
        M = inter.sum() / 2
        P[inter] = int(wd * M) / M
        for c in range(nc):
            M = sizes[c] * (sizes[c] - 1) / 2
            if M:
                P[np.ix_(z == c, z == c)] = int(cd * M) / M
        counts(lambda s: graphs.Community(n, Nc=nc, comm_sizes=sizes, world_density=wd, comm_density=cd, seed=s), P * (1 - np.eye(n)), "Community")
    elif model == "sizes":
        nc, least = int(rng.integers(2, 41)), int(rng.integers(0, 3))
        n = nc * least + int(rng.integers(10, 80))
        ctx.describe(model="Community sizes", n=n, communities=nc, least=least, seed=first)
        S = 60
        total = sum(np.asarray(graphs.Community(n, Nc=nc, min_comm=least, epsilon=.01, world_density=0, seed=s).info["comm_sizes"])
                    for s in range(first, first + S))
        for c in range(nc):
            ctx.ok(plausible(total[c] - S * least, S * (n - nc * least), 1 / nc, 1e-11), "community-size-frequency",
                   lambda: f"{total[c]} members of {c} in {S} graphs")
        k = int(rng.integers(2, 41))
        z = np.concatenate([graphs.StochasticBlockModel(30, k, p=0, q=0, seed=s).z for s in range(first, first + 40)])
        for c in range(k):
            ctx.ok(plausible((z == c).sum(), len(z), 1 / k, 1e-11), "class-frequency", lambda: f"{(z == c).sum()} of {len(z)} in class {c} of {k}")
    else:
        S, n = 20, int(rng.integers(80, 200))
        ctx.describe(model="points", n=n, seed=first)
        ss = range(first, first + S)

        def uniform(x, lo, hi, what):
            pv = stats.kstest((np.asarray(x).ravel() - lo) / (hi - lo), "uniform").pvalue
            ctx.ok(pv > 1e-11, "uniform-points", lambda: f"{what}: p-value {pv}")

        uniform([graphs.RandomRing(n, seed=s).angles for s in ss], 0, 2 * np.pi, "angles")
        X = np.concatenate([graphs.Sphere(nb_pts=n, nb_dim=3, seed=s).coords for s in ss])
        for c in range(3):
            uniform(X[:, c], -1, 1, f"sphere {c}")
        uniform(np.arctan2(X[:, 1], X[:, 0]), -np.pi, np.pi, "sphere longitude")
        X = np.concatenate([graphs.Sphere(nb_pts=n, nb_dim=2, seed=s).coords for s in ss])
        uniform(np.arctan2(X[:, 1], X[:, 0]), -np.pi, np.pi, "circle angle")
        X = np.concatenate([graphs.Cube(nb_pts=n, nb_dim=2, seed=s).coords for s in ss])
        for c in range(2):
            uniform(X[:, c], 0, 1, f"square {c}")
        X = np.concatenate([graphs.Cube(nb_pts=n, nb_dim=3, seed=s).coords for s in ss])
        for f in range(6):
            Y = X[X[:, f % 3] == f // 3]
            for c in {0, 1, 2} - {f % 3}:
                uniform(Y[:, c], 0, 1, f"cube face {f} coordinate {c}")
        X = np.concatenate([graphs.Sensor(n, seed=s).coords for s in ss])
        for c in range(2):
            uniform(X[:, c], 0, 1, f"sensor {c}")
        m = int(np.sqrt(n))
        X = np.concatenate([graphs.Sensor(m * m, distributed=True, seed=s).coords for s in ss])
        for c in range(2):
            uniform(X[:, c] * m % 1, 0, 1, f"distributed sensor {c} in its cell")
        for dim in (2, 3):
            a, b = 1, 4
            x = np.concatenate([graphs.SwissRoll(n, a=a, b=b, dim=dim, seed=s).x for s in ss], 1)
            t = np.hypot(x[0], x[-1]) / np.pi
            uniform(t ** 2, a * a, b * b, "uniform roll")
            if dim == 3:
                uniform(x[1], 0, 21, "roll height")
                pv = stats.spearmanr(x[1], t).pvalue
                ctx.ok(pv > 1e-11, "height-independent-of-radius")
            x = np.concatenate([graphs.SwissRoll(n, a=a, b=b, dim=dim, srtype="classic", seed=s).x for s in ss], 1)
            uniform(np.hypot(x[0], x[-1]) / np.pi, a, b, "classic roll")
            clean = [graphs.SwissRoll(n, dim=dim, seed=s).x for s in ss]
            noisy = [graphs.SwissRoll(n, dim=dim, noise=True, seed=s).x for s in ss]
            for c in range(dim):
                pv = stats.kstest((np.array(noisy) - np.array(clean))[:, c].ravel(), "norm").pvalue
                ctx.ok(pv > 1e-11, "normal-noise", lambda: f"dimension {c}: p-value {pv}")
        for sd in (0, .05):
            X = np.array([graphs.TwoMoons(moontype="synthesized", N=n, sigmad=sd, distance=.5, seed=s).coords for s in ss])
            a, b = X[:, :n // 2] - [.5, .25], X[:, n // 2:] - [-.5, -.25]
            if sd == 0:
                uniform(np.arctan2(-a[..., 1], a[..., 0]), 0, np.pi, "first moon")
                uniform(np.arctan2(b[..., 1], b[..., 0]), 0, np.pi, "second moon")
                arcs = a, b
            else:
                for d in (a - arcs[0], b - arcs[1]):
                    rad = np.hypot(d[..., 0], d[..., 1]).ravel()
                    pv = stats.kstest(rad / sd, "halfnorm").pvalue
                    ctx.ok(pv > 1e-11, "moon-noise", lambda: f"p-value {pv}")
                    uniform(np.arctan2(d[..., 1], d[..., 0]) % np.pi, 0, np.pi, "moon noise direction")


@R.family(quick=30, thorough=1500, timeout=120)
def large(ctx, rng):
    """The same guarantees at hundreds of vertices, tens of classes and of neighbors."""
    global BIG
    models = [random_regular, erdos_renyi, stochastic_block_model, community, community, random_ring, sensor, cube_sphere, swiss_roll, two_moons,
              david_sensor_net]
    BIG = True
    try:
        models[ctx.rng_index % len(models)](ctx, rng)
    finally:
        BIG = False
