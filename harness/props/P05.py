"""P05: Fourier basis."""
import numpy as np
from core import Registry, dense
import gen
import ref

R = Registry()
R.rule = ("random non-negative graphs (all structures, degenerate spectra, several components, scales 1e-6..1e8) x "
          "Laplacian types x full/partial bases; non-trivial if at least one edge; distinct by content hash")
R.assumptions = ["reference eigenvalues: LAPACK symmetric solver on an independently built Laplacian"]
LAPS = ["combinatorial", "normalized"]


def check_full(ctx, g, W, lap, tol=1e-9):
    n = len(W)
    L = ref.laplacian(W, lap)
    sc = (np.abs(W).max() + 1e-300 if lap == 'combinatorial' else 1) * n
    ew = ref.eig(L)[0]
    U, e = g.U, g.e
    ctx.ok(U.shape == (n, n) and e.shape == (n,), "shape", lambda: f"{U.shape} {e.shape}")
    ctx.close(U.T @ U, np.eye(n), "orthonormal", tol, scale=n)
    ctx.close(e, ew, "eigenvalues", tol, scale=sc)
    ctx.ok((np.diff(e) >= -tol * sc).all(), "ascending", lambda: str(e))
    ctx.ok(e[0] == 0, "first-zero", lambda: repr(e[0]))
    ctx.close(L @ U, U * e, "eigenpairs", tol, scale=sc)
    ctx.close((U * e) @ U.T, L, "reconstruct-L", tol, scale=sc)
    ctx.close(g.lmax, ew[-1], "lmax-exact", tol, scale=sc)
    ctx.ok(g.lmax == e[-1], "lmax-is-last", lambda: f"{g.lmax} {e[-1]}")
    ctx.close(g.coherence, np.abs(U).max(), "coherence", 1e-12)
    ctx.ok(1 / np.sqrt(n) - 1e-9 <= g.coherence <= 1 + 1e-9, "coherence-range", lambda: str(g.coherence))


@R.family(quick=500, thorough=12000)
def full(ctx, rng):
    g, W, d = gen.spectral_graph(rng, nmin=1, nmax=18)
    lap = d["lap"]
    ctx.describe(bool(W.any()), **d)
    ctx.note(f"{lap} components={min(4, len(ref.components(W)))}")
    how = str(rng.choice(["compute", "U", "e", "coherence", "after-lmax", "after-partial"]))
    if how == "compute":
        g.compute_fourier_basis()
    elif how in ("U", "e", "coherence"):
        getattr(g, how)
    elif how == "after-lmax":
        g.estimate_lmax("bounds")
        g.compute_fourier_basis()
    elif how == "after-partial" and 4 <= len(W) and ref.directed(W) is False:
        # a partial basis first (clustered spectra may legitimately not converge)
        try:
            g.compute_fourier_basis(2)
            ctx.ok(0 == g.e[0] <= g.e[1], "partial-sorted", lambda: str(g.e))
        except Exception as ex:
            # ARPACK reports, or the library notices, that the null vector was
            # missed: only when the next eigenvalue nearly coincides with it.
            spread = ref.eig(ref.laplacian(W, lap))[0]
            clustered = isinstance(ex, AssertionError) and spread[1] < 1e-3 * spread[-1]
            if "Arpack" not in type(ex).__name__ and not clustered:
                raise
        g.compute_fourier_basis()
    else:
        g.compute_fourier_basis(len(W))
    ctx.note("how:" + how)
    check_full(ctx, g, W, lap)
    U = g.U
    k = int(rng.integers(1, len(W) + 1))
    g.compute_fourier_basis(k)
    ctx.ok(g.U is U or np.array_equal(g.U, U), "fewer-keeps-basis")
    check_full(ctx, g, W, lap)
    lap = str(rng.choice(LAPS))
    g.compute_laplacian(lap)
    g.compute_fourier_basis()
    check_full(ctx, g, W, lap)


@R.family(quick=200, thorough=3000)
def partial(ctx, rng):
    from pygsp import graphs
    n = int(rng.integers(6, 40))
    W = gen.adjacency(rng, n=n, connected=True, weighted="float", directed=rng.uniform() < .3, loops=False)
    lap = str(rng.choice(LAPS))
    L = ref.laplacian(W, lap)
    ew, Uw = ref.eig(L)
    # well-separated smallest eigenvalues: the iterative solver is only asked for those
    k = int(rng.integers(1, min(6, n - 1)))
    if (np.diff(ew[:k + 2]) < .02 * ew[-1]).any():
        ctx.skip()
    ctx.describe(W=W, lap=lap, k=k)
    g = graphs.Graph(W, lap_type=lap)
    g.compute_fourier_basis(n_eigenvectors=k)
    ctx.note(f"k={k}")
    ctx.ok(g.U.shape == (n, k) and g.e.shape == (k,), "partial-shape", lambda: f"{g.U.shape}")
    ctx.close(g.e, ew[:k], "partial-eigenvalues", 1e-6, scale=ew[-1])
    ctx.close(g.U.T @ g.U, np.eye(k), "partial-orthonormal", 1e-6)
    ctx.close(np.abs((g.U * Uw[:, :k]).sum(0)), np.ones(k), "partial-eigenvectors", 1e-6)
    ctx.ok(g.e[0] == 0, "partial-first-zero")
    U = g.U.copy()
    j = int(rng.integers(1, k + 1))
    g.compute_fourier_basis(j)
    ctx.same(g.U, U, "fewer-keeps-basis")
    if rng.uniform() < .5:
        k2 = k + 1
        g.compute_fourier_basis(k2)
        ctx.ok(g.U.shape == (n, k2), "more-recomputes", lambda: f"{g.U.shape}")
        ctx.close(g.e, ew[:k2], "partial-eigenvalues", 1e-6, scale=ew[-1])
    # properties of a full basis are computed when asked for
    ctx.ok(g.lmax >= ew[-1] * .95, "lmax-covers", lambda: f"{g.lmax} for {ew[-1]}")
    g.compute_fourier_basis()
    check_full(ctx, g, W, lap)


@R.family(quick=20, thorough=200)
def larger(ctx, rng):
    from pygsp import graphs
    n = int(rng.integers(60, 150))
    W = gen.adjacency(rng, n=n, scale=gen.scale(rng))
    lap = str(rng.choice(LAPS))
    ctx.describe(W=W, lap=lap)
    check_full(ctx, graphs.Graph(W, lap_type=lap), W, lap)


@R.family(quick=4, thorough=400)
def large(ctx, rng):
    from pygsp import graphs
    d, W = gen.large(rng, 200, 700)
    lap = str(rng.choice(LAPS))
    ctx.describe(lap=lap, **d)
    check_full(ctx, graphs.Graph(W, lap_type=lap), W.toarray(), lap, 1e-11)
    ctx.note(f"{d['kind']} {lap}")


@R.family(quick=2, thorough=40)
def repeated(ctx, rng):
    """Hundreds of equal components: every eigenvalue is repeated hundreds of times."""
    from pygsp import graphs
    size = 3 if ctx.rng_index == 0 else int(rng.integers(2, 5))
    n = size * (333 if ctx.rng_index == 0 else int(rng.integers(100, 300)))
    order = np.random.RandomState(0).permutation(n) if ctx.rng_index == 0 else rng.permutation(n)
    W = np.kron(np.eye(n // size), np.ones((size, size)) - np.eye(size))[np.ix_(order, order)]
    lap = "combinatorial" if ctx.rng_index == 0 else str(rng.choice(LAPS))
    ctx.describe(True, n=n, size=size, lap=lap)
    check_full(ctx, graphs.Graph(W, lap_type=lap), W, lap, 1e-11)
    ctx.note(f"cliques of {size} {lap}")
