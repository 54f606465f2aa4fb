"""P31: a call that fails raises, and leaves every object as it was."""
import os
import tempfile

import numpy as np
from scipy import sparse

import gen
import ref
from core import Registry
from props.P28 import CACHES, raw

R = Registry()
TECHNIQUE = ("runtime monitoring with fault injection: rejected arguments, kernels failing at a random evaluation, failing "
             "solvers and full disks, bit-exact snapshots of every object around the failure, differential retry")
R.rule = "seeded graphs with random caches, signals and coordinates x a catalogue of failing calls; distinct by content hash"
R.assumptions = ["a failing call may fill a cache that was empty, with the value a successful call would have computed",
                 "faults are injected in the numerical routines of SciPy looked up at call time; when the code does not go "
                 "through the patched routine the call must simply succeed with the right result"]


class Boom(Exception):
    """Raised by the kernels and routines under our control."""


# ---------------------------------------------------------------- state
def state(G):
    """Everything a graph holds, caches included."""
    out = {}
    for k, v in vars(G).items():
        if k == "logger":
            continue
        if sparse.issparse(v):
            out[k] = ("value", v.shape, str(v.dtype), v.toarray().tobytes())
        else:
            out[k] = raw(v)
    return out


def world():
    import matplotlib.pyplot as plt
    s = np.random.get_state()
    return dict(random=(s[0], s[1].tobytes(), s[2:]), errors=repr(np.geterr()), cwd=os.getcwd(), print_=repr(np.get_printoptions()))


def unchanged(ctx, G, before, what, estimates=False):
    after = state(G)
    for k in before:
        if k in after and before[k] == after[k]:
            continue
        if k in CACHES and before[k] == raw(None):
            continue  # a cache was filled
        if k in ("_lmax", "_lmax_method") and G._lmax_method == "fourier" and before["_U"] == raw(None):
            continue  # the basis was computed, and made an estimate exact
        if k in ("_lmax", "_lmax_method") and estimates:
            continue  # graph_multiresolution first estimates lmax
        ctx.ok(False, "graph-unchanged", f"{what}: {k} modified by the failing call")
    for k in after:
        ctx.ok(k in before or k in CACHES, "graph-unchanged", lambda: f"{what}: attribute {k} appeared")


def consistent(ctx, G, W, lap, what):
    """The graph still answers like one that saw no failure."""
    n = len(W)
    L = ref.laplacian(W, lap)
    sc = max(np.abs(W).max() if lap == "combinatorial" else 1, np.abs(L).max(), 1e-300) * n
    ctx.ok(G.lap_type == lap, "still-correct", what)
    ctx.same(G.W, W, "still-correct", what)
    ctx.close(G.L, L, "still-correct", 1e-9, scale=sc, msg=what)
    e, _ = ref.eig(L)
    if G._lmax is not None:
        ctx.ok(.85 * e[-1] - 1e-9 * sc <= G.lmax, "still-correct", lambda: f"{what}: lmax {G.lmax} vs {e[-1]}")
    D = G.D
    ctx.close(D @ D.T, L, "still-correct", 1e-9, scale=sc, msg=what)
    if G._U is None or G._U.shape[1] == n:
        ctx.close(G.e, e, "still-correct", 1e-8, scale=sc, msg=what)
        ctx.close((G.U * G.e) @ G.U.T, L, "still-correct", 1e-7, scale=sc, msg=what)
        ctx.ok(G.coherence is not None, "still-correct", what)
        ctx.close(G.coherence, np.abs(G.U).max(), "still-correct", 1e-9, msg=what)


def graph(rng, nmin=3, nmax=12, directed=None, connected=False, loops=None, edges=False):
    from pygsp import graphs
    while True:
        W = gen.adjacency(rng, nmin=nmin, nmax=nmax, directed=directed, connected=connected, loops=loops,
                          scale=float(rng.choice([1, 1, 1, 30., 1e-3])))
        L = ref.laplacian(W, "combinatorial")
        if not edges or not gen.edgeless(W):
            break
    n = len(W)
    lap = str(rng.choice(["combinatorial", "combinatorial", "normalized"]))
    xy = rng.normal(size=(n, 2)) if rng.uniform() < .6 else None
    G = graphs.Graph(W, lap_type=lap, coords=xy)
    for k in range(int(rng.integers(0, 3))):
        G.set_signal(rng.normal(size=n), f"s{k}")
    if rng.uniform() < .5:
        G.compute_fourier_basis()
    elif rng.uniform() < .5:
        G.estimate_lmax(str(rng.choice(["lanczos", "bounds"])))
    if rng.uniform() < .4:
        G.compute_differential_operator()
    if rng.uniform() < .4:
        G.A, G.d, G.dw, G.is_connected()
    return G, W, lap


# ---------------------------------------------------------------- rejected arguments
# name: function(rng, G) -> (call, exception, watched arguments) or None
BAD = {}


def bad(f):
    BAD[f.__name__] = f
    return f


def wrong_size(rng, n):
    return int(rng.choice([m for m in (0, n - 1, n + 1, 2 * n) if m != n and m >= 0]))


@bad
def laplacian(rng, G):
    t = str(rng.choice(["", "Combinatorial", "randomwalk", "none"]))
    return lambda: G.compute_laplacian(t), ValueError, []


@bad
def lmax(rng, G):
    t = str(rng.choice(["", "power", "Lanczos"]))
    return lambda: G.estimate_lmax(t), ValueError, []


@bad
def signal(rng, G):
    s = rng.normal(size=wrong_size(rng, G.N))
    return lambda: G.set_signal(s, str(rng.choice(["s0", "new"]))), ValueError, [s]


@bad
def coordinates(rng, G):
    c = [np.zeros((G.N, 4)), np.zeros((G.N + 1, 2)), np.zeros((G.N, 5)), np.zeros((G.N, 2, 2)), np.zeros(G.N + 1),
         "nowhere", "community2D"][int(rng.integers(7))]
    return lambda: G.set_coordinates(c), (ValueError, AttributeError), [c]


@bad
def fourier(rng, G):
    s = rng.normal(size=(wrong_size(rng, G.N), 2)[:int(rng.integers(1, 3))])
    return (lambda: G.gft(s)) if rng.uniform() < .5 else (lambda: G.igft(s)), ValueError, [s]


@bad
def differential(rng, G):
    k = int(rng.integers(3))
    s = rng.normal(size=wrong_size(rng, G.N if k else G.n_edges))
    return [lambda: G.div(s), lambda: G.grad(s), lambda: G.dirichlet_energy(s)][k], ValueError, [s]


@bad
def weights(rng, G):
    v = sparse.csr_matrix(np.ones((G.N, G.N)))

    def call():
        G.W = v
    return call, AttributeError, [v]


@bad
def directed_components(rng, G):
    if not ref.directed(G.W.toarray()):
        return None
    return G.extract_components, NotImplementedError, []


@bad
def subgraph(rng, G):
    v = [G.N] if rng.uniform() < .5 else np.array([0, G.N + 3])
    return lambda: G.subgraph(v), IndexError, [v]


def bank(rng, G):
    if not G.W.nnz or np.abs(G.L).max() <= 1e-9 * np.abs(G.W).max():
        return None
    return gen.filterbank(rng, G)[2]


@bad
def filtering(rng, G):
    f = bank(rng, G)
    if f is None:
        return None
    n, F = G.N, f.Nf
    shapes = [(wrong_size(rng, n),), (n, 2, F + 1), (n, 2, 2, F), (n, 1, 1, 1, 1)]
    if F == 1:
        shapes[1] = (n, 2, 3)
    s = rng.normal(size=shapes[int(rng.integers(4))])
    m = str(rng.choice(["exact", "chebyshev"]))
    return lambda: f.filter(s, method=m), ValueError, [s, f]


@bad
def filter_method(rng, G):
    f = bank(rng, G)
    if f is None:
        return None
    s = rng.normal(size=G.N)
    m = [None, "lanczos", "", "Exact", 3][int(rng.integers(5))]
    return lambda: f.filter(s, method=m), ValueError, [s, f]


@bad
def synthesis(rng, G):
    f = bank(rng, G)
    if f is None:
        return None
    s = rng.normal(size=(G.N, 2, f.Nf + 1))
    if rng.uniform() < .5 and f.Nf > 1:
        s = rng.normal(size=(G.N, 2, f.Nf))
        return lambda: f.analyze(s), ValueError, [s, f]
    return lambda: f.synthesize(s), ValueError, [s, f]


@bad
def design(rng, G):
    from pygsp import filters
    if not G.W.nnz or np.abs(G.L).max() <= 1e-9 * np.abs(G.W).max():
        return None
    k = int(rng.integers(6))
    sc = np.arange(1., 8.)
    if k == 0:
        return lambda: filters.HalfCosine(G, int(rng.integers(-1, 3))), ValueError, []
    if k == 1:
        return lambda: filters.Wave(G, time=[1, 2, 3], speed=[1, 1]), ValueError, []
    if k == 2:
        return lambda: filters.Wave(G, speed=float(rng.choice([-1, 2, 3]))), ValueError, []
    name = str(rng.choice(["MexicanHat", "Meyer", "Abspline", "SimpleTight"]))
    return lambda: getattr(filters, name)(G, Nf=4, scales=sc), ValueError, [sc]


@bad
def gabor(rng, G):
    from pygsp import filters, graphs
    if not G.W.nnz or np.abs(G.L).max() <= 1e-9 * np.abs(G.W).max():
        return None
    other = graphs.Graph(G.W)
    h = filters.Heat(G, [1, 2]) if rng.uniform() < .5 else filters.Heat(other, 1)
    c = filters.Gabor if rng.uniform() < .5 else filters.Modulation
    return lambda: c(G, h), ValueError, [h]


@bad
def complement(rng, G):
    from pygsp import filters
    if not G.W.nnz or np.abs(G.L).max() <= 1e-9 * np.abs(G.W).max():
        return None
    f = filters.Filter(G, [lambda x: 2 + np.cos(x / G.lmax), lambda x: np.cos(x / G.lmax)])
    x = np.linspace(0, G.lmax, 5)
    return lambda: f.complement(frame_bound=1).evaluate(x), ValueError, [f, x]


@bad
def adding(rng, G):
    f = bank(rng, G)
    if f is None:
        return None
    return lambda: f + float(rng.normal()), TypeError, [f]


@bad
def tikhonov(rng, G):
    from pygsp import learning
    y, M = rng.normal(size=G.N), rng.uniform(size=G.N + 1) < .5
    if rng.uniform() < .5:
        return lambda: learning.regression_tikhonov(G, y, M, tau=float(rng.choice([0, 1]))), (ValueError, IndexError), [y, M]
    lab, M = rng.integers(0, 2, G.N), rng.uniform(size=G.N) < .5
    lab[:2] = [0, 1]
    return lambda: learning.classification_tikhonov_simplex(G, lab, M, tau=float(rng.choice([0, -1]))), ValueError, [lab, M]


@bad
def kron(rng, G):
    from pygsp import reduction
    if G.lap_type == "combinatorial" and not ref.directed(G.W.toarray()):
        return None
    keep = np.arange(G.N // 2 + 1)
    return lambda: reduction.kron_reduction(G, keep), NotImplementedError, [keep]


@bad
def sparsify(rng, G):
    from pygsp import reduction
    eps = float(rng.choice([0, 1, 1.5, -1, .5 / np.sqrt(G.N)]))
    exc = ValueError if G.lap_type == "combinatorial" else (ValueError, NotImplementedError)
    return lambda: reduction.graph_sparsify(G, eps, seed=1), exc, []


@bad
def resistance(rng, G):
    from pygsp import utils
    if G.lap_type == "combinatorial":
        return None
    return lambda: utils.resistance_distance(G), ValueError, []


@bad
def multiresolution(rng, G):
    from pygsp import reduction
    if G.N < 4 or ref.directed(G.W.toarray()) or G.lap_type != "combinatorial" or len(ref.components(G.W.toarray())) > 1:
        return None
    kw = dict(downsampling_method="none") if rng.uniform() < .5 else dict(reduction_method="none")
    return lambda: reduction.graph_multiresolution(G, 1, **kw), NotImplementedError, [kw]


@bad
def plotting(rng, G):
    import matplotlib.pyplot as plt
    s = rng.normal(size=wrong_size(rng, G.N)) + 5
    k = int(rng.integers(3))
    if not hasattr(G, "coords"):
        return lambda: G.plot(), AttributeError, []
    plt.close("all")
    if k == 0:
        return lambda: G.plot(s), ValueError, [s]
    if k == 1:
        return lambda: G.plot(backend="paper"), ValueError, []
    return lambda: G.plot(vertex_size=s), ValueError, [s]


@bad
def saving(rng, G):
    kw, path, exc = [(dict(), "g.xyz", ValueError), (dict(fmt="svg"), "g.gml", ValueError),
                     (dict(backend="paper"), "g.gml", ValueError)][int(rng.integers(3))]

    def call():
        with tempfile.TemporaryDirectory() as d:
            try:
                G.save(os.path.join(d, path), **kw)
            finally:
                assert not os.listdir(d), "file left behind"
    return call, exc, [kw]


@bad
def constructing(rng, G):
    """A new graph from a broken matrix; the old graph's arrays are not involved."""
    from pygsp import graphs
    M = G.W.toarray().astype(float)
    k = int(rng.integers(4))
    if k == 0:
        M = M[:, :-1]
    elif k < 3:
        M[0, -1] = [np.nan, np.inf][k - 1]
    lap = "combinatorial" if k < 3 else "unknown"
    M = M if rng.uniform() < .5 else sparse.csr_matrix(M)
    return lambda: graphs.Graph(M, lap_type=lap), ValueError, [M]


@R.family(quick=1800, thorough=45000, timeout=120)
def rejected(ctx, rng):
    G, W, lap = graph(rng)
    for _ in range(10):
        name = str(rng.choice(sorted(BAD)))
        entry = BAD[name](rng, G)
        if entry is not None:
            break
    else:
        ctx.skip("nothing applicable")
    call, exc, args = entry
    ctx.describe(bool(W.any()), W=W, lap=lap, op=name, cached=sorted(k for k in CACHES if getattr(G, k, None) is not None))
    ctx.note("rejected:" + name)
    before, others, w = state(G), [raw(a) for a in args], world()
    for _ in range(int(rng.integers(1, 3))):
        ctx.raises(call, exc, "raises", name)
        unchanged(ctx, G, before, name, name == "multiresolution")
        ctx.ok([raw(a) for a in args] == others, "arguments-unchanged", lambda: name)
        ctx.ok(world() == w, "globals-unchanged", lambda: f"{name}: {[k for k, v in world().items() if v != w[k]]}")
    consistent(ctx, G, W, lap, "after " + name)


# ---------------------------------------------------------------- failing kernels
class Fuse:
    """A kernel which fails at its n-th evaluation."""

    def __init__(self, kernel):
        self.kernel, self.left, self.calls = kernel, None, 0

    def __call__(self, x):
        self.calls += 1
        if self.left is not None:
            self.left -= 1
            if self.left < 0:
                raise Boom()
        return self.kernel(x)


FIRST = ("gabor", "spectrogram", "modulation")  # of the kernels only


def kernel_calls(rng, G, f):
    """Calls evaluating the kernels; each returns comparable arrays."""
    from pygsp import features, filters
    n, F = G.N, f.Nf
    s = rng.normal(size=(n, 2))
    c = rng.normal(size=(n, 2, F))
    m = str(rng.choice(["exact", "chebyshev"]))
    x = np.linspace(0, G.lmax, 7)
    return {
        "evaluate": (lambda: f.evaluate(x), [x]),
        "filter": (lambda: f.filter(s, method=m, order=8), [s]),
        "analyze": (lambda: f.analyze(s[:, 0], method=m, order=8), [s]),
        "synthesize": (lambda: f.filter(c, method=m, order=8), [c]),
        "localize": (lambda: f.localize(0, method=m, order=8), []),
        "frame": (lambda: f.compute_frame(method=m, order=8), []),
        "bounds": (lambda: np.array(f.estimate_frame_bounds(x)), [x]),
        "complement": (lambda: (f + f.complement()).evaluate(x), [x]),
        "inverse": (lambda: f.inverse().evaluate(x), [x]),
        "sum": (lambda: (f + f).evaluate(x), [x]),
        "coefficients": (lambda: np.array(filters.compute_cheby_coeff(f, m=5)), []),
        "matmul": (lambda: f @ s[:, 0], [s]),
        "gabor": (lambda: filters.Gabor(G, f[0]).filter(s[:, 0], method="exact"), [s]),
        "spectrogram": (lambda: features.compute_spectrogram(G, atom=lambda v: np.reshape(f[0].evaluate(v), np.shape(v)), M=4, method=m), []),
        "atoms": (lambda: features.compute_tig(f, method=m), []),
        "norms": (lambda: features.compute_norm_tig(f, method=m), []),
        "modulation": (lambda: filters.Modulation(G, f[0], modulation_first=False).filter(s[:, 0]), [s]),
    }


@R.family(quick=900, thorough=22000, timeout=120)
def failing_kernel(ctx, rng):
    from pygsp import filters
    G, W, lap = graph(rng, edges=True)
    lm = float(G.lmax)
    a = rng.uniform(.2, 3, 3)
    fuses = [Fuse(k) for k in (lambda x: np.exp(-a[0] * x / lm), lambda x: 1 / (1 + a[1] * x / lm),
                               lambda x: np.cos(a[2] * x / lm))][:int(rng.integers(1, 4))]
    f = filters.Filter(G, list(fuses))
    calls = kernel_calls(rng, G, f)
    name = str(rng.choice(sorted(calls)))
    call, args = calls[name]
    ctx.describe(W=W, lap=lap, op=name, Nf=len(fuses))
    if rng.uniform() < .5 or name == "spectrogram":  # samples the estimate of lmax, then may compute the basis
        G.compute_fourier_basis()
    k = int(rng.integers(len(fuses)))
    fuse = fuses[k]
    want = None
    if rng.uniform() < .5:  # the same call succeeded before
        want = call()
        n = fuse.calls
        fuse.left = int(rng.integers(0, max(n, 1)))
    else:
        fuse.left = 0
    before, others, w, bank_ = state(G), [raw(v) for v in args], world(), raw(f)
    failed = False
    for _ in range(2):
        left = fuse.left
        try:
            call()
        except Boom:
            failed = True
        fuse.left = left
    # A kernel which is evaluated must have its exception propagated.
    if failed:
        ctx.note("kernel-failed:" + name)
    ctx.ok(failed or (want is not None) or name in FIRST and k, "propagates", lambda: f"{name}: failure of kernel {k} swallowed")
    unchanged(ctx, G, before, name)
    ctx.ok([raw(v) for v in args] == others, "arguments-unchanged", name)
    ctx.ok(world() == w, "globals-unchanged", name)
    ctx.ok(raw(f) == bank_, "filter-unchanged", name)
    fuse.left = None
    got = call()
    if want is not None:
        ctx.close(got, want, "retry", 1e-8 if G._lmax_method == "fourier" else 1e-2, scale=max(np.abs(want).max(), 1e-9), msg=name)
    clean = [z.kernel for z in fuses]
    fresh = kernel_calls_fresh(name, G, clean, args, rng)
    if fresh is not None:
        ctx.close(got, fresh, "retry-fresh", 1e-8, scale=max(np.abs(fresh).max(), 1e-9), msg=name)
    consistent(ctx, G, W, lap, "after " + name)


def kernel_calls_fresh(name, G, clean, args, rng):
    """What the definition says, for the operations easily redone here."""
    if name in ("evaluate",):
        return np.stack([k(args[0]) for k in clean])
    if name == "sum":
        return np.stack([k(args[0]) for k in clean + clean])
    if name == "bounds":
        y = sum(k(args[0]) ** 2 for k in clean)
        return np.array([y.min(), y.max()])
    return None


# ---------------------------------------------------------------- failing routines
def routines():
    """(module, attribute) of numerical routines, with the exception they may really raise."""
    import scipy.linalg
    import scipy.sparse.linalg as sl
    noconv = lambda: sl.ArpackNoConvergence("injected", np.zeros(0), np.zeros((0, 0)))
    return {
        "eigsh": (sl, "eigsh", noconv), "eigh": (scipy.linalg, "eigh", lambda: np.linalg.LinAlgError("injected")),
        "spsolve": (sl, "spsolve", lambda: MemoryError("injected")), "splu": (sl, "splu", lambda: MemoryError("injected")),
        "cg": (sl, "cg", lambda: MemoryError("injected")),
        "solve": (np.linalg, "solve", lambda: np.linalg.LinAlgError("injected")),
    }


class Inject:
    """Replace a routine by one which fails at its n-th call."""

    def __init__(self, name, after):
        self.mod, self.attr, self.exc = routines()[name]
        self.after, self.fired = after, False

    def __enter__(self):
        self.real = getattr(self.mod, self.attr)
        count = [0]

        def fake(*a, **k):
            count[0] += 1
            if count[0] > self.after:
                self.fired = True
                raise self.exc()
            return self.real(*a, **k)
        setattr(self.mod, self.attr, fake)
        return self

    def __exit__(self, *_):
        setattr(self.mod, self.attr, self.real)


def routine_calls(rng, G, W):
    from pygsp import filters, learning, reduction, utils
    n = G.N
    s = rng.normal(size=n)
    M = rng.uniform(size=n) < .6
    M[0] = True
    out = {
        ("lmax", "eigsh"): (lambda: G.estimate_lmax(), [], ValueError),
        ("lmax-property", "eigsh"): (lambda: G.lmax, [], ValueError),
        ("basis", "eigh"): (lambda: G.compute_fourier_basis(), [], Exception),
        ("U", "eigh"): (lambda: G.U, [], Exception),
        ("gft", "eigh"): (lambda: G.gft(s), [s], Exception),
        ("coherence", "eigh"): (lambda: G.coherence, [], Exception),
        ("filter-exact", "eigh"): (lambda: filters.Filter(G, np.cos).filter(s, method="exact"), [s], Exception),
        ("filter-cheby", "eigsh"): (lambda: filters.Filter(G, np.cos).filter(s), [s], Exception),
        ("design", "eigsh"): (lambda: filters.MexicanHat(G).evaluate(1.), [], Exception),
    }
    if n > 5:
        out["partial", "eigsh"] = (lambda: G.compute_fourier_basis(2), [], Exception)
        out["layout", "eigsh"] = (lambda: G.set_coordinates("laplacian_eigenmap2D"), [], Exception)
    if not ref.directed(W) and len(ref.components(W)) == 1 and n > 3:
        out["tikhonov", "cg"] = (lambda: learning.regression_tikhonov(G, s, M, tau=1.), [s, M], Exception)
        out["interpolate", "spsolve"] = (lambda: learning.regression_tikhonov(G, s, M, tau=0), [s, M], Exception)
        if G.lap_type == "combinatorial":
            keep = np.arange(n // 2 + 1)
            out["kron", "spsolve"] = (lambda: reduction.kron_reduction(G, keep).W.toarray(), [keep], Exception)
            out["kron", "splu"] = out["kron", "spsolve"]
            out["resistance", "splu"] = (lambda: utils.resistance_distance(G).toarray(), [], Exception)
            out["resistance", "solve"] = out["resistance", "splu"]
            out["multiresolution", "eigsh"] = (lambda: reduction.graph_multiresolution(G, 1, sparsify=False)[1].W.toarray(), [], Exception)
            out["multiresolution", "spsolve"] = out["multiresolution", "eigsh"]
    return out


@R.family(quick=900, thorough=22000, timeout=120)
def failing_routine(ctx, rng):
    G, W, lap = graph(rng, edges=True)
    calls = routine_calls(rng, G, W)
    keys = sorted(calls)
    key = keys[int(rng.integers(len(keys)))]
    call, args, exc = calls[key]
    ctx.describe(W=W, lap=lap, op=key, cached=sorted(k for k in CACHES if getattr(G, k, None) is not None))
    before, others = state(G), [raw(v) for v in args]
    coords = getattr(G, "coords", None)
    fired = failed = False
    for _ in range(int(rng.integers(1, 3))):
        with Inject(key[1], int(rng.choice([0, 0, 0, 1]))) as inj:
            try:
                call()
            except exc as e:
                failed = True
            except BaseException as e:
                ctx.ok(False, "documented-error", f"{key}: {type(e).__name__}({e})")
        fired = fired or inj.fired
        if failed:
            ctx.ok(inj.fired, "only-injected-failures", lambda: f"{key}")
            break
    ctx.note(f"routine:{key[0]}/{key[1]}:" + ("failed" if failed else "tolerated" if fired else "not-reached"))
    if failed:
        unchanged(ctx, G, before, f"{key}", key[0] == "multiresolution")
        ctx.ok(getattr(G, "coords", None) is coords, "graph-unchanged", lambda: f"{key}: coordinates")
    ctx.ok([raw(v) for v in args] == others, "arguments-unchanged", lambda: f"{key}")
    try:
        call()  # Now that the routine works, so does the call.
    except Exception as e:
        ctx.ok(False, "retry", f"{key}: {type(e).__name__}({e}) after the fault is gone")
    consistent(ctx, G, W, lap, f"after {key}")


# ---------------------------------------------------------------- failing files
@R.family(quick=300, thorough=5000, timeout=120)
def failing_file(ctx, rng):
    from pygsp import graphs
    G, W, lap = graph(rng, directed=False)
    fmt = str(rng.choice(["gml", "graphml", "gexf"]))
    backend = "networkx" if fmt == "gexf" or rng.uniform() < .6 else "graph-tool"
    how = str(rng.choice(["nodir", "isdir", "full", "truncated", "missing", "garbage"]))
    if how in ("full", "truncated", "garbage"):
        backend = "networkx"  # graph-tool itself tolerates those.
    ctx.describe(bool(W.any()), W=W, lap=lap, how=how, fmt=fmt, backend=backend, signals=len(G.signals))
    before, w = state(G), world()
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "g." + fmt)
        if how == "nodir":
            ctx.raises(lambda: G.save(os.path.join(d, "no", "g." + fmt), backend=backend), OSError, "save-fails", f"{backend} {fmt}")
        elif how == "isdir":
            os.mkdir(p)
            ctx.raises(lambda: G.save(p, backend=backend), OSError, "save-fails", f"{backend} {fmt}")
            os.rmdir(p)
        elif how == "full":
            os.symlink("/dev/full", p)
            ctx.raises(lambda: G.save(p, backend=backend), OSError, "save-fails", f"{backend} {fmt}")
            os.unlink(p)
        elif how == "missing":
            ctx.raises(lambda: graphs.Graph.load(p, backend=backend), OSError, "load-fails", f"{backend} {fmt}")
        else:
            G.save(p, backend=backend)
            b = open(p, "rb").read()
            b = b[:int(rng.integers(0, len(b) - 12))] if how == "truncated" else b"\x00\x01 garbage"
            open(p, "wb").write(b)
            ctx.raises(lambda: graphs.Graph.load(p, backend=backend), Exception, "load-fails", f"{backend} {fmt}")
            ctx.ok(open(p, "rb").read() == b, "file-untouched")
        unchanged(ctx, G, before, how)
        ctx.ok(world() == w, "globals-unchanged", how)
        ctx.ok(all(not f.startswith("g.") or how in ("truncated", "garbage") for f in os.listdir(d)), "no-file-left", lambda: str(os.listdir(d)))
        # The failure is forgotten.
        q = os.path.join(d, "h." + fmt)
        G.save(q, backend=backend)
        H = graphs.Graph.load(q, backend=backend)
        if W.any():
            ctx.same(H.N, G.N, "retry")
            ctx.ok(sorted(H.signals) == sorted(G.signals), "retry", lambda: f"{sorted(H.signals)}")
    unchanged(ctx, G, before, how)
    consistent(ctx, G, W, lap, "after " + how)
