"""P36: computations running in several threads give the results they give alone."""
import os
import sys
import threading
import time

import numpy as np

import gen
import ref
from core import Registry
from props.P28 import OPS, alike, freeze, raw

R = Registry()
R.factor = 1
TECHNIQUE = ("runtime monitoring of concurrent executions: threads interleaved line by line by a seeded scheduler hooked on "
             "Python's tracing, and stress runs with minimal switch intervals; oracle is the sequential result of every call")
R.rule = "seeded sets of calls on shared or separate graphs x seeded interleavings; distinct by content hash"
R.assumptions = ["a graph shared by several threads had its spectral data computed before (lazy caches are filled by one thread)",
                 "plots, and operations documented to change the graph they are given, are not run concurrently on one graph",
                 "switching is only injected between lines of the library; compiled routines run to their end"]

LIB = os.sep + "pygsp" + os.sep
EXCLUDED = {"plots", "multiresolution", "pyramid", "features"}


class Scheduler:
    """Only one thread runs at a time; who runs next is drawn at each line of the library."""

    def __init__(self, seed, n, p):
        self.rng = np.random.default_rng(seed)
        self.gates = [threading.Semaphore(0) for _ in range(n)]
        self.alive = set(range(n))
        self.p = p
        self.free = False
        self.switches = 0
        self.steps = 0
        self.order = []

    def start(self):
        self.gates[int(self.rng.integers(len(self.gates)))].release()

    def wait(self, i):
        seen = -1
        while not self.free and not self.gates[i].acquire(timeout=3):
            if seen == self.steps:  # somebody blocks while having the turn: let them all run
                self.free = True
                for g in self.gates:
                    g.release()
                return
            seen = self.steps

    def step(self, i, where):
        self.steps += 1
        if self.free or self.rng.uniform() >= self.p:
            return
        others = sorted(self.alive - {i})
        if not others:
            return
        j = others[int(self.rng.integers(len(others)))]
        self.switches += 1
        if len(self.order) < 4000:
            self.order.append((i, where))
        self.gates[j].release()
        self.wait(i)

    def leave(self, i):
        self.alive.discard(i)
        rest = sorted(self.alive)
        if rest and not self.free:
            self.gates[rest[int(self.rng.integers(len(rest)))]].release()

    def tracer(self, i):
        def local(frame, event, arg):
            if event == "line":
                self.step(i, frame.f_lineno)
            return local

        def trace(frame, event, arg):
            f = frame.f_code.co_filename
            if event == "call" and LIB in f and "harness" not in f:
                return local
            return None
        return trace


def run(calls, scheduler=None):
    """Runs the calls of each thread; returns the results of each."""
    out = [[] for _ in calls]
    barrier = threading.Barrier(len(calls))

    def work(i):
        try:
            barrier.wait(20)
            if scheduler:
                scheduler.wait(i)
                sys.settrace(scheduler.tracer(i))
            try:
                for c in calls[i]:
                    try:
                        out[i].append(("value", freeze(c())))
                    except Exception as e:
                        out[i].append(("error", f"{type(e).__name__}: {e}"))
            finally:
                sys.settrace(None)
        finally:
            if scheduler:
                scheduler.leave(i)
    threads = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(len(calls))]
    for t in threads:
        t.start()
    if scheduler:
        scheduler.start()
    deadline = time.monotonic() + 90  # the calls take milliseconds
    for t in threads:
        t.join(max(0, deadline - time.monotonic()))
    if any(t.is_alive() for t in threads):
        return None
    return out


# ---------------------------------------------------------------- calls
def graph(ctx, rng):
    for _ in range(20):
        G, W, d = gen.spectral_graph(rng, nmin=4, nmax=14, models=.2, scaled=False, directed=False if rng.uniform() < .7 else None,
                                     loops=False if rng.uniform() < .7 else None, connected=bool(rng.uniform() < .6),
                                     lap="combinatorial" if rng.uniform() < .6 else None)
        if (G.L.toarray() != 0).any() and G.N <= 40:
            break
    else:
        ctx.skip("no edge")
    if not hasattr(G, "coords"):
        G.set_coordinates(rng.normal(size=(G.N, 2)))
    if rng.uniform() < .5:
        G.set_signal(rng.normal(size=G.N), "s")
    return G, d


def prepare(G):
    """What a user does before sharing a graph between threads."""
    G.compute_fourier_basis()
    G.compute_differential_operator()
    G.A, G.d, G.dw, G.e, G.U, G.D, G.lmax, G.coherence, G.is_connected(), G.is_directed(), G.is_weighted()


def lazy(rng, G):
    """On a graph of its own, everything computed on the way."""
    from pygsp import filters, graphs
    W, lap, seed = G.W.copy(), G.lap_type, int(rng.integers(1 << 30))

    def call():
        r = np.random.default_rng(seed)
        g = graphs.Graph(W, lap_type=lap)
        s = r.normal(size=g.N)
        if seed % 2:
            g.estimate_lmax("bounds")
        else:
            g.compute_fourier_basis()
        f = filters.MexicanHat(g, Nf=3)
        return [g.lmax, f.filter(s, order=int(r.integers(3, 20))), f.evaluate(np.linspace(0, g.lmax, 9)), g.D @ g.D.T,
                g.dirichlet_energy(s), g.n_edges, g.dw, g.is_connected(), f.estimate_frame_bounds()]
    return call, [], {}


def features_(rng, G):
    from pygsp import features
    M = int(rng.integers(2, 6))
    return lambda: [features.compute_spectrogram(G, M=M, method="exact"), features.compute_avg_adj_deg(G)], [], {}


def polynomial(rng, G):
    from pygsp import filters
    a = float(rng.uniform(.5, 20))
    s = rng.normal(size=(G.N, 2))
    k = int(rng.integers(3, 25))
    return lambda: [filters.Heat(G, a).filter(s, order=k), filters.Heat(G, a).localize(0), filters.Meyer(G, 4).filter(s, order=k)], \
        [], {}


def solver(rng, G):
    from pygsp import learning
    y, M = rng.normal(size=G.N), rng.uniform(size=G.N) < .7
    L = G.L.toarray()
    for c in ref.components(L - np.diag(np.diag(L))):
        M[c[0]] = True
    z = rng.integers(0, 3, G.N)
    z[:2], M[:2] = [0, 1], True
    t = float(rng.uniform(.1, 3))
    return lambda: [learning.regression_tikhonov(G, y, M, t), learning.regression_tikhonov(G, y, M, 0),
                    learning.classification_tikhonov(G, z, M, t)], [], dict(tol=1e-3)


def lowlevel(rng, G):
    """The functions below the filters, with one signal or many."""
    from pygsp.filters import approximations as ap
    s = rng.normal(size=(G.N,) + [(), (2,)][int(rng.integers(2))])
    c = rng.normal(size=(int(rng.integers(1, 4)), int(rng.integers(3, 20)))) * .1
    lo = float(rng.uniform(0, .5)) * G.lmax
    k = int(rng.integers(3, 20))

    def call():
        out = [ap.cheby_op(G, c, s), ap.cheby_op(G, c[0], s), ap.cheby_rect(G, [lo, G.lmax], s, order=k),
               ap.compute_jackson_cheby_coeff([lo, G.lmax], [0, G.lmax], k)[0]]
        return out + [ap.cheby_op(G, c, s)]
    return call, [], {}


BANKS = {}  # of the graphs of the current plan


def bank(rng, G):
    """The same filter objects, used by several threads."""
    from pygsp import filters
    if id(G) not in BANKS:
        a = float(rng.uniform(.5, 20))
        BANKS[id(G)] = [filters.Heat(G, a), filters.Meyer(G, 4), filters.Filter(G, lambda x: 1 / (1 + a * x)), filters.Held(G),
                        filters.Wave(G, [1, a]), filters.Expwin(G), filters.Itersine(G, 3), filters.Abspline(G, 3),
                        filters.Filter(G, [np.cos, lambda x: x, lambda x: np.exp(-x / a)])]
    f = BANKS[id(G)][int(rng.integers(len(BANKS[id(G)])))]
    s = rng.normal(size=(G.N,) + [(), (2,)][int(rng.integers(2))])
    i, k, x = int(rng.integers(G.N)), int(rng.integers(3, 25)), rng.uniform(0, G.lmax, 7)
    exact = dict(method="exact") if rng.uniform() < .3 else dict(order=k)
    return lambda: [f.localize(i, **exact), f.analyze(s[..., None] if s.ndim == 2 else s, **exact), f.evaluate(x),
                    f.estimate_frame_bounds(), f.compute_frame(**exact), f[0].localize(i, **exact),
                    f.synthesize(f.analyze(s[:, None, None] if s.ndim == 1 else s[..., None], **exact).reshape(
                        G.N, -1, f.Nf), **exact)], [], {}


def modulated(rng, G):
    from pygsp import filters
    key = (id(G), "modulation")
    if key not in BANKS:
        h = filters.Heat(G, float(rng.uniform(1, 20)))
        BANKS[key] = [filters.Modulation(G, h), filters.Modulation(G, h, modulation_first=True), filters.Gabor(G, h)]
    f = BANKS[key][int(rng.integers(3))]
    s = rng.normal(size=G.N)
    return lambda: [f.filter(s)], [], {}


OWN = dict(bank=bank, modulated=modulated, lazy=lazy, lowlevel=lowlevel, features_=features_, polynomial=polynomial, solver=solver)


def plan(ctx, rng, shared):
    """Calls for every thread."""
    n = int(rng.integers(2, 5))
    BANKS.clear()
    G, d = graph(ctx, rng)
    if shared:
        prepare(G)
    names = sorted(set(OPS) - EXCLUDED) + sorted(OWN) * 4
    if rng.uniform() < .4:  # everybody does the same: module-level state shows
        names = [names[int(rng.integers(len(names)))]]
    out = []
    for i in range(n):
        if not shared and i:
            G, _ = graph(ctx, rng)
        if not shared:
            prepare(G)
        calls = []
        for _ in range(20):
            if len(calls) >= int(rng.integers(1, 4)):
                break
            name = names[int(rng.integers(len(names)))]
            made = (OWN.get(name) or OPS.get(name))(rng, G)
            if made is None:
                continue
            calls.append((name, made[0], made[2].get("tol", 1e-9), G))
        out.append(calls)
    if sum(len(c) > 0 for c in out) < 2:
        ctx.skip("nothing to run")
    return [c for c in out if c], d


def compare(ctx, calls, want, got, what):
    ctx.ok(got is not None, "terminates", what)
    for i, (cs, ws, gs) in enumerate(zip(calls, want, got)):
        for (name, _, tol, _), w, g in zip(cs, ws, gs):
            ctx.ok(g[0] == "value", "no-error", lambda: f"{what()}: {name} in thread {i}: {g[1]}")
            ctx.ok(alike(w, g[1], max(tol, 1e-8)), "sequential-result",
                   lambda: f"{what()}: {name} in thread {i}: {str(w)[:300]} became {str(g[1])[:300]}")
        ctx.ok(len(gs) == len(cs), "no-error", what)


def case(ctx, rng, shared, controlled):
    import warnings
    warnings.simplefilter("ignore")
    calls, d = plan(ctx, rng, shared)
    try:
        want = [[freeze(c[1]()) for c in cs] for cs in calls]
    except Exception as e:
        ctx.skip(f"fails alone: {type(e).__name__}")  # decided by the other checks
    for _ in range(1 if controlled else 0):  # results that are not repeatable decide nothing
        again = [[freeze(c[1]()) for c in cs] for cs in calls]
        if not all(alike(a, b, max(c[2], 1e-8)) for cs, x, y in zip(calls, want, again) for c, a, b in zip(cs, x, y)):
            ctx.skip("not repeatable")
    graphs_ = {id(c[3]): c[3] for cs in calls for c in cs}
    before = {k: raw(g) for k, g in graphs_.items()}
    names = [[c[0] for c in cs] for cs in calls]
    ctx.describe(threads=names, shared=shared, **d)
    for repeat in range(2):
        if controlled:
            p = float(rng.choice([.02, .1, .3, 1]))
            s = Scheduler(int(rng.integers(1 << 30)), len(calls), p)
            got = run([[c[1] for c in cs] for cs in calls], s)
            ctx.note("switches", s.switches)
            ctx.note("library lines traced", s.steps)
            ctx.note("interleavings")
            if s.free:
                ctx.note("released schedules")
            what = lambda: f"threads {names} shared={shared} p={p} after {s.switches} switches"
        else:
            old = sys.getswitchinterval()
            sys.setswitchinterval(1e-6)
            try:
                got = run([[c[1] for c in cs] * 3 for cs in calls])
            finally:
                sys.setswitchinterval(old)
            what = lambda: f"threads {names} shared={shared} running freely"
            ctx.note("free runs")
        if not controlled:
            compare(ctx, [cs * 3 for cs in calls], [w * 3 for w in want], got, what)
        else:
            compare(ctx, calls, want, got, what)
    for k, g in graphs_.items():
        ctx.ok(raw(g) == before[k], "graph-unchanged", what)
    after = [[freeze(c[1]()) for c in cs] for cs in calls]
    compare(ctx, calls, want, [[("value", v) for v in x] for x in after], lambda: f"alone again after {names}")


@R.family(quick=500, thorough=12000, timeout=300)
def interleaved_shared(ctx, rng):
    case(ctx, rng, True, True)


@R.family(quick=350, thorough=10000, timeout=300)
def interleaved_separate(ctx, rng):
    case(ctx, rng, False, True)


@R.family(quick=250, thorough=8000, timeout=300)
def stressed(ctx, rng):
    case(ctx, rng, bool(rng.integers(2)), False)
