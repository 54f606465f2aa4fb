"""P12: filter banks documented as tight frames are tight."""
import numpy as np
from core import Registry
import gen
import ref

R = Registry()
R.rule = ("random graphs (several components, all scales) x tight-frame banks x parameters; non-trivial by construction "
          "(at least one edge); distinct by content hash")
R.assumptions = ["admissible itersine overlaps are even (half-overlapping windows)"]

BANKS = ["Meyer", "HalfCosine", "Itersine", "SimpleTight", "Regular", "Held", "Simoncelli", "Papadakis"]


def draw(rng, name):
    if name == "Meyer" or name == "SimpleTight":
        return dict(Nf=gen.count(rng, 2, 12))
    if name == "HalfCosine":
        return dict(Nf=gen.count(rng, 3, 14))
    if name == "Itersine":
        o = int(rng.choice([2, 2, 2, 4, 6])) if rng.uniform() > gen.LARGE else 2 * int(rng.integers(4, 30))
        return dict(Nf=o + gen.count(rng, 0, 10), overlap=o)
    if name == "Regular":
        return dict(degree=gen.count(rng, 0, 8))
    hi = {"Held": 1., "Simoncelli": 1., "Papadakis": 1.2}[name]
    return dict(a=float(rng.uniform(.05, hi)))


@R.family(quick=900, thorough=25000)
def tight(ctx, rng):
    from pygsp import filters
    g, W, d = gen.spectral_graph(rng, nmin=2, nmax=14)
    L = ref.laplacian(W, d["lap"])
    if gen.edgeless(W):
        ctx.skip("no edge")
    name = str(rng.choice(BANKS))
    kw = draw(rng, name) if rng.uniform() < .85 else {}
    how = str(rng.choice(["fourier", "bounds"]))
    g.compute_fourier_basis() if how == "fourier" else g.estimate_lmax("bounds")
    ctx.describe(bank=name, params=kw, how=how, **d)
    ctx.note("bank:" + name)
    f = getattr(filters, name)(g, **kw)
    lm = float(g.lmax)
    # whole interval: grid, random points, window boundaries
    x = np.concatenate([np.linspace(0, lm, 257), rng.uniform(0, lm, 64), lm * np.arange(0, 33) / 32,
                        lm * np.arange(0, 31) / 30, lm * (.5 ** np.arange(0, 14)), lm / 3 * np.r_[1, 2, .5],
                        np.nextafter(lm * np.arange(0, 9) / 8, np.inf)[:-1]])
    x = np.clip(x, 0, lm)
    y = (f.evaluate(x) ** 2).sum(0)
    want = {"HalfCosine": 9 / 8}.get(name, 1.)
    ctx.close(y, np.full(len(x), want), "constant-sum", 1e-8)
    A, B = f.estimate_frame_bounds()
    ctx.close([A, B], [want, want], "bounds", 1e-8)
    # on the graph: analysis then synthesis; eigenvalues that are zero up to rounding
    n = len(W)
    g.compute_fourier_basis()
    e = np.asarray(g.e)
    if how == "fourier":
        y = (f.evaluate(e) ** 2).sum(0)
        ctx.close(y, np.full(n, want), "eigenvalues", 1e-7)
        s = rng.normal(size=n)
        r = f.filter(f.filter(s, method="exact").reshape(n, 1, f.Nf), method="exact")
        ctx.close(r, want * s, "reconstruction", 1e-7, scale=np.abs(s).max() * n)
        c = f.filter(s, method="exact")
        ctx.close(np.sum(c ** 2), want * (s @ s), "parseval", 1e-7, scale=s @ s)
    jitter = np.array([-1e-17, -3e-16, 0., 1e-17, 3e-16]) * lm
    y = (f.evaluate(jitter) ** 2).sum(0)
    ctx.close(y, np.full(5, want), "rounded-zero", 1e-6)
    # stale memory must not leak into unassigned entries
    junk = np.full((f.Nf, 5), 1e3)
    del junk
    z = f.evaluate(jitter)
    if f.Nf <= 20 and kw.get("degree", 0) <= 10:  # The windows are much wider than the jitter.
        ctx.close(z, f.evaluate(np.abs(jitter)), "continuous-at-zero", 1e-5, scale=1)


@R.family(quick=150, thorough=3000)
def rejected(ctx, rng):
    from pygsp import filters, graphs
    g = graphs.Path(int(rng.integers(4, 12)))
    g.compute_fourier_basis()
    Nf = int(rng.integers(3, 7))
    ctx.describe(Nf=Nf, N=g.N, s=rng.uniform())
    ctx.raises(lambda: filters.HalfCosine(g, int(rng.integers(0, 3))), ValueError, "reject-halfcosine")
    ctx.raises(lambda: filters.Meyer(g, Nf, scales=np.ones(Nf)), ValueError, "reject-meyer")
    ctx.raises(lambda: filters.SimpleTight(g, Nf, scales=[1.] * Nf), ValueError, "reject-simpletight")
