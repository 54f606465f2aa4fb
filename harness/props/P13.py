"""P13: complements make banks tight, inverses reconstruct."""
import numpy as np
from core import Registry
import gen
import ref
from props.P09 import smooth_bank

R = Registry()
R.rule = ("random graphs (any Laplacian, scale, components) x custom and named banks (with exact blind bands in a third "
          "of the cases) x bounds; distinct by content hash")
R.assumptions = ["dual frames are only compared when the bank is a frame with condition number below 1e6, or has exactly "
                 "zero responses outside what it sees"]


def bank(ctx, rng, blind=None):
    from pygsp import filters
    g, W, d = gen.spectral_graph(rng, nmin=2, nmax=12)
    n = len(W)
    L = ref.laplacian(W, d["lap"])
    if gen.edgeless(W):
        ctx.skip("no edge")
    how = str(rng.choice(["fourier", "fourier", "bounds"]))
    g.compute_fourier_basis() if how == "fourier" else g.estimate_lmax("bounds")
    lm = float(g.lmax)
    kind = str(rng.choice(["named", "smooth", "blind"], p=[.3, .35, .35])) if blind is None else blind
    if kind == "named":
        name, kw, f = gen.filterbank(rng, g)
        d = dict(d, bank=name, params=kw)
    elif kind == "smooth":
        ks, kd = smooth_bank(rng, lm)
        if rng.uniform() < .15:  # Tens of filters.
            for _ in range(int(rng.integers(3, 40))):
                more, kd2 = smooth_bank(rng, lm)
                ks, kd = ks + more, [kd, kd2]
        f = filters.Filter(g, ks)
        d = dict(d, bank=kd)
    else:
        cuts = np.sort(rng.uniform(0, 1, (gen.count(rng, 1, 4, 150), 2)), 1)
        amp = rng.uniform(.2, 3, len(cuts)) * rng.choice([-1, 1], len(cuts))
        ks = [lambda x, c=c, a=a: a * ((np.asarray(x) >= c[0] * lm) & (np.asarray(x) <= c[1] * lm)) for c, a in zip(cuts, amp)]
        f = filters.Filter(g, ks)
        d = dict(d, cuts=cuts, amp=amp)
    ctx.describe(kind=kind, how=how, **d)
    ctx.note("kind:" + kind)
    return g, L, f, lm, kind


@R.family(quick=700, thorough=20000)
def complement(ctx, rng):
    g, L, f, lm, kind = bank(ctx, rng)
    F = f.Nf
    shape = {0: (40,), 1: (6, 7), 2: (2, 3, 4), 3: (1,)}[int(rng.integers(4))]
    x = rng.uniform(0, lm, shape)
    if rng.uniform() < .4:
        x = np.asarray(g.e)
    y = (f.evaluate(x) ** 2).sum(0)
    top = y.max()
    if top <= 1e-12:
        ctx.skip("blind to every drawn frequency")
    mode = str(rng.choice(["default", "bound", "tight-bound"]))
    bound = None if mode == "default" else top * (1 + float(rng.uniform(.001, 3))) if mode == "bound" else top * (1 + 1e-9)
    c = f.complement() if bound is None else f.complement(bound) if rng.uniform() < .5 else f.complement(frame_bound=bound)
    want = top if bound is None else bound
    ctx.describe(mode=mode, x=x)
    ctx.same([c.Nf, f.Nf], [1, F], "one-filter")
    ctx.ok(c.G is g, "same-graph")
    z = c.evaluate(x)
    ctx.ok((z >= 0).all(), "non-negative")
    h = f + c
    ctx.same(len(h), F + 1, "length")
    ctx.close((h.evaluate(x) ** 2).sum(0), np.full(np.shape(x), want), "constant", 1e-9)
    A, B = h.estimate_frame_bounds(x)
    ctx.close([A, B], [want, want], "bounds", 1e-9)
    # The bound is recomputed from the evaluated frequencies, every time.
    x2 = rng.uniform(0, lm, 17)
    y2 = (f.evaluate(x2) ** 2).sum(0)
    if bound is None:
        ctx.close((h.evaluate(x2) ** 2).sum(0), np.full(17, y2.max()), "constant-again", 1e-9, scale=max(y2.max(), 1e-6))
    elif y2.max() <= bound:
        ctx.close((h.evaluate(x2) ** 2).sum(0), np.full(17, bound), "constant-again", 1e-9)
    elif y2.max() > bound * (1 + 1e-6):  # Not by a rounding error.
        ctx.raises(lambda: c.evaluate(x2), ValueError, "infeasible-elsewhere")
    # Infeasible bounds.
    bad = top * float(rng.choice([.999, .5, .01]))
    ctx.raises(lambda: f.complement(bad).evaluate(x), ValueError, "infeasible")
    ctx.raises(lambda: f.complement(frame_bound=0).evaluate(x), ValueError, "infeasible-zero")
    # Tight on the graph.
    n = g.N
    e = np.asarray(g.e)
    ye = (f.evaluate(e) ** 2).sum(0)
    if ye.max() > 1e-12 and (bound is None or ye.max() <= bound):
        we = ye.max() if bound is None else bound
        s = rng.normal(size=n)
        a = h.filter(s, method="exact").reshape(n, 1, F + 1)
        ctx.close(np.sum(a ** 2), we * (s @ s), "parseval", 1e-8)
        ctx.close(h.filter(a, method="exact"), we * s, "reconstruct", 1e-8, scale=we * np.abs(s).max() * n)


@R.family(quick=700, thorough=20000)
def inverse(ctx, rng):
    g, L, f, lm, kind = bank(ctx, rng)
    n, F = g.N, f.Nf
    g.compute_fourier_basis()
    e, U = np.asarray(g.e), np.asarray(g.U)
    y = f.evaluate(e)
    S = (y ** 2).sum(0)
    if kind == "blind":
        seen = S > 0
    else:
        if S.min() < 1e-12 * S.max() or S.max() == 0:
            ctx.skip("not a frame")
        seen = np.ones(n, bool)
    ctx.note("frame" if seen.all() else "rank-deficient")
    h = f.inverse()
    ctx.same([h.Nf, f.Nf], [F, F], "size")
    x = rng.uniform(0, lm, {0: (30,), 1: (3, 5), 2: ()}[int(rng.integers(3))])
    yx = f.evaluate(x)
    Sx = (yx ** 2).sum(0)
    okx = (Sx > 1e-12 * max(Sx.max(), 1e-300)) if kind != "blind" else np.ones(np.shape(x), bool)
    if np.all(okx):
        want = np.where(Sx > 0, yx / np.where(Sx > 0, Sx, 1), 0)
        ctx.close(h.evaluate(x), want, "canonical-dual", 1e-7)
    want = np.where(seen, y / np.where(seen, S, 1), 0)
    ctx.close(h.evaluate(e), want, "canonical-dual-spectrum", 1e-7, scale=max(np.abs(want).max(), 1))
    k = int(rng.integers(0, 3))
    s = rng.normal(size=(n, k, 1)) if k > 1 else rng.normal(size=n)
    P = (U * seen) @ U.T
    T = h.filter(f.filter(s, method="exact").reshape(n, max(k if k > 1 else 1, 1), F), method="exact")
    cond = np.sqrt(S[seen].max() / S[seen].min()) if seen.any() else 1.
    ref_s = s.reshape(n, -1)
    ctx.close(T.reshape(n, -1), P @ ref_s, "reconstruct", 1e-10 * max(cond, 1) * n, scale=np.abs(ref_s).max())
    if seen.all():
        A, B = f.estimate_frame_bounds(e)
        a, b = h.estimate_frame_bounds(e)
        ctx.close([a * B, b * A], [1, 1], "reciprocal-bounds", 1e-7)
    # The inverse of a member is not the member of the inverse, but inverting twice is the identity.
    if seen.all() and cond < 1e3:
        ctx.close(h.inverse().evaluate(e), y, "involution", 1e-6)
