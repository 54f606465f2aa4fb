"""P15: named filters evaluate to their documented formulas."""
import numpy as np
from core import Registry
import gen
import ref

R = Registry()
R.rule = ("random graphs and lmax states x every filter class x random parameters x random and boundary frequencies; "
          "distinct by content hash")
R.assumptions = ["the docstring typos of Simoncelli (log(x/2) for log(x/a)) and Papadakis (placement of the 1/2) are resolved "
                 "in favour of continuity and of the tight-frame guarantee, as in the cited papers"]
TECHNIQUE = "runtime monitoring: seeded evaluation workloads against independent closed-form spectral formulas"


def where(*pairs):
    conds, vals = zip(*pairs)
    return np.select(conds, vals, 0.)


def hi(low):
    return np.sqrt(np.maximum(0, 1 - low ** 2))


def bump(x):
    return np.where(x > 0, np.exp(-1 / np.where(x > 0, x, 1)), 0)


def expwin(x, lm, bmin, bmax, slope):
    b = lambda t: np.where(t > 0, np.exp(-slope / np.where(t > 0, t, 1)), 0)
    h = lambda t: b(t) / (b(t) + b(1 - t))
    y = np.ones_like(x)
    if bmax is not None:
        y = y * h(.5 - x / lm + bmax)
    if bmin is not None:
        y = y * h(.5 + x / lm - bmin)
    return y


def spline3(t):
    return where((t <= 1, t ** 2), (t < 2, -5 + 11 * t - 6 * t ** 2 + t ** 3), (t >= 2, 4. / np.where(t > 0, t, 1) ** 2))


def v(x):
    return x ** 4 * (35 - 84 * x + 70 * x ** 2 - 20 * x ** 3)


def meyer(t, low):
    a, b, c = 2 / 3, 4 / 3, 8 / 3
    if low:
        return where((t < a, 1.), (t < b, np.cos(np.pi / 2 * v(t / a - 1))))
    return where((t < a, 0.), (t < b, np.sin(np.pi / 2 * v(t / a - 1))), (t < c, np.cos(np.pi / 2 * v(t / b - 1))))


def simpletight(t, low):
    h = lambda u: np.sin(np.pi * u / 2) ** 2
    if low:
        return where((t < .25, 1.), (t < .5, np.sqrt(np.maximum(0, 1 - h(4 * t - 1) ** 2))))
    return where((t < .25, 0.), (t < .5, h(4 * t - 1)), (t < 1, np.sqrt(np.maximum(0, 1 - h(2 * t - 1) ** 2))))


def logscales(lm, lp, n):
    return np.geomspace(2 / (lm / lp), 1 / lm, n) if n > 1 else np.array([2 / (lm / lp)])


def draw(rng, g):
    """(class name, kwargs, list of (x -> reference), kinks, tol)."""
    lm = float(g.lmax)
    name = str(rng.choice(["Heat", "Wave", "Rectangular", "Expwin", "MexicanHat", "Abspline", "Meyer", "HalfCosine",
                           "Itersine", "Regular", "Held", "Simoncelli", "Papadakis", "SimpleTight"]))
    seq = lambda vals: {0: list, 1: tuple, 2: np.array}[int(rng.integers(3))](vals)
    kinks = []
    tol = 1e-9
    default = rng.uniform() < .15
    if name == "Heat":
        k = int(rng.integers(0, 5))
        sc = [float(t) for t in rng.choice([.01, .5, 1, 3, 10, 77., 500.], max(k, 1))]
        kw = dict(scale=sc[0] if k == 0 else seq(sc))
        if rng.uniform() < .4:
            kw["normalize"] = True
        if default:
            kw, sc = {}, [10.]
        e = np.asarray(g.e) if kw.get("normalize") else None
        fs = []
        for s in sc:
            nm = np.sqrt(np.sum(np.exp(-s * np.maximum(e, 0) / lm) ** 2)) if e is not None else 1.
            fs.append(lambda x, s=s, nm=nm: np.exp(-s * x / lm) / nm)
    elif name == "Wave":
        k = int(rng.integers(0, 4))
        t = [float(q) for q in rng.choice([0, 1, 2, 5, 10, 17, 2.5], max(k, 1))]
        if rng.uniform() < .5:
            t = [int(q) for q in t]
        sp = [float(q) for q in rng.uniform(0, 1.99, max(k, 1))]
        mode = str(rng.choice(["both", "time", "speed"]))
        if mode == "both":
            kw = dict(time=seq(t), speed=seq(sp)) if k else dict(time=t[0], speed=sp[0])
        elif mode == "time":
            kw = dict(time=seq(t) if k else t[0], speed=sp[0] if rng.uniform() < .5 else seq(sp[:1]))
            sp = sp[:1] * len(t)
        else:
            kw = dict(time=t[0] if rng.uniform() < .5 else seq(t[:1]), speed=seq(sp) if k else sp[0])
            t = t[:1] * len(sp)
        if default:
            kw, t, sp = {}, [10], [1]
        fs = [lambda x, a=a, b=b: np.cos(a * np.arccos(np.clip(1 - b ** 2 / 2 * (x / lm), -1, 1))) for a, b in zip(t, sp)]
        tol = 1e-6
    elif name in ("Rectangular", "Expwin"):
        bmin = None if rng.uniform() < .4 else float(rng.choice([0, .1, .25, .5, rng.uniform()]))
        bmax = None if rng.uniform() < .3 else float(rng.choice([1, .2, .75, .5, rng.uniform()]))
        kw = dict(band_min=bmin, band_max=bmax)
        slope = 1
        if name == "Expwin" and rng.uniform() < .6:
            slope = kw["slope"] = float(rng.choice([.5, 1, 2, 5, 10]))
        if default:
            kw, bmin, bmax, slope = {}, None, .2, 1
        if name == "Rectangular":
            kinks = [b * lm for b in (bmin, bmax) if b is not None]
            fs = [lambda x: 1. * (x >= (bmin if bmin is not None else -1) * lm) * (x <= (bmax if bmax is not None else 2) * lm)]
        else:
            fs = [lambda x: expwin(x, lm, bmin, bmax, slope)]
    elif name in ("MexicanHat", "Abspline"):
        Nf = gen.count(rng, 2, 8)
        kw = dict(Nf=Nf)
        lp = 20.
        if rng.uniform() < .5:
            lp = kw["lpfactor"] = float(rng.choice([2, 5, 10, 20, 100]))
        sc = logscales(lm, lp, Nf - 1)
        if rng.uniform() < .4:
            sc = np.sort(rng.uniform(.5, 50, Nf - 1))[::-1] / lm
            kw["scales"] = seq(sc.tolist())
        if default:
            kw, lp, Nf = {}, 20., 6
            sc = logscales(lm, lp, 5)
        lmin = lm / lp
        if name == "MexicanHat":
            nz = rng.uniform() < .4 and not default
            if nz:
                kw["normalize"] = True
            fs = [lambda x: 1.2 * np.exp(-1) * np.exp(-(x / (.4 * lmin)) ** 4)]
            fs += [lambda x, s=s: (np.sqrt(s) if nz else 1) * s * x * np.exp(-s * x) for s in sc]
        else:
            fs = [lambda x: (1 + 2 * np.sqrt(3) / 9) * np.exp(-(x / (.6 * lmin)) ** 4)]
            fs += [lambda x, s=s: spline3(s * x) for s in sc]
            tol = 1e-7
    elif name in ("Meyer", "SimpleTight"):
        Nf = gen.count(rng, 2, 9)
        kw = dict(Nf=Nf)
        base = 4 / 3 if name == "Meyer" else .5
        if default:
            kw, Nf = {}, 6
        sc = base / lm * 2. ** np.arange(Nf - 2, -1, -1)
        if not default and rng.uniform() < .4:
            sc = np.sort(rng.uniform(.3, 20, Nf - 1))[::-1] / lm
            kw["scales"] = seq(sc.tolist())
        k = meyer if name == "Meyer" else simpletight
        fs = [lambda x: k(sc[0] * x, True)] + [lambda x, s=s: k(s * x, False) for s in sc]
        tol = 1e-6
    elif name == "HalfCosine":
        Nf = gen.count(rng, 3, 12)
        kw = dict(Nf=Nf) if not default else {}
        Nf = Nf if not default else 6
        w = 3 * lm / (Nf - 2)
        fs = [lambda x, i=i: where(((x - w / 3 * (i - 2) >= 0) & (x - w / 3 * (i - 2) <= w),
                                    .5 + .5 * np.cos(2 * np.pi * ((x - w / 3 * (i - 2)) / w - .5)))) for i in range(Nf)]
    elif name == "Itersine":
        o = int(rng.choice([2, 2, 3, 4]))
        Nf = o + gen.count(rng, 0, 9)
        kw = dict(Nf=Nf, overlap=o)
        if default:
            kw, Nf, o = {}, 6, 2
        T = lm / (Nf - o + 1) * o
        def it(x, i):
            t = x / T - (i / o - .5)
            return where((np.abs(t) <= .5, np.sin(np.pi / 2 * np.cos(np.pi * t) ** 2))) * np.sqrt(2 / o)
        fs = [lambda x, i=i: it(x, i) for i in range(1, Nf + 1)]
        tol = 1e-8
    elif name == "Regular":
        dg = gen.count(rng, 0, 6)
        kw = dict(degree=dg)
        if default:
            kw, dg = {}, 3
        def low(x):
            y = 2 * x / lm
            if dg == 0:
                return np.sin(np.pi / 4 * y)
            z = y - 1
            for _ in range(dg):
                z = np.sin(np.pi / 2 * z)
            return np.sin(np.pi / 4 * (1 + z))
        fs = [low, lambda x: hi(low(x))]
        tol = 1e-6
    else:
        a0, mx = dict(Held=(2 / 3, 1), Simoncelli=(2 / 3, 1), Papadakis=(.75, 1.2))[name]
        a = float(rng.uniform(.1, mx))
        kw = dict(a=a)
        if default:
            kw, a = {}, a0
        mu = lambda t: -1 + 24 * t - 144 * t ** 2 + 256 * t ** 3
        def low(x):
            y = 2 * x / lm
            if name == "Held":
                return where((y <= a, 1.), (y <= 2 * a, np.sin(2 * np.pi * mu(y / 8 / a))))
            if name == "Simoncelli":
                return where((y <= a, 1.), (y <= 2 * a, np.cos(np.pi / 2 * np.log(np.where(y > 0, y, 1) / a) / np.log(2))))
            return where((y <= a, 1.), (y <= 5 * a / 3, np.sqrt((1 - np.sin(3 * np.pi / (2 * a) * y)) / 2)))
        fs = [low, lambda x: hi(low(x))]
        tol = 1e-6
    return name, kw, fs, kinks, tol


@R.family(quick=1400, thorough=45000)
def formulas(ctx, rng):
    from pygsp import filters
    g, W, d = gen.spectral_graph(rng, nmin=2, nmax=12)
    L = ref.laplacian(W, d["lap"])
    if gen.edgeless(W):
        ctx.skip("no edge")
    how = str(rng.choice(["fourier", "bounds"]))
    g.compute_fourier_basis() if how == "fourier" else g.estimate_lmax("bounds")
    lm = float(g.lmax)
    name, kw, fs, kinks, tol = draw(rng, g)
    lm = float(g.lmax)  # Normalized heat kernels compute the Fourier basis.
    if how == "bounds" and kw.get("normalize") and name == "Heat":
        # lmax changes when the basis is computed: draw the references again.
        g.compute_fourier_basis()
        lm = float(g.lmax)
        kw = dict(kw)
        sc = np.atleast_1d(kw["scale"])
        e = np.maximum(np.asarray(g.e), 0)
        fs = [lambda x, s=s: np.exp(-s * x / lm) / np.linalg.norm(np.exp(-s * e / lm)) for s in sc]
    kw0 = ref.snapshot(kw)
    f = getattr(filters, name)(g, **kw)
    ctx.describe(filter=name, params=kw, how=how, **d)
    ctx.note("filter:" + name)
    ctx.ok(ref.snapshot(kw) == kw0, "parameters-untouched")
    ctx.same(f.Nf, len(fs), "number-of-filters")
    x = np.concatenate([rng.uniform(0, lm, 60 if rng.uniform() > .03 else int(rng.integers(200, 12000))), np.linspace(0, lm, 13), lm * 2. ** -np.arange(0, 9), lm / 3 * np.r_[1, 2]])
    if kinks:
        x = x[np.min(np.abs(x[:, None] - np.array(kinks)), 1) > 1e-9 * lm]
    y = f.evaluate(x)
    for i, r in enumerate(fs):
        want = r(x)
        sl = 3e-3 if name in ("Regular", "Held", "Simoncelli", "Papadakis") and i == 1 else None
        if sl is None:
            ctx.close(y[i], want, "formula", tol, scale=max(1, np.abs(want).max()) if "normalize" not in kw else None, msg=f"{name} filter {i}")
        else:
            # sqrt(1-y^2) amplifies rounding where it vanishes: compare the squares.
            ctx.close(y[i] ** 2, want ** 2, "formula", 1e-9, scale=1, msg=f"{name} filter {i}")
            ctx.ok((y[i] >= 0).all(), "formula-sign")
    # Other shapes and scalars give the same numbers.
    xs = rng.uniform(0, lm, (2, 3))
    if kinks:
        xs = np.where(np.min(np.abs(xs[..., None] - np.array(kinks)), -1) > 1e-9 * lm, xs, 0.9 * min(k for k in kinks) if min(kinks) > 0 else xs)
    y2 = f.evaluate(xs)
    ctx.close(y2.reshape(len(fs), -1), f.evaluate(xs.ravel()), "shape-invariant", 1e-12, scale=max(np.abs(y2).max(), 1e-300))
    ctx.close(np.stack([f.evaluate(float(t)) for t in xs.ravel()], 1), f.evaluate(xs.ravel()), "scalar", 1e-9, scale=max(np.abs(y2).max(), 1e-300))
    # Frequencies given as integers are frequencies like the others.
    ints = np.unique(rng.integers(0, max(int(min(lm, 200)), 0) + 1, 6))
    if kinks:
        ints = ints[np.min(np.abs(ints[:, None] - np.array(kinks)), 1) > 1e-9 * lm]
    if ints.size and (ints <= lm).all():
        want = f.evaluate(ints.astype(float))
        dt = str(rng.choice(["int64", "int32", "uint16", "list"]))
        arg = ints.tolist() if dt == "list" else ints.astype(dt)
        got = f.evaluate(arg)
        ctx.close(got, want, "integer-frequencies", 1e-9, scale=max(np.abs(want).max(), 1e-300), msg=f"{name} {dt}")
    if name == "Rectangular":
        bmin, bmax = (kw.get("band_min"), kw.get("band_max")) if kw else (None, .2)
        edge = f.evaluate([0., lm])[0]
        ctx.same(edge, [float((bmin or 0) <= 0), float((bmax if bmax is not None else 2) >= 1)], "inclusive-bounds") if (bmin is None or bmin <= 1) else None
    if name == "Expwin" and kw and (kw["band_min"] is None) != (kw["band_max"] is None):
        b = kw["band_min"] if kw["band_max"] is None else kw["band_max"]
        ctx.close(f.evaluate([b * lm])[0], [.5], "half-at-cutoff", 1e-9)
    if name == "Heat" and kw.get("normalize"):
        ctx.close(np.linalg.norm(f.evaluate(g.e), axis=1), np.ones(len(fs)), "unit-norm", 1e-9)
    # At the eigenvalues, including those rounded below zero.
    ye = f.evaluate(g.e)
    ctx.ok(np.isfinite(ye).all(), "finite-on-spectrum")
    ctx.ok(repr(f).startswith(name), "repr")


@R.family(quick=250, thorough=4000)
def rejected(ctx, rng):
    from pygsp import filters, graphs
    g = graphs.Path(int(rng.integers(4, 10)))
    g.compute_fourier_basis()
    Nf = int(rng.integers(3, 8))
    m = int(rng.choice([k for k in range(1, 10) if k != Nf - 1]))
    sc = np.linspace(3, 1, m)
    ctx.describe(Nf=Nf, m=m, N=g.N)
    for name in ("MexicanHat", "Meyer", "SimpleTight", "Abspline"):
        ctx.raises(lambda: getattr(filters, name)(g, Nf=Nf, scales=sc), ValueError, "reject-scales-" + name)
    ctx.raises(lambda: filters.HalfCosine(g, Nf=int(rng.integers(-1, 3))), ValueError, "reject-halfcosine")
    sp = float(rng.choice([2, 2.5, 10, -.1, -3]))
    ctx.raises(lambda: filters.Wave(g, speed=sp), ValueError, "reject-speed")
    ctx.raises(lambda: filters.Wave(g, speed=[.5, sp]), ValueError, "reject-speed")
    a, b = int(rng.integers(2, 5)), int(rng.integers(5, 8))
    ctx.raises(lambda: filters.Wave(g, time=list(range(a)), speed=[.5] * b), ValueError, "reject-lengths")
    ctx.raises(lambda: filters.Gabor(g, filters.Heat(g, [1, 2])), ValueError, "reject-gabor-bank")
    ctx.raises(lambda: filters.Modulation(g, filters.Heat(g, [1, 2])), ValueError, "reject-modulation-bank")
    g2 = graphs.Path(g.N)
    g2.compute_fourier_basis()
    ctx.raises(lambda: filters.Gabor(g, filters.Heat(g2, 1)), ValueError, "reject-gabor-graph")
    ctx.raises(lambda: filters.Modulation(g, filters.Heat(g2, 1)), ValueError, "reject-modulation-graph")
