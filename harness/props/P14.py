"""P14: filter banks compose like lists of kernels bound to a graph."""
import numpy as np
from core import Registry
import gen
import ref

R = Registry()
R.rule = ("random programs of indexing, slicing, concatenation, rebinding and evaluation on banks of named and custom "
          "kernels, run side by side with a plain list-of-functions model; distinct by content hash")
R.assumptions = ["kernels are pure functions of the frequency"]
TECHNIQUE = "runtime monitoring: random operation histories against a list-of-kernels model (online trace checker)"

SHAPES = [(), (1,), (7,), (3, 4), (2, 1, 5), (1, 1)]


def prepared(rng, **kw):
    g, W, d = gen.spectral_graph(rng, nmin=2, nmax=9, **kw)
    g.compute_fourier_basis()
    return g, W, d


def custom(rng):
    ks, ds = [], []
    for _ in range(int(rng.integers(1, 5))):
        a, b = rng.uniform(.2, 2, 2)
        kind = str(rng.choice(["affine", "exp", "scalar", "step"]))
        ks.append({"affine": lambda x, a=a, b=b: a + b * x, "exp": lambda x, a=a, b=b: a * np.exp(-b * np.abs(x)),
                   "scalar": lambda x, a=a: a, "step": lambda x, a=a, b=b: b * (np.asarray(x) > a)}[kind])
        ds.append((kind, a, b))
    return ks, ds


def vals(model, x):
    x = np.asarray(x)
    return np.stack([np.broadcast_to(np.asarray(k(x), float), x.shape) for k in model]) if model else np.zeros((0,) + x.shape)


def freqs(rng, lm):
    x = rng.uniform(0, lm, SHAPES[int(rng.integers(len(SHAPES)))])
    return np.asarray(x)


@R.family(quick=500, thorough=15000)
def programs(ctx, rng):
    from pygsp import filters, graphs
    g, W, d = prepared(rng)
    if gen.edgeless(W):
        ctx.skip("no edge")
    lm = float(g.lmax)
    g2 = graphs.Path(int(rng.integers(2, 9)))
    g2.compute_fourier_basis()
    pool, log = [], []

    def new():
        if rng.uniform() < .5:
            ks, ds = custom(rng)
            seq = str(rng.choice(["list", "tuple", "single", "array"]))
            if seq == "single":
                ks, ds = ks[:1], ds[:1]
            arg = {"list": list(ks), "tuple": tuple(ks), "single": ks[0], "array": np.array(ks, dtype=object)}[seq]
            pool.append((filters.Filter(g, arg), ks, g))
            log.append(("custom", seq, ds))
        else:
            name, kw, f = gen.filterbank(rng, g)
            pool.append((f, [lambda x, i=i, f=f: f.evaluate(x)[i] for i in range(f.Nf)], g))
            log.append((name, kw))

    def check(i):
        f, m, gg = pool[i]
        ctx.same([len(f), f.Nf, f.n_filters], [len(m)] * 3, "length")
        ctx.ok(f.G is gg, "bound-graph")
        x = freqs(rng, lm)
        arg = x.tolist() if rng.uniform() < .3 else x
        y = f(arg) if rng.uniform() < .5 else f.evaluate(arg)
        ctx.ok(isinstance(y, np.ndarray) and y.shape == (len(m),) + x.shape, "response-shape", f"{np.shape(y)}")
        ctx.close(y, vals(m, x), "responses", 1e-10)

    new()
    for _ in range(int(rng.integers(4, 14))):
        op = str(rng.choice(["new", "index", "slice", "add", "iadd", "rebind", "iterate", "select"]))
        i = int(rng.integers(len(pool)))
        f, m, gg = pool[i]
        if op == "new":
            new()
        elif op == "index":
            k = int(rng.integers(-len(m), len(m))) if m else 0
            if not m:
                continue
            key = np.int64(k) if rng.uniform() < .3 else k
            pool.append((f[key], [m[k]], gg))
            ctx.raises(lambda: f[len(m)], IndexError, "index-out-of-range")
        elif op in ("slice", "select"):
            a = [None if rng.uniform() < .4 else int(rng.integers(-len(m) - 1, len(m) + 2)) for _ in range(2)]
            st = None if rng.uniform() < .5 else int(rng.choice([1, 2, -1, -2]))
            sl = slice(a[0], a[1], st)
            if not m[sl]:
                ctx.same(len(f[sl]), 0, "empty-slice", str(sl))
                continue
            log.append(str(sl))
            pool.append((f[sl], m[sl], gg))
        elif op in ("add", "iadd"):
            j = int(rng.integers(len(pool)))
            f2, m2, _ = pool[j]
            if len(m) + len(m2) > 24:
                continue
            if op == "add":
                h = f + f2
            else:
                h = f
                h += f2
                ctx.ok(h is not f, "iadd-new-object")
            pool.append((h, m + m2, gg))
            check(i)
            check(j)
        elif op == "rebind":
            tgt = g2 if rng.uniform() < .5 else g
            pool.append((f(tgt), m, tgt))
            check(i)
        else:
            parts = list(f)
            ctx.same(len(parts), len(m), "iteration")
            for p, k in zip(parts, m):
                x = freqs(rng, lm)
                ctx.close(p.evaluate(x), vals([k], x), "iteration-order", 1e-10)
        log.append((op, i))
        check(len(pool) - 1)
    for i in rng.permutation(len(pool))[:5]:
        check(int(i))
    ctx.describe(program=log, **d)
    ctx.note("operations", len(log))


@R.family(quick=400, thorough=10000)
def independence(ctx, rng):
    """A bank's output is the collection of the outputs of its members."""
    from pygsp import filters, graphs
    g, W, d = prepared(rng)
    n = len(W)
    if gen.edgeless(W):
        ctx.skip("no edge")
    name, kw, f = gen.filterbank(rng, g)
    if rng.uniform() < .4:
        n2, kw2, f2 = gen.filterbank(rng, g)
        name, kw, f = name + "+" + n2, dict(a=kw, b=kw2), f + f2
    F = f.Nf
    ctx.describe(bank=name, params=kw, **d)
    method = str(rng.choice(["exact", "chebyshev"]))
    order = int(rng.integers(1, 35))
    mk = dict(method=method) if method == "exact" else dict(method=method, order=order)
    S = int(rng.integers(1, 4))
    s = rng.normal(size=(n, S, 1))
    out = f.filter(s, **mk).reshape(n, S, F)
    sc = max(1., np.abs(out).max())
    for i in range(F):
        ctx.close(f[i].filter(s, **mk).reshape(n, S), out[:, :, i], "members", 1e-9, scale=sc, msg=str(mk))
    if method == "chebyshev":
        ctx.close((f @ s).reshape(n, S, F), f.filter(s).reshape(n, S, F), "matmul", 1e-10, scale=sc)
        ctx.close(f.analyze(s, **mk).reshape(n, S, F), out, "analyze", 1e-10, scale=sc)
    if F > 1:
        c = rng.normal(size=(n, S, F))
        want = sum(f[i].filter(c[:, :, [i]], **mk).reshape(n, S) for i in range(F))
        got = f.filter(c, **mk)
        ctx.close(got.reshape(n, S), want, "synthesis-members", 1e-9, scale=np.abs(c).max() * sc * F, msg=str(mk))
        ctx.close(f.synthesize(c, **mk).reshape(n, S), want, "synthesize", 1e-9, scale=np.abs(c).max() * sc * F)
        perm = rng.permutation(F)
        h = f[int(perm[0])]
        for p in perm[1:]:
            h = h + f[int(p)]
        ctx.close(h.filter(s, **mk).reshape(n, S, F), out[:, :, perm], "permuted", 1e-9, scale=sc)
    if rng.uniform() < .5 and method == "exact":
        ctx.close(f.toarray(), f.compute_frame(), "toarray", 1e-12)
        i = int(rng.integers(n))
        ctx.close(f.localize(i, method="exact").reshape(n, F), np.sqrt(n) * f.compute_frame(method="exact").reshape(F, n, n)[:, :, i].T,
                  "localize", 1e-9, scale=sc * np.sqrt(n))
    # Rebinding: same kernels on another graph.
    g2 = graphs.Graph(np.roll(np.roll(W, 1, 0), 1, 1), lap_type=d["lap"])
    g2.compute_fourier_basis()
    r = f(g2)
    ctx.close(r.filter(np.roll(s, 1, 0), method="exact").reshape(n, S, F),
              np.roll(f.filter(s, method="exact").reshape(n, S, F), 1, 0), "rebound", 1e-6 if not name.startswith(("Rect", "poly")) else 1e-6,
              scale=max(sc, 1)) if smooth(name) else None
    ctx.raises(lambda: f + 1, TypeError, "add-non-filter")


def smooth(name):
    return all(p in ("Heat", "HeatBank", "MexicanHat", "poly", "lambda", "lambdas", "Abspline", "Meyer", "Regular") for p in name.split("+"))
