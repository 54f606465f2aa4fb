"""P30: plots show the graph's and filter's actual data and change nothing."""
import numpy as np

import gen
import ref
from core import Registry
from props.P28 import raw

R = Registry()
TECHNIQUE = "runtime monitoring: inspection of the drawn matplotlib and pyqtgraph artists against the plotted data"
R.rule = "seeded graphs, coordinates, signals, colours, sizes, highlights and options; distinct by content hash"
R.assumptions = [
    "what is drawn is read from the artists handed to matplotlib (agg) and pyqtgraph (offscreen), not from pixels",
    "signals on three or four vertices with values in [0, 1] are ambiguous with colours and avoided",
    "highlight=None, one-dimensional coordinates without a signal and indices on one-dimensional plots are not used",
    "the pyqtgraph backend is used with two or three-dimensional coordinates and a single vertex size"]


def mpl():
    import matplotlib
    from matplotlib import pyplot as plt
    return matplotlib, plt


def drawable(rng, dim=None, nmin=1, nmax=14, big=False, **kw):
    """A graph with coordinates and, sometimes, its own plotting parameters."""
    from pygsp import graphs
    dim = dim or int(rng.choice([2, 2, 3]))
    if big:
        W = gen.large(rng, 80, 400, loops=False)[1].toarray()
        if rng.uniform() < .5:  # Thousands of edges.
            W = np.where(rng.uniform(size=W.shape) < float(rng.choice([2500, 4500])) / W.size, 1., W)
            W = np.maximum(W, W.T)
            np.fill_diagonal(W, 0)
    else:
        W = gen.adjacency(rng, nmin=nmin, nmax=nmax, **kw)
    n = len(W)
    coords = rng.normal(size=(n, dim)) * float(rng.choice([1, 1, 100, 1e-2]))
    if rng.uniform() < .2:
        coords = np.round(coords)
    par = {}
    if rng.uniform() < .5:
        pool = dict(vertex_size=int(rng.integers(5, 300)), vertex_color=tuple(rng.uniform(size=4).round(3).tolist()),
                    edge_color=tuple(rng.uniform(size=4).round(3).tolist()), edge_width=float(rng.integers(1, 6)),
                    edge_style=str(rng.choice(["-", "--", ":"])), highlight_color=str(rng.choice(["C2", "red", "#00ff00"])),
                    normalize_intercept=float(rng.choice([0, .1, .25, .5, 1])))
        par = {k: v for k, v in pool.items() if rng.uniform() < .5}
        if dim == 3 and rng.uniform() < .5:
            par.update(elevation=int(rng.integers(-90, 91)), azimuth=int(rng.integers(-180, 181)), distance=float(rng.integers(5, 15)))
    g = graphs.Graph(W, coords=coords, plotting=dict(par))
    return g, W, coords, par


def values(rng, n):
    """A signal, in one of the forms it can be given: (as given, as numbers)."""
    kind = str(rng.choice(["normal", "int", "positive", "small", "bool", "constant", "uint8", "float32", "large", "extreme"]))
    if kind == "normal":
        v = rng.normal(size=n) + 2.5
    elif kind == "int":
        v = rng.integers(-5, 60, n)
    elif kind == "positive":
        v = rng.uniform(5, 9, n)
    elif kind == "small":
        v = 7 + 1e-3 * rng.uniform(size=n)
    elif kind == "bool":
        v = rng.uniform(size=n) < .5
    elif kind == "constant":
        v = np.full(n, float(rng.integers(2, 9)))
    elif kind == "uint8":
        v = rng.integers(0, 256, n).astype(np.uint8)
    elif kind == "float32":
        v = (rng.normal(size=n) * 3 + 4).astype(np.float32)
    elif kind == "large":
        v = rng.normal(size=n) * 1e6
    else:
        v = (rng.normal(size=n) - 3) * 10 ** rng.uniform(-20, 20)
    if n in (3, 4) and (np.asarray(v, float) >= 0).all() and (np.asarray(v, float) <= 1).all():
        v = np.asarray(v, float) + 2
    if n and kind not in ("bool",) and rng.uniform() < .3:
        form = str(rng.choice(["list", "column", "row", "tuple"]))
        out = v.tolist() if form == "list" else tuple(v.tolist()) if form == "tuple" else v.reshape(-1, 1) if form == "column" else v.reshape(1, -1)
        return out, np.asarray(v, float)
    return v, np.asarray(v, float)


def normalized(x, par):
    b = par.get("normalize_intercept", .25)
    p = x.max() - x.min()
    return np.full(len(x), .5) if p == 0 else b + (1 - b) * (x - x.min()) / p


def colours(rng, n):
    """Explicit colours: (as given, expected RGBA rows of which the alpha may be overridden)."""
    M, _ = mpl()
    kind = str(rng.choice(["name", "hex", "tuple", "rgba", "names", "rgb-array", "rgba-array", "gray"]))
    if kind == "name":
        c = str(rng.choice(["red", "C3", "k", "lightblue"]))
    elif kind == "hex":
        c = "#1f7a20"
    elif kind == "tuple":
        c = tuple(rng.uniform(size=3).tolist())
    elif kind == "rgba":
        c = tuple(rng.uniform(size=4).tolist())
    elif kind == "gray":
        c = "0.3"
    elif kind == "names":
        c = [str(x) for x in rng.choice(["red", "green", "C0", "#123456"], n)]
    else:
        c = rng.uniform(size=(n, 3 if kind == "rgb-array" else 4))
    single = kind in ("name", "hex", "tuple", "rgba", "gray")
    want = M.colors.to_rgba_array([c] * n if single else c)
    return c, want


def scatters(ax):
    M, _ = mpl()
    return [c for c in ax.collections if isinstance(c, M.collections.PathCollection)]


def linesets(ax):
    M, _ = mpl()
    return [c for c in ax.collections if isinstance(c, M.collections.LineCollection)]


def positions(sc, dim):
    if dim == 3:
        return np.stack([np.ma.getdata(x) for x in sc._offsets3d], axis=1).astype(float)
    return np.ma.getdata(sc.get_offsets())


def segments(lc, dim):
    s = lc._segments3d if dim == 3 else lc.get_segments()
    return np.array([np.asarray(x) for x in s], float).reshape(-1, 2, dim)


def face(sc):
    return np.asarray(sc._facecolors)  # those of 3-D scatters are otherwise sorted and shaded


def ends(W, coords):
    """The segments to be drawn, from the weights."""
    d = (W != W.T).any()
    return np.array([[coords[i], coords[j]] for i, j in zip(*np.nonzero(W)) if d or i <= j]).reshape(-1, 2, coords.shape[1])


def lexsorted(a):
    return a[np.lexsort(a.T[::-1])] if len(a) else a


def undirected(segs):
    """Each segment from its smallest to its largest end."""
    out = [np.concatenate(sorted(map(tuple, s))) for s in segs]
    return np.array(out, float).reshape(len(segs), segs.shape[1] * segs.shape[2])


def kw_axes(rng, dim, kw):
    """Sometimes plot in the user's axes."""
    _, plt = mpl()
    if rng.uniform() < .3:
        fig = plt.figure()
        kw["ax"] = fig.add_subplot(111, projection="3d") if dim == 3 else fig.add_subplot(111)
    return kw.get("ax")


@R.family(quick=350, thorough=9000)
def vertices(ctx, rng):
    """Positions, colours, sizes, limits and colour bars of the vertices."""
    check_vertices(ctx, rng, drawable(rng))


def check_vertices(ctx, rng, drawn):
    M, plt = mpl()
    g, W, coords, par = drawn
    n, dim = coords.shape
    kw, mode = {}, str(rng.choice(["default", "signal", "signal", "signal", "colour"]))
    colour = None
    if mode == "signal":
        kw["vertex_color"], sig = values(rng, n)
        if rng.uniform() < .4:
            lim = np.sort(rng.uniform(-10, 50, 2))
            kw["limits"] = lim.tolist() if rng.uniform() < .5 else tuple(lim.tolist())
        if rng.uniform() < .4:
            kw["colorbar"] = bool(rng.uniform() < .5)
    elif mode == "colour":
        kw["vertex_color"], colour = colours(rng, n)
    sizing = str(rng.choice(["default", "scalar", "signal"]))
    if sizing == "scalar":
        size = kw["vertex_size"] = rng.choice([1, 30, 500]) if rng.uniform() < .3 else int(rng.integers(1, 400))
    elif sizing == "signal":
        kw["vertex_size"], sz = values(rng, n)
    if rng.uniform() < .3:
        kw["title"] = str(rng.choice(["a title", "", "x\ny"]))
    if rng.uniform() < .3:
        kw["backend"] = "matplotlib"
    if rng.uniform() < .3:
        kw["edges"] = False
    ctx.describe(n > 1, W=W, coords=coords, par=par, kw={k: v for k, v in kw.items() if k != "ax"})
    own = kw_axes(rng, dim, kw)
    args = {k: v for k, v in kw.items() if k != "ax"}
    before = raw(g), raw(args)
    nfig = len(plt.get_fignums())
    how = str(rng.choice(["plot", "plot_signal", "positional"]))
    if how == "positional" and mode == "signal":
        rest = dict(kw)
        res = g.plot(rest.pop("vertex_color"), **rest)
    else:
        res = (g.plot_signal if how == "plot_signal" else g.plot)(**kw)
    ctx.ok((raw(g), raw(args)) == before, "nothing-changed")
    fig, ax = res
    ctx.ok(ax.figure is fig, "figure-returned")
    if own is not None:
        ctx.ok(ax is own and len(plt.get_fignums()) == nfig, "given-axes-used")
    else:
        ctx.ok(len(plt.get_fignums()) == nfig + 1, "one-figure-created")
    ctx.ok(ax.get_title() == kw.get("title", g.__repr__(limit=4)), "title", lambda: ax.get_title())
    sc = scatters(ax)
    ctx.ok(len(sc) in (1, 2), "vertices-drawn")
    ctx.close(positions(sc[0], dim), coords, "vertices-at-coordinates", 1e-12)
    for extra in sc[1:]:
        ctx.ok(positions(extra, dim).size == 0, "nothing-highlighted")
    # Every vertex is visible.
    if own is None:
        lims = [ax.get_xlim(), ax.get_ylim()] + ([ax.get_zlim()] if dim == 3 else [])
        for c, (lo, hi) in zip(coords.T, lims):
            ctx.ok(lo <= c.min() and c.max() <= hi, "vertices-in-view")
    # Sizes.
    base = par.get("vertex_size", 100)
    got = np.broadcast_to(sc[0].get_sizes(), n)
    if sizing == "signal":
        ctx.close(got, base * 4 * normalized(sz, par) ** 2, "sizes-follow-signal", 1e-6)
    else:
        ctx.close(got, np.full(n, size if sizing == "scalar" else base), "size", 1e-12)
    # Colours.
    bars = [a for a in fig.axes if a is not ax]
    if mode == "signal":
        a = sc[0].get_array()
        ctx.ok(a is not None, "signal-mapped")
        ctx.close(np.ma.getdata(a), sig, "signal-mapped", 1e-6)
        lo, hi = kw.get("limits", (sig.min(), sig.max()))
        if lo < hi:
            ctx.close(np.array(sc[0].get_clim()), np.array([lo, hi], float), "colour-limits", 1e-6)
            fig.canvas.draw()
            want = sc[0].get_cmap()(np.clip((sig - lo) / (hi - lo), 0, 1))
            if dim == 2:
                got = sc[0].get_facecolors()
                ctx.close(got[:, :3], want[:, :3], "colours-follow-signal", .02, 1)
        ctx.ok(len(bars) == kw.get("colorbar", True), "colorbar", lambda: f"{len(bars)} bars")
        if bars and lo < hi:
            ctx.close(np.array(bars[0].get_ylim()), np.array([lo, hi], float), "colorbar-limits", 1e-6)
    else:
        ctx.ok(not bars, "colorbar", "without a signal")
        want = colour if mode == "colour" else M.colors.to_rgba_array([par.get("vertex_color", (.12, .47, .71, .5))] * n)
        got = face(sc[0])
        got = np.broadcast_to(got, (n, 4)) if len(got) == 1 else got
        ctx.close(got[:, :3], want[:, :3], "explicit-colours", 1e-9, 1)


@R.family(quick=300, thorough=8000)
def edges(ctx, rng):
    """Each edge is drawn between its vertices, with the asked colours and widths."""
    check_edges(ctx, rng, drawable(rng))


def check_edges(ctx, rng, drawn):
    M, _ = mpl()
    g, W, coords, par = drawn
    n, dim = coords.shape
    s, t, w = g.get_edge_list()
    m = len(s)
    kw = {}
    colouring = str(rng.choice(["default", "signal", "signal", "colour"])) if m else "default"
    widening = str(rng.choice(["default", "signal", "scalar"])) if m else "default"
    if m in (3, 4) and colouring == "signal":
        kw["edge_color"] = rng.uniform(2, 9, m)
        ec = kw["edge_color"]
    elif colouring == "signal":
        kw["edge_color"], ec = values(rng, m) if rng.uniform() < .6 else (w + 2, w + 2)
    elif colouring == "colour":
        kw["edge_color"], ec = colours(rng, m)
    if widening == "signal":
        kw["edge_width"], ew = values(rng, m)
    elif widening == "scalar":
        ew = kw["edge_width"] = float(rng.choice([.5, 1, 3, 7])) if rng.uniform() < .5 else int(rng.integers(1, 6))
    show = str(rng.choice(["default", "true", "false"]))
    if show != "default":
        kw["edges"] = show == "true"
    ctx.describe(m > 0, W=W, coords=coords, par=par, kw=kw)
    kw_axes(rng, dim, kw)
    args = {k: v for k, v in kw.items() if k != "ax"}
    before = raw(g), raw(args)
    _, ax = g.plot(**kw)
    ctx.ok((raw(g), raw(args)) == before, "nothing-changed")
    lc = linesets(ax)
    drawn = np.concatenate([segments(c, dim) for c in lc]) if lc else np.empty((0, 2, dim))
    if show == "false" or show == "default" and m >= 10000:
        ctx.ok(len(drawn) == 0, "edges-hidden")
        return
    want = ends(W, coords)
    ctx.ok(len(drawn) == len(want), "all-edges-drawn", lambda: f"{len(drawn)} for {len(want)}")
    # In any direction.
    ctx.close(lexsorted(undirected(drawn)), lexsorted(undirected(want)),
              "edges-between-endpoints", 1e-9)
    ctx.close(drawn, np.stack([coords[s], coords[t]], axis=1).reshape(-1, 2, dim), "edges-between-endpoints", 1e-9)
    if not m:
        return
    ctx.ok(len(lc) == 1, "all-edges-drawn")
    lc = lc[0]
    rgba = lc._edgecolors3d if dim == 3 and hasattr(lc, "_edgecolors3d") else lc.get_colors()
    rgba = np.asarray(rgba)
    rgba = np.broadcast_to(rgba, (m, 4)) if len(rgba) == 1 else rgba
    base = M.colors.to_rgba(par.get("edge_color", (.5, .5, .5, .5)))
    if colouring == "signal":
        ctx.close(rgba[:, :3], np.tile(base[:3], (m, 1)), "edge-colours", 1e-9, 1)
        ctx.close(rgba[:, 3], .9 * normalized(ec, par), "edge-transparency-follows-signal", 1e-6, 1)
    else:
        ctx.close(rgba, ec if colouring == "colour" else np.tile(base, (m, 1)), "edge-colours", 1e-9, 1)
    lw = np.asarray(lc.get_linewidths(), float)
    lw = np.broadcast_to(lw, m) if len(lw) == 1 else lw
    bw = par.get("edge_width", 2 if n <= 1e9 else 0)
    if "edge_width" not in par:
        bw = g.plotting["edge_width"]
    solid = par.get("edge_style", "-") == "-"
    ctx.ok(all((dash[1] is None) == solid for dash in lc.get_linestyle()), "edge-style", lambda: f"{lc.get_linestyle()}")
    above = [c.get_zorder() for c in ax.collections if c is not lc and len(c.get_offsets())]
    if dim == 2:  # The depth decides in 3-D.
        ctx.ok(min(above) >= lc.get_zorder(), "vertices-over-edges", lambda: f"{above} over {lc.get_zorder()}")
    elif "elevation" in par and "ax" not in kw:
        ctx.ok(ax.elev == par["elevation"] and ax.azim == par["azimuth"], "point-of-view", lambda: f"{ax.elev} {ax.azim}")
    if widening == "signal":
        ctx.close(lw, bw * 2 * normalized(ew, par), "edge-widths-follow-signal", 1e-6)
    else:
        ctx.close(lw, np.full(m, ew if widening == "scalar" else bw, float), "edge-width", 1e-12)


@R.family(quick=200, thorough=5000)
def highlights(ctx, rng):
    check_highlights(ctx, rng, drawable(rng, nmin=2))


def check_highlights(ctx, rng, drawn):
    M, _ = mpl()
    g, W, coords, par = drawn
    n, dim = coords.shape
    k = int(rng.integers(0, n + 1))
    idx = rng.choice(n, k, replace=False)
    form = str(rng.choice(["list", "array", "tuple", "set", "int", "range", "npint", "negative", "repeated"]))
    if form == "int":
        hl, idx = int(idx[0]) if k else 0, idx[:1] if k else np.array([0])
    elif form == "npint":
        hl, idx = (idx[0] if k else np.int64(0)), idx[:1] if k else np.array([0])
    elif form == "range":
        hl = range(0, n, 2)
        idx = np.arange(0, n, 2)
    elif form == "negative":
        hl, idx = [-1], np.array([n - 1])
    elif form == "repeated":
        hl, idx = [n - 1, 0, n - 1], np.array([n - 1, 0, n - 1])
    else:
        hl = {"list": list, "tuple": tuple, "set": set, "array": np.array}[form](idx.tolist())
        if form == "array":
            hl = np.array(idx, dtype=int)
        elif form == "set":
            idx = np.array(list(hl), dtype=int)
    kw = dict(highlight=hl)
    sizing = str(rng.choice(["default", "scalar", "signal"]))
    base = par.get("vertex_size", 100)
    size = np.full(n, base, float)
    if sizing == "scalar":
        kw["vertex_size"] = int(rng.integers(1, 300))
        size[:] = kw["vertex_size"]
    elif sizing == "signal":
        kw["vertex_size"], z = values(rng, n)
        size = base * 4 * normalized(z, par) ** 2
    if rng.uniform() < .5:
        kw["indices"] = bool(rng.uniform() < .7)
    if rng.uniform() < .4:
        kw["vertex_color"] = rng.normal(size=n) + 3
    ctx.describe(len(idx) > 0, W=W, coords=coords, par=par, form=form, idx=idx, kw={a: b for a, b in kw.items() if a != "highlight"})
    before = raw(g), raw(kw)
    _, ax = g.plot(**kw)
    ctx.ok((raw(g), raw(kw)) == before, "nothing-changed")
    sc = scatters(ax)
    ctx.close(positions(sc[0], dim), coords, "vertices-at-coordinates", 1e-12)
    if len(idx):
        ctx.ok(len(sc) == 2, "highlighted")
        ctx.close(positions(sc[1], dim), coords[idx], "highlighted-vertices", 1e-12)
        got = np.asarray(sc[1].get_sizes(), float)
        ctx.close(np.broadcast_to(got, len(idx)) if len(got) == 1 else got, 2 * size[idx], "highlights-around-vertices", 1e-6)
        want = M.colors.to_rgba(par.get("highlight_color", "C1"))
        rgba = np.asarray(sc[1]._edgecolors)
        ctx.close(rgba[:, :3], np.tile(want[:3], (len(rgba), 1)), "highlight-colour", 1e-9, 1)
    else:
        ctx.ok(sum(len(positions(s, dim)) for s in sc[1:]) == 0, "nothing-highlighted")
    texts = [t for t in ax.texts if t.get_text() != ""]
    if kw.get("indices"):
        at = {}
        for t in texts:
            p = t.get_position()
            if dim == 3:
                p = tuple(t.get_position_3d()) if hasattr(t, "get_position_3d") else (*p, t._z)
            at[t.get_text()] = p
        ctx.ok(sorted(at) == sorted(str(i) for i in range(n)), "indices")
        ctx.close(np.array([at[str(i)] for i in range(n)], float), coords, "indices-at-vertices", 1e-9)
    else:
        ctx.ok(not texts, "no-indices")


@R.family(quick=120, thorough=3000)
def curves(ctx, rng):
    """Signals over one-dimensional coordinates."""
    from pygsp import graphs
    W = gen.adjacency(rng, nmin=1, nmax=20)
    n = len(W)
    coords = np.sort(rng.normal(size=n)) if rng.uniform() < .5 else np.arange(n) * 1.
    if rng.uniform() < .3:
        coords = rng.permutation(coords)
    g = graphs.Graph(W, coords=coords)
    many = rng.uniform() < .4 and n > 1
    k = int(rng.integers(2, 5)) if many else 1
    sig = rng.normal(size=(n, k)) + 2.5 if many else rng.normal(size=n) + 2.5
    if n in (3, 4):
        sig = sig + 10
    kw = {}
    lo, hi = sig.min(), sig.max()
    if rng.uniform() < .4:
        lo, hi = np.sort(rng.uniform(-5, 5, 2))
        kw["limits"] = [float(lo), float(hi)]
    hl = rng.choice(n, int(rng.integers(0, min(n, 3) + 1)), replace=False)
    if len(hl):
        kw["highlight"] = hl.tolist()
    ctx.describe(n > 1, W=W, coords=coords, sig=sig, kw=kw)
    kw_axes(rng, 2, kw)
    before = raw(g), raw(sig)
    fig, ax = g.plot(sig, **kw)
    ctx.ok((raw(g), raw(sig)) == before, "nothing-changed")
    ctx.ok(not linesets(ax), "no-edges-on-curves")
    ctx.ok(len(fig.axes) == 1, "no-colorbar-on-curves")
    lines = [l for l in ax.lines if len(np.atleast_1d(l.get_xdata())) == n and np.array_equal(l.get_xdata(), coords)]
    cols = sig.reshape(n, -1)
    ctx.ok(len(lines) >= k, "curves-drawn")
    for line, c in zip(lines, cols.T):
        ctx.close(line.get_ydata(), c, "curve-is-signal", 1e-12)
    if lo < hi:
        ctx.close(np.array(ax.get_ylim()), np.array([lo, hi]), "limits", 1e-9)
    marks = [l.get_xdata()[0] for l in ax.lines if l not in lines[:k]]
    ctx.close(np.array(marks, float), coords[hl], "highlighted-vertices", 1e-12)


@R.family(quick=150, thorough=2500)
def rejected(ctx, rng):
    from pygsp import graphs
    _, plt = mpl()
    g, W, coords, par = drawable(rng, nmin=5)
    n, dim = coords.shape
    m = g.n_edges
    ctx.describe(True, W=W, coords=coords)
    bad = n + int(rng.choice([-1, 1, 2]))
    backends = ["matplotlib"] + (["pyqtgraph"] if rng.uniform() < .2 else [])
    before = raw(g)
    for b in backends:
        ctx.raises(lambda: g.plot(rng.normal(size=bad) + 5, backend=b), ValueError, "wrong-length-colour")
        if b == "matplotlib":
            ctx.raises(lambda: g.plot(np.zeros(0), backend=b), ValueError, "wrong-length-colour")
            if m:
                ctx.raises(lambda: g.plot(edge_color=[], backend=b), ValueError, "wrong-length-edge-colour")
        ctx.raises(lambda: g.plot(rng.normal(size=(n, 2)) + 5, backend=b), ValueError, "many-signals")
        ctx.raises(lambda: g.plot(float(rng.normal()) + 5, backend=b), ValueError, "scalar-signal")
        ctx.raises(lambda: g.plot(vertex_size=rng.normal(size=bad), backend=b), ValueError, "wrong-length-size")
        ctx.raises(lambda: g.plot(vertex_size=rng.normal(size=(n, 2)), backend=b), ValueError, "many-sizes")
        ctx.raises(lambda: g.plot(edge_color=rng.normal(size=m + 5) + 5, backend=b), ValueError, "wrong-length-edge-colour")
        ctx.raises(lambda: g.plot(edge_width=rng.normal(size=m + 5), backend=b), ValueError, "wrong-length-edge-width")
        ctx.raises(lambda: g.plot(edge_width=rng.normal(size=(max(m, 2), 2)), backend=b), ValueError, "many-edge-widths")
    ctx.raises(lambda: g.plot(backend=str(rng.choice(["abc", "", "Matplotlib", "plotly"]))), ValueError, "unknown-backend")
    h = graphs.Graph(W)
    if rng.uniform() < .5:
        h.coords = None
    ctx.raises(lambda: h.plot(), AttributeError, "no-coordinates")
    h = graphs.Graph(W)
    h.coords = rng.normal(size=(n, int(rng.choice([1, 4, 5]))))
    ctx.raises(lambda: h.plot(), AttributeError, "coordinates-dimension")
    h.coords = rng.normal(size=(n, 2, 2))
    ctx.raises(lambda: h.plot(), AttributeError, "coordinates-dimension")
    h.coords = rng.normal(size=(bad, dim))
    ctx.raises(lambda: h.plot(), AttributeError, "coordinates-number")
    if not g.has_loops() and not g.is_directed():
        ctx.raises(lambda: g.plot(highlight=[n]), IndexError, "highlight-out-of-range")
    ctx.ok(raw(g) == before, "nothing-changed")


@R.family(quick=250, thorough=6000)
def filter_responses(ctx, rng):
    from pygsp import graphs
    M, plt = mpl()
    g, W, desc = gen.spectral_graph(rng, nmin=2, nmax=12, scaled=bool(rng.uniform() < .3))
    if not (W - np.diag(np.diag(W))).any():
        ctx.skip("no frequencies")
    how = str(rng.choice(["basis", "estimate", "bounds", "lazy"]))
    if how == "basis":
        g.compute_fourier_basis()
    elif how == "bounds":
        g.estimate_lmax("bounds")
    elif how == "estimate":
        g.estimate_lmax()
    name, fkw, bank = gen.filterbank(rng, g)
    if rng.uniform() < .05:
        from pygsp import filters
        name, fkw = "Itersine", dict(Nf=int(rng.integers(10, 40)))
        bank = filters.Itersine(g, **fkw)
    kw = {}
    if rng.uniform() < .6:
        kw["n"] = int(rng.choice([2, 10, 101, 500]))
    n = kw.get("n", 500)
    for key, p in (("sum", .5), ("labels", .4)):
        if rng.uniform() < p:
            kw[key] = bool(rng.uniform() < .5)
    if rng.uniform() < .4:
        kw["eigenvalues"] = bool(rng.uniform() < .6)
        if kw["eigenvalues"]:
            g.compute_fourier_basis()
    if rng.uniform() < .3:
        kw["title"] = "some title"
    style = {}
    if rng.uniform() < .3:
        style = dict(linewidth=float(rng.integers(1, 5)))
        if rng.uniform() < .5:
            style["linestyle"] = "--"
    ctx.describe(True, graph=desc, how=how, filter=name, fkw=fkw, kw=kw, style=style)
    shown = kw.get("eigenvalues", g._e is not None)
    total = kw.get("sum", bank.n_filters > 1)
    labels = kw.get("labels", bank.n_filters > 1)
    kw_axes(rng, 2, kw)
    own = kw.get("ax")
    before = raw(bank), raw({k: v for k, v in kw.items() if k != "ax"})
    e0 = None if g._e is None else g._e.copy()
    fig, ax = bank.plot(**kw, **style)
    ctx.ok((raw(bank), raw({k: v for k, v in kw.items() if k != "ax"})) == before, "nothing-changed")
    ctx.ok((g._e is None) == (e0 is None) and (e0 is None or np.array_equal(e0, g._e)), "nothing-changed")
    ctx.ok(ax.figure is fig and (own is None or ax is own), "given-axes-used")
    ctx.ok(ax.get_title() == kw.get("title", repr(bank)), "title")
    lm = g.lmax
    x = np.linspace(0, lm, n)
    if shown:
        e = np.asarray(g.e)
        x = np.sort(np.r_[x, e])
    full = [l for l in ax.lines if len(l.get_xdata()) == len(x) and l.get_linestyle() not in ("None", "", " ")]
    Nf = bank.n_filters
    ctx.ok(len(full) == Nf + bool(total), "one-line-per-filter", lambda: f"{len(full)} lines, {Nf} filters, sum={total}")
    y = np.atleast_2d(bank.evaluate(x))
    for line, want in zip(full, y):
        ctx.close(line.get_xdata(), x, "over-the-spectrum", 1e-9, lm)
        ctx.close(line.get_ydata(), want, "true-response", 1e-9, max(np.abs(y).max(), 1e-300))
    if total:
        ctx.close(full[-1].get_xdata(), x, "over-the-spectrum", 1e-9, lm)
        ctx.close(full[-1].get_ydata(), (y ** 2).sum(0), "sum-of-squares", 1e-9)
    for line in full:
        if "linewidth" in style:
            ctx.ok(line.get_linewidth() == style["linewidth"], "style-passed")
        if "linestyle" in style:
            ctx.ok(line.get_linestyle() == "--", "style-passed")
    dots = [l for l in ax.lines if l not in full]
    lc = linesets(ax)
    if shown:
        ctx.ok(len(lc) == 1, "eigenvalues-shown")
        ctx.close(segments(lc[0], 2)[:, :, 0], np.stack([e, e], axis=1), "eigenvalues-shown", 1e-9, lm)
        ctx.ok(len(dots) == Nf + bool(total), "response-at-eigenvalues")
        ye = np.atleast_2d(bank.evaluate(e))
        ye = np.concatenate([ye, (ye ** 2).sum(0)[None]]) if total else ye
        for line, want in zip(dots, ye):
            ctx.close(line.get_xdata(), e, "response-at-eigenvalues", 1e-9, lm)
            ctx.close(line.get_ydata(), want, "response-at-eigenvalues", 1e-9, max(np.abs(ye).max(), 1e-300))
        for line, d in zip(full, dots):
            ctx.ok(M.colors.to_rgb(line.get_color()) == M.colors.to_rgb(d.get_color()), "dots-of-their-filter")
    else:
        ctx.ok(not lc and not dots, "eigenvalues-hidden")
    leg = ax.get_legend()
    ctx.ok((leg is not None) == bool(labels), "labelled")
    if labels:
        names = [t.get_text() for t in leg.get_texts()]
        for i in range(Nf):
            ctx.ok(any(f"g_{{{i}}}" in t for t in names), "labelled")
            ctx.ok(full[i].get_label() in names and f"_{{{i}}}" in full[i].get_label(), "labels-of-their-filter")
        if total:
            ctx.ok(full[Nf].get_label() in names, "label-of-the-sum")


# ---------------------------------------------------------------- pyqtgraph
STOPS = np.array([1, 8, 24, 40, 56, 64], float)
JET = np.array([[0, 0, 143], [0, 0, 255], [0, 255, 255], [255, 255, 0], [255, 0, 0], [128, 0, 0]], float) / 255


def jet(s, lo, hi):
    v = 1 + 63 * (s - lo) / (hi - lo)
    return np.stack([np.interp(v, STOPS, c) for c in JET.T], axis=1)


def brush(b):
    c = b.color()
    return [c.redF(), c.greenF(), c.blueF()]


@R.family(quick=120, thorough=1600)
def interactive(ctx, rng):
    """The pyqtgraph backend."""
    check_interactive(ctx, rng, drawable(rng, nmin=2, nmax=10))


def check_interactive(ctx, rng, drawn):
    from pygsp import plotting
    import pyqtgraph as qtg
    # Scatter plots need vertices (and 3-D lines, edges).
    g, W, coords, par = drawn
    n, dim = coords.shape
    kw = {}
    if rng.uniform() < .7:
        kw["vertex_color"], sig = values(rng, n)
        if rng.uniform() < .4:
            kw["limits"] = [float(x) for x in np.sort(rng.uniform(-10, 20, 2))]
    if rng.uniform() < .4:
        kw["vertex_size"] = int(rng.integers(20, 300))
    if rng.uniform() < .5:
        kw["edges"] = bool(rng.uniform() < .6)
    if rng.uniform() < .3:
        kw["title"] = "hello"
    shown = kw.get("edges", True)
    if shown and not g.n_edges:
        ctx.skip("no edges to draw")
    ctx.describe(True, W=W, coords=coords, par=par, kw=kw)
    before = raw(g), raw(kw)
    n0 = len(plotting._qtg_widgets)
    if rng.uniform() < .5:
        plotting.BACKEND = "pyqtgraph"
        try:
            g.plot(**kw)
        finally:
            plotting.BACKEND = "matplotlib"
    else:
        g.plot(backend="pyqtgraph", **kw)
    ctx.ok((raw(g), raw(kw)) == before, "nothing-changed")
    ctx.ok(len(plotting._qtg_widgets) == n0 + 1, "one-window")
    w = plotting._qtg_widgets[-1]
    try:
        ctx.ok(w.windowTitle() == kw.get("title", g.__repr__(limit=4)), "title")
        s, t, _ = g.get_edge_list()
        size = kw.get("vertex_size", par.get("vertex_size", 100))
        if "vertex_color" in kw:
            lo, hi = kw.get("limits", (sig.min(), sig.max()))
            want = jet(sig, lo, hi) if lo < hi else None
        if dim == 2:
            items = w.scene().items()
            graphitems = [i for i in items if isinstance(i, qtg.GraphItem)]
            points = [i for i in items if isinstance(i, qtg.ScatterPlotItem) and not isinstance(i.parentItem(), qtg.GraphItem)]
            drawn = [i for i in graphitems if i.adjacency is not None and len(i.adjacency) and i.pen is not None]
            if shown:
                ctx.ok(len(drawn) == 1, "edges-drawn")
                pen = qtg.mkPen(drawn[0].pen).color().getRgb()
                ctx.close(pen, np.array(par.get("edge_color", (.5,) * 4)) * 255, "edge-colours", 1.01, 1)
                ctx.close(drawn[0].pos, coords, "edges-between-endpoints", 1e-12)
                ctx.same(np.sort(np.asarray(drawn[0].adjacency), axis=1), np.sort(np.stack([s, t], axis=1), axis=1), "edges-between-endpoints")
            else:
                ctx.ok(not drawn, "edges-hidden")
            if "vertex_color" in kw:
                ctx.ok(len(points) == 1, "vertices-drawn")
                d = points[0].data
            else:
                ctx.ok(len(graphitems) == 1, "vertices-drawn")
                d = graphitems[0].scatter.data
            ctx.close(np.stack([d["x"], d["y"]], axis=1), coords, "vertices-at-coordinates", 1e-12)
            eff = points[0].opts["size"] if "vertex_color" in kw else graphitems[0].scatter.opts["size"]
            ds = np.where(d["size"] < 0, eff, d["size"])
            ctx.close(ds, np.full(n, size / 10), "size", 1e-9)
            if "vertex_color" in kw and want is not None:
                ctx.close(np.array([brush(b) for b in d["brush"]]), want, "colours-follow-signal", .012, 1)
        else:
            names = {type(i).__name__: i for i in w.items}
            if shown:
                want_pos = np.stack([coords[s], coords[t]], axis=1).reshape(-1, 3)
                ctx.close(names["GLLinePlotItem"].pos, want_pos, "edges-between-endpoints", 1e-5)
                ctx.close(np.asarray(names["GLLinePlotItem"].color, float).ravel()[:4], np.array(par.get("edge_color", (.5,) * 4)), "edge-colours", 1e-6, 1)
            else:
                ctx.ok("GLLinePlotItem" not in names, "edges-hidden")
            p = names["GLScatterPlotItem"]
            ctx.close(p.pos, coords, "vertices-at-coordinates", 1e-5)
            ctx.close(p.size, size / 3, "size", 1e-6)
            if "vertex_color" in kw:
                if want is not None:
                    ctx.close(np.asarray(p.color)[:, :3], want, "colours-follow-signal", .012, 1)
            else:
                ctx.close(np.asarray(p.color, float).ravel()[:3], np.array(par.get("vertex_color", (.12, .47, .71, .5))[:3]),
                          "vertex-colour", 1e-6, 1)
    finally:
        plotting.close_all()
    ctx.ok(plotting._qtg_widgets == [] and not w.isVisible(), "closed")


@R.family(quick=40, thorough=600)
def spectrograms(ctx, rng):
    check_spectrograms(ctx, rng, gen.adjacency(rng, nmin=3, nmax=10, connected=True, directed=False, loops=False))


def check_spectrograms(ctx, rng, W):
    from pygsp import features, graphs, plotting
    import pyqtgraph as qtg
    n = len(W)
    g = graphs.Graph(W)
    g.compute_fourier_basis()
    M = int(rng.choice([3, 5, 10]))
    lazy = rng.uniform() < .3
    if lazy:
        M = 100
    else:
        features.compute_spectrogram(g, M=M)
    order = None
    if rng.uniform() < .6:
        order = rng.permutation(n)
        order = order if rng.uniform() < .5 else order.tolist()
    ctx.describe(True, W=W, M=M, order=order, lazy=lazy)
    before = raw(g), raw(order)
    values_before = None if lazy else g.spectr.copy()
    g.plot_spectrogram(order)
    ctx.ok((raw(g), raw(order)) == before, "nothing-changed")
    if not lazy:
        ctx.same(g.spectr, values_before, "nothing-changed")
    S = g.spectr if order is None else g.spectr[np.asarray(order)]
    ctx.same(S.shape, (n, M), "spectrogram-shape")
    w = plotting._qtg_widgets[-1]
    try:
        points = [i for i in w.scene().items() if isinstance(i, qtg.ScatterPlotItem) and len(i.data)]
        ctx.ok(len(points) == 1, "spectrogram-drawn")
        d = points[0].data
        x, y = d["x"].astype(int), d["y"].astype(int)
        ctx.ok(sorted(zip(x.tolist(), y.tolist())) == [(i, j) for i in range(n) for j in range(M)], "vertices-by-frequencies")
        if np.ptp(S) > 1e-9 * np.abs(S).max():
            v = (S - S.min()) / np.ptp(S)
            pos = np.array([0, .25, .5, .75, 1])
            col = np.array([[20, 133, 212], [53, 42, 135], [48, 174, 170], [210, 184, 87], [249, 251, 14]]) / 255
            want = np.stack([np.interp(v[x, y], pos, c) for c in col.T], axis=1)
            ctx.close(np.array([brush(b) for b in d["brush"]]), want, "colours-follow-spectrogram", .012, 1)
    finally:
        plotting.close_all()


@R.family(quick=80, thorough=1500)
def sessions(ctx, rng):
    """Sequences of plots: figures are independent, and close_all closes those of the library only."""
    from pygsp import filters, graphs, plotting
    M, plt = mpl()
    plt.close("all")
    plotting.close_all()
    mine = plt.figure()
    drawn, steps = [], int(rng.integers(2, 6))
    log = []
    for _ in range(steps):
        g, W, coords, par = drawable(rng, dim=2, nmin=3, nmax=8)
        if rng.uniform() < .3 and g.W.nnz:
            bank = filters.Heat(g)
            fig, ax = bank.plot(n=10)
            log.append(("filter", W))
            drawn.append((fig, ax, None))
        else:
            sig = rng.normal(size=len(W)) + 3
            fig, ax = g.plot(sig)
            log.append(("graph", W, coords, sig))
            drawn.append((fig, ax, coords))
    ctx.describe(True, log=log)
    ctx.ok(len({id(f) for f, _, _ in drawn}) == steps, "a-figure-each")
    for fig, ax, coords in drawn:
        if coords is not None:
            sc = scatters(ax)
            ctx.ok(len(linesets(ax)) <= 1, "figures-independent")
            ctx.close(positions(sc[0], 2), coords, "figures-independent", 1e-12)
    nums = [f.number for f, _, _ in drawn]
    ctx.ok(all(plt.fignum_exists(k) for k in nums), "figures-open")
    if rng.uniform() < .5:
        plotting.close(drawn[-1][0])
        ctx.ok(not plt.fignum_exists(nums[-1]) and all(plt.fignum_exists(k) for k in nums[:-1]), "close-one")
    plotting.close_all()
    ctx.ok(not any(plt.fignum_exists(k) for k in nums), "close-all")
    ctx.ok(plt.fignum_exists(mine.number), "user-figures-kept")
    plt.close("all")


@R.family(quick=8, thorough=24)
def many_edges(ctx, rng):
    """By default edges are drawn when there are fewer than ten thousand."""
    from pygsp import graphs
    few = bool(rng.uniform() < .5)
    n = 141 if few else 143  # 9870 and 10153 edges
    if rng.uniform() < .4:
        few, n = False, 20001
        W = gen.sparse.diags([np.ones(n - 1)] * 2, [1, -1]).tocsr()
    else:
        W = np.ones((n, n)) - np.eye(n)
    g = graphs.Graph(W, coords=rng.normal(size=(n, 2)))
    ctx.describe(True, n=n, few=few)
    _, ax = g.plot()
    ctx.ok(sum(len(segments(c, 2)) for c in linesets(ax)) == (g.n_edges if few else 0), "edges-drawn-by-default")
    if not few and n < 200:
        _, ax = g.plot(edges=True)
        ctx.ok(sum(len(segments(c, 2)) for c in linesets(ax)) == g.n_edges, "edges-drawn-when-asked")


@R.family(quick=16, thorough=600, timeout=120)
def large(ctx, rng):
    """Hundreds of vertices and thousands of edges, in every kind of plot."""
    kind = ["vertices", "edges", "highlights", "interactive", "spectrograms"][ctx.rng_index % 5]
    ctx.note(kind)
    if kind == "spectrograms":
        W = gen.large(rng, 80, 500, directed=False, loops=False, connected=True)[1].toarray()
        return check_spectrograms(ctx, rng, W)
    check = dict(vertices=check_vertices, edges=check_edges, highlights=check_highlights, interactive=check_interactive)[kind]
    check(ctx, rng, drawable(rng, big=True, dim=3 if kind == "interactive" and rng.uniform() < .5 else None))
