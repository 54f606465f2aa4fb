"""P18: saving and loading with one backend is lossless."""
import os
import shutil
import tempfile

import numpy as np
from core import Registry
import gen
import ref
from props.P17 import build, compare_signals, unchanged

R = Registry()
R.rule = ("random graphs and signals x (format, backend) x naming of the format, written to and read from real files in a "
          "private temporary directory; distinct by content hash")
R.assumptions = ["GML through graph-tool is compared up to its six significant digits",
                 "GML through NetworkX: signal names are GML keys, and integers fit in the 32 bits the format allows"]
TECHNIQUE = "runtime monitoring: save/load round trips through the real file formats and backends"

COMBOS = [("graphml", "networkx"), ("gml", "networkx"), ("gexf", "networkx"), ("graphml", "graph-tool"), ("gml", "graph-tool"),
          ("graphml", None), ("gml", None), ("gexf", None)]


def roundtrip(g, cls, d, rng, fmt, backend):
    how = str(rng.choice(["extension", "argument", "override"]))
    if how == "extension":
        path, kw = os.path.join(d, str(rng.choice(["g.", "a.b.", "gml.", "x y."])) + fmt), {}
    elif how == "argument":
        path, kw = os.path.join(d, "graph"), dict(fmt=fmt)
    else:
        path, kw = os.path.join(d, "g." + str(rng.choice(["gml", "graphml", "gexf", "txt"]))), dict(fmt=fmt)
    kw2 = dict(kw)
    if backend is not None or rng.uniform() < .5:
        kw["backend"] = backend
        kw2["backend"] = backend
    g.save(path, **kw)
    return how, cls.load(path, **kw2)


@R.family(quick=1000, thorough=20000)
def lossless(ctx, rng):
    from pygsp import graphs
    g, W, sig = build(ctx, rng)
    for k in list(sig):
        if k.startswith("_"):  # Not a GML key.
            sig.pop(k)
            g.signals.pop(k)
    fmt, backend = COMBOS[int(rng.integers(len(COMBOS)))]
    if fmt == "gml":
        for k, v in list(sig.items()):
            if v.dtype.kind == "u" and v.max() >= 2**31:
                sig.pop(k)
                g.signals.pop(k)
    d = tempfile.mkdtemp(prefix="verif-p18-")
    try:
        how, h = roundtrip(g, graphs.Graph, d, rng, fmt, backend)
        ctx.describe(fmt=fmt, backend=backend, how=how)
        ctx.note(f"{fmt}/{backend}")
        unchanged(ctx, g, W, sig)
        if rng.uniform() < .2:
            # Second generation: still the same.
            how, h = roundtrip(h, graphs.Graph, d, rng, fmt, backend)
            ctx.note("second-generation")
    finally:
        shutil.rmtree(d)
    rounded = fmt == "gml" and backend == "graph-tool"
    w0, w1 = W.astype(float), h.W.toarray().astype(float)
    if not rounded:
        ctx.same(w1, w0, "adjacency")
        ctx.same(h.is_directed(), ref.directed(W), "directedness")
        compare_signals(ctx, h.signals, sig)
        return
    ctx.same(w1.shape, w0.shape, "adjacency")
    ctx.same(w1 != 0, w0 != 0, "adjacency-pattern")
    ctx.ok((np.abs(w1 - w0) <= 1.1e-5 * np.abs(w0)).all(), "adjacency-rounded")
    if (w0 != 0).T.tolist() != (w0 != 0).tolist():
        ctx.ok(h.is_directed(), "directedness")
    ctx.same(sorted(h.signals), sorted(sig), "signals-names")
    for k, v in sig.items():
        a, b = np.asarray(h.signals[k]).astype(float), v.astype(float)
        ctx.ok(a.shape == b.shape and ((np.abs(a - b) <= 1.1e-5 * np.abs(b)) | (np.isnan(a) & np.isnan(b))).all(), "signals-rounded", k)


@R.family(quick=250, thorough=4000)
def rejected(ctx, rng):
    from pygsp import graphs
    g, W, sig = build(ctx, rng)
    d = tempfile.mkdtemp(prefix="verif-p18-")
    try:
        how = str(rng.choice(["format", "extension", "backend", "none"]))
        ctx.describe(how=how)
        if how == "format":
            bad, path = str(rng.choice(["?", "GML", "txt", "json", ""])), os.path.join(d, "g.gml")
            ctx.raises(lambda: g.save(path, fmt=bad), ValueError, "reject-format")
            ctx.raises(lambda: graphs.Graph.load(path, fmt=bad), ValueError, "reject-format")
        elif how in ("extension", "none"):
            path = os.path.join(d, "g.txt" if how == "extension" else "graph")
            ctx.raises(lambda: g.save(path), ValueError, "reject-extension")
            ctx.raises(lambda: graphs.Graph.load(path), ValueError, "reject-extension")
        else:
            path, bad = os.path.join(d, "g.gml"), str(rng.choice(["?", "igraph", "NetworkX"]))
            ctx.raises(lambda: g.save(path, backend=bad), ValueError, "reject-backend")
            ctx.raises(lambda: graphs.Graph.load(path, backend=bad), ValueError, "reject-backend")
        ctx.ok(os.listdir(d) == [], "nothing-written")
        unchanged(ctx, g, W, sig)
    finally:
        shutil.rmtree(d)


@R.family(quick=20, thorough=100)
def gml_large_integers(ctx, rng):
    """Integers beyond 32 bits through GML with NetworkX."""
    from pygsp import graphs
    v = int(rng.integers(2**31, 2**52))
    W = np.array([[0, v], [v, 0]])
    ctx.describe(v=v)
    g = graphs.Graph(W)
    d = tempfile.mkdtemp(prefix="verif-p18-")
    try:
        g.save(os.path.join(d, "g.gml"), backend="networkx")
        try:
            h = graphs.Graph.load(os.path.join(d, "g.gml"), backend="networkx")
        except ValueError as e:
            ctx.ok(False, "gml-large-integer-weights", f"integer weight {v} written as a string, not loaded: {e}")
        ctx.same(h.W, W, "gml-large-integer-weights")
    finally:
        shutil.rmtree(d)


@R.family(quick=4, thorough=300)
def large(ctx, rng):
    """Files of hundreds of vertices and tens of signals."""
    from pygsp import graphs
    dd, W = gen.large(rng, 100, 400)
    n = W.shape[0]
    sig = {"wide": rng.normal(size=(n, int(rng.integers(2, 15)))), "i": rng.integers(-10**6, 10**6, n)}
    for k in range(int(rng.integers(0, 8))):
        sig[f"s{k}x"] = rng.normal(size=n)
    fmt, backend = [c for c in COMBOS if c != ("gml", "graph-tool")][int(rng.integers(len(COMBOS) - 1))]
    g = graphs.Graph(W)
    for k, v in sig.items():
        g.set_signal(v.copy(), k)
    ctx.describe(fmt=fmt, backend=backend, signals=len(sig), **dd)
    d = tempfile.mkdtemp(prefix="verif-p18-")
    try:
        how, h = roundtrip(g, graphs.Graph, d, rng, fmt, backend)
    finally:
        shutil.rmtree(d)
    ctx.same(h.W, W.toarray(), "adjacency")
    ctx.same(h.is_directed(), ref.directed(W.toarray()), "directedness")
    compare_signals(ctx, h.signals, sig)
    ctx.note(f"{fmt}/{backend}")
