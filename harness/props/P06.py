"""P06: graph Fourier transform."""
import numpy as np
from core import Registry
import gen
import ref

R = Registry()
R.rule = ("random graphs x Laplacian types x signals of trailing shape (), (k,), (k,l), (k,l,m), real, integer and "
          "complex, lists and views; non-trivial if at least one edge; distinct by content hash")
R.assumptions = ["tolerance 1e-9 relative to the signal norm"]


@R.family(quick=600, thorough=15000)
def transform(ctx, rng):
    g, W, d = gen.spectral_graph(rng, nmin=1, nmax=20)
    n = len(W)
    sh = tuple(int(k) for k in rng.integers(1, 4, int(rng.integers(0, 4))))
    s = gen.signal(rng, n, sh)
    dt = str(rng.choice(["real", "real", "complex", "int32", "float32", "bool"]))
    if dt == "complex":
        s = (s + 1j * gen.signal(rng, n, sh)) * 10. ** (rng.uniform(-30, 30) if rng.uniform() < .3 else 0)
    elif dt != "real":
        s = s.astype(dt)
    elif rng.uniform() < .2:
        s = s * 10. ** rng.uniform(-30, 30)
    layout = str(rng.choice(["plain", "list", "fortran", "strided"]))
    x = s
    if layout == "list":
        x = s.tolist()
    elif layout == "fortran":
        x = np.asfortranarray(s)
    elif layout == "strided":
        x = np.repeat(s, 2, axis=0)[::2]
    ctx.describe(bool(W.any()), s=s, layout=layout, **d)
    ctx.note(f"ndim={1 + len(sh)} {dt}")
    if rng.uniform() < .5:
        g.compute_fourier_basis()
    nr = np.linalg.norm(s.astype(complex)) + 1e-300
    h = g.gft(x)
    U = g.U
    tol = 1e-5 if dt == "float32" else 1e-9
    ctx.ok(h.shape == (n,) + sh, "gft-shape", lambda: f"{h.shape}")
    want = np.einsum("il,i...->l...", U, s.astype(complex) if dt == "complex" else s.astype(float))
    ctx.close(h, want, "gft-is-correlation", tol, scale=nr)
    ctx.close(g.igft(h), s.astype(complex) if dt == "complex" else s.astype(float), "igft-gft", tol, scale=nr)
    y = g.igft(x)
    ctx.close(y, np.einsum("il,l...->i...", U, s.astype(complex) if dt == "complex" else s.astype(float)), "igft-is-synthesis", tol, scale=nr)
    ctx.close(g.gft(y), s.astype(complex) if dt == "complex" else s.astype(float), "gft-igft", tol, scale=nr)
    ctx.close(np.linalg.norm(h), np.linalg.norm(s.astype(complex)), "energy", tol, scale=nr)
    t = gen.signal(rng, n, sh)
    ctx.close(np.vdot(g.gft(t), h), np.vdot(t, s.astype(complex)), "inner-product", tol, scale=nr * (np.linalg.norm(t) + 1e-300))
    a, b = rng.normal(size=2)
    ctx.close(g.gft(a * s + b * t), a * h + b * g.gft(t), "linear", tol, scale=(nr + np.linalg.norm(t)) * 4)
    if sh:
        j = tuple(int(rng.integers(0, k)) for k in sh)
        ctx.close(g.gft(s[(slice(None),) + j]), h[(slice(None),) + j], "independent-trailing", tol, scale=nr)
        ctx.close(g.igft(s[(slice(None),) + j]), y[(slice(None),) + j], "independent-trailing", tol, scale=nr)
    # modes are the atoms of the transform
    l = int(rng.integers(0, n))
    ctx.close(g.gft(U[:, l]), np.eye(n)[l], "mode-to-delta", 1e-9)
    ctx.close(g.igft(np.eye(n)[l]), U[:, l], "delta-to-mode", 1e-9)


@R.family(quick=120, thorough=2000)
def rejected(ctx, rng):
    g, W, d = gen.spectral_graph(rng, nmin=2, nmax=10)
    n = len(W)
    bad = int(rng.choice([n - 1, n + 1, 2 * n]))
    sh = (bad,) if rng.uniform() < .5 else (bad, n)
    ctx.describe(shape=sh, **d)
    for op in ("gft", "igft"):
        ctx.raises(lambda: getattr(g, op)(np.zeros(sh)), ValueError, "reject-" + op)


@R.family(quick=6, thorough=600)
def large(ctx, rng):
    """Hundreds of vertices, and up to hundreds of signals."""
    from pygsp import graphs
    d, W = gen.large(rng, 150, 500)
    n = W.shape[0]
    lap = str(rng.choice(["combinatorial", "normalized"]))
    sh = [(), (int(50 * 60 ** rng.uniform()),), (int(rng.integers(20, 100)), int(rng.integers(2, 8)))][int(rng.integers(3))]
    ctx.describe(lap=lap, shape=list(sh), **d)
    g = graphs.Graph(W, lap_type=lap)
    s = rng.normal(size=(n,) + sh)
    U = g.U
    h = g.gft(s)
    ctx.close(h, np.einsum("il,i...->l...", U, s), "gft-is-correlation", 1e-11, scale=np.sqrt(n))
    ctx.close(g.igft(h), s, "igft-gft", 1e-11, scale=np.sqrt(n))
    ctx.close(g.igft(s), np.einsum("il,l...->i...", U, s), "igft-is-synthesis", 1e-11, scale=np.sqrt(n))
    ctx.close(np.linalg.norm(h), np.linalg.norm(s), "energy", 1e-11)
    ctx.note(f"{d['kind']} {len(sh)}")
