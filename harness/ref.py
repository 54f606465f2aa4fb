"""Independent reference models (dense, straightforward, no pygsp code)."""
import numpy as np


def directed(W):
    return bool((W != W.T).any())


def n_edges(W):
    if directed(W):
        return int((W != 0).sum())
    return int((np.triu(W) != 0).sum())


def degree(W):
    o, i = (W != 0).sum(1), (W != 0).sum(0)
    return (o + i) / 2 if directed(W) else o


def wdegree(W):
    W = W.astype(float)
    return (W.sum(0) + W.sum(1)) / 2


def laplacian(W, lap):
    W = W.astype(float)
    S = (W + W.T) / 2
    d = wdegree(W)
    if lap == "combinatorial":
        return np.diag(d) - S
    q = np.zeros(len(d))
    q[d > 0] = 1 / np.sqrt(d[d > 0])
    L = np.diag((d > 0).astype(float)) - q[:, None] * S * q[None]
    return L


def reach(A):
    """Boolean transitive closure by BFS from every vertex."""
    n = len(A)
    R = np.zeros((n, n), bool)
    for s in range(n):
        stack = [s]
        while stack:
            v = stack.pop()
            if R[s, v]:
                continue
            R[s, v] = True
            stack.extend(np.nonzero(A[v])[0])
    return R


def components(W):
    """Sets of vertices of the weak components, ordered by smallest vertex."""
    A = (W != 0) | (W.T != 0)
    R = reach(A)
    seen, out = set(), []
    for i in range(len(W)):
        if i not in seen:
            c = np.nonzero(R[i])[0].tolist()
            seen.update(c)
            out.append(c)
    return out


def strongly_connected(W):
    return bool(reach(W != 0).all())


def eig(L):
    return np.linalg.eigh((L + L.T) / 2)


def incidence(W, lap):
    """D, edge list, from the documented definition."""
    W = W.astype(float)
    d = wdegree(W)
    isd = directed(W)
    n = len(W)
    edges = [(i, j) for i in range(n) for j in (range(n) if isd else range(i, n)) if W[i, j] != 0]
    D = np.zeros((n, len(edges)))
    for k, (i, j) in enumerate(edges):
        if i == j:
            continue
        w = W[i, j] / (2 if isd else 1)
        D[i, k] = -np.sqrt(w if lap == "combinatorial" else w / d[i])
        D[j, k] = +np.sqrt(w if lap == "combinatorial" else w / d[j])
    return D, edges


def func_of(L, f):
    """f(L) through the eigendecomposition of the symmetric part."""
    e, U = eig(L)
    return (U * f(e)) @ U.T


def resistance(W):
    L = laplacian(W, "combinatorial")
    P = np.linalg.pinv(L)
    d = np.diag(P)
    return d[:, None] + d[None] - 2 * P


def cheb_interp_coefs(f, a, b, m, N=None):
    """Coefficients c (with c0 to be halved) of the degree-m interpolation at N nodes."""
    N = N or m + 1
    th = np.pi * (np.arange(N) + .5) / N
    y = f((b - a) / 2 * np.cos(th) + (a + b) / 2)
    return np.array([2 / N * np.sum(y * np.cos(o * th)) for o in range(m + 1)])


def snapshot(x):
    """Deep, comparable copy of arrays / sparse matrices / containers."""
    from scipy import sparse
    if sparse.issparse(x):
        y = x.tocoo()
        return ("sparse", x.format, x.shape, str(x.dtype), x.toarray().tobytes())
    if isinstance(x, np.ndarray):
        return ("nd", x.shape, str(x.dtype), x.tobytes())
    if isinstance(x, dict):
        return ("dict", tuple((k, snapshot(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(snapshot(v) for v in x))
    return ("obj", repr(x))


# ---------------------------------------------------------------- neighbours
def distances(X, p=2):
    d = np.abs(X[:, None, :] - X[None, :, :])
    if np.isinf(p):
        return d.max(-1)
    return (d ** p).sum(-1) ** (1 / p)


def symmetrize(W, how):
    """Dense definition of each symmetrization (non-negative weights)."""
    n = len(W)
    if how == "average":
        return (W + W.T) / 2
    if how == "maximum":
        return np.maximum(W, W.T)
    S = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            a, b = W[i, j], W[j, i]
            if how == "fill":
                S[i, j] = (a + b) / 2 if a > 0 and b > 0 else a + b
            elif how == "tril":
                S[i, j] = a if i >= j else b
            elif how == "triu":
                S[i, j] = a if i <= j else b
    return S


def knn(X, k, p=2, sigma=None, sym="average"):
    """(weights, sigma, tie margin) of the k-nearest-neighbour graph."""
    n = len(X)
    D = distances(X, p)
    np.fill_diagonal(D, np.inf)
    order = np.argsort(D, 1, kind="stable")
    kth = D[np.arange(n), order[:, k - 1]]
    nxt = D[np.arange(n), order[:, k]] if k < n - 1 else np.full(n, np.inf)
    A = np.zeros((n, n), bool)
    A[np.repeat(np.arange(n), k), order[:, :k].ravel()] = True
    if sigma is None:
        sigma = D[A].mean()
    W = np.where(A, np.exp(-np.where(A, D, 0) ** 2 / sigma), 0)
    return symmetrize(W, sym), sigma, (nxt - kth).min()


def radius_graph(X, eps, p=2, sigma=None, sym="average"):
    D = distances(X, p)
    n = len(X)
    off = ~np.eye(n, dtype=bool)
    A = (D <= eps) & off
    margin = np.abs(D[off] - eps).min() if n > 1 else np.inf
    if sigma is None:
        sigma = D[A].mean() if A.any() else None
    W = np.zeros((n, n)) if not A.any() else np.where(A, np.exp(-D ** 2 / sigma), 0)
    return symmetrize(W, sym), sigma, margin
