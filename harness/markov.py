"""Reference solvers for Markov chains, independent of the code under test."""
import numpy as np


def stationary(Q):
    """Stationary distribution of a generator (or of P - I) by a dense solve."""
    Q = np.asarray(Q)
    n = Q.shape[0]
    A = Q.T.copy()
    A[0] = 1
    b = np.zeros(n, dtype=A.dtype)
    b[0] = 1
    return np.linalg.solve(A, b)


def gth(Q):
    """Grassmann-Taksar-Heyman elimination (no subtractions) for a generator with non-negative rates."""
    A = np.array(Q, dtype=float)
    n = A.shape[0]
    np.fill_diagonal(A, 0.0)
    for k in range(n - 1, 0, -1):
        s = A[k, :k].sum()
        A[:k, k] /= s
        A[:k, :k] += np.outer(A[:k, k], A[k, :k])
    p = np.zeros(n)
    p[0] = 1.0
    for k in range(1, n):
        p[k] = p[:k] @ A[:k, k]
    return p / p.sum()


def close_rows(Q):
    Q = np.asarray(Q)
    np.fill_diagonal(Q, 0)
    Q[np.arange(len(Q)), np.arange(len(Q))] = -Q.sum(axis=1)
    return Q


def build_levels(states, rates, top):
    """Matrices of a level chain: states(k) lists the phases of level k; rates(k, phase) yields (k', phase', rate), |k' - k| <= 1.

    Returns up[k], down[k], local[k] (with the diagonal), complex rates allowed."""
    index = [{s: i for i, s in enumerate(states(k))} for k in range(top + 1)]
    up = [np.zeros((len(index[k]), len(index[k + 1])), complex) for k in range(top)]
    down = [None] + [np.zeros((len(index[k]), len(index[k - 1])), complex) for k in range(1, top + 1)]
    local = [np.zeros((len(ix), len(ix)), complex) for ix in index]
    for k in range(top + 1):
        for s, i in index[k].items():
            for k2, s2, r in rates(k, s):
                if r == 0:
                    continue
                local[k][i, i] -= r
                m = local[k] if k2 == k else up[k] if k2 > k else down[k]
                m[i, index[k2][s2]] += r
    return index, up, down, local


def solve_levels(up, down, local):
    """Stationary vectors by linear level reduction from the top level."""
    top = len(local) - 1
    R = [None] * top
    for k in range(top - 1, -1, -1):
        d = -local[k + 1]
        if k + 1 < top:
            d = d - R[k + 1] @ down[k + 2]
        R[k] = up[k] @ np.linalg.inv(d)
    Q0 = local[0] + (R[0] @ down[1] if top else 0)
    n0 = len(Q0)
    if n0 == 1:
        v = np.ones(1, complex)
    else:
        A = Q0.T.copy()
        A[0] = 1
        v = np.linalg.solve(A, np.eye(n0, 1)[:, 0].astype(complex))
    Y = [v]
    for k in range(top):
        v = v @ R[k]
        Y.append(v)
    s = sum(y.sum() for y in Y)
    return [y / s for y in Y]
