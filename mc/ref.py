"""Independent reference formulas, written from the physics."""

import itertools

import numpy as np

def fourier(R, data, k):
    """sum_R data(R) exp(i k R), term by term."""
    total = np.zeros(np.shape(data)[1:], dtype=complex)
    for r, d in zip(R, data):
        phase = sum(float(x) * float(y) for x, y in zip(r, k))
        total = total + np.asarray(d) * complex(np.cos(phase), np.sin(phase))
    return total

def summed(R, data, eps=0.0):
    """Dictionary of nonzero blocks, repeated lattice vectors summed."""
    d = {}
    for r, x in zip(R, data):
        key = tuple(int(i) for i in r)
        d[key] = d.get(key, 0) + np.array(x)
    return {key: x for key, x in d.items() if np.any(abs(x) > eps)}

def matrixN(N):
    """Integer matrix from supercell arguments."""
    M = []
    for i, n in enumerate(N):
        if np.ndim(n) == 0:
            row = [0, 0, 0]
            row[i] = int(n)
        else:
            row = [int(x) for x in n]
        M.append(row)
    return M

def det3(M):
    (a, b, c), (d, e, f), (g, h, i) = M
    return a * (e * i - f * h) - b * (d * i - f * g) + c * (d * h - e * g)

def inv3(M):
    """Adjugate (integer), such that M @ adj = det."""
    (a, b, c), (d, e, f), (g, h, i) = M
    return [[e * i - f * h, c * h - b * i, b * f - c * e],
        [f * g - d * i, a * i - c * g, c * d - a * f],
        [d * h - e * g, b * g - a * h, a * e - b * d]]

def folded(M, K=(0, 0, 0)):
    """All primitive k points that fold onto supercell K (crystal, 2 pi)."""
    n = abs(det3(M))
    Minv = np.linalg.inv(np.array(M, dtype=float))
    ks = []
    seen = set()
    span = range(-n, n + 1)
    rng = range(n)
    # k = M^-1 (K + 2 pi m): m modulo M * integers
    adj = inv3(M)
    det = det3(M)
    for m in itertools.product(rng, rng, rng):
        # fractional part of adj m / det identifies k modulo 2 pi
        key = tuple(sum(adj[i][j] * m[j] for j in range(3)) % abs(det)
            for i in range(3))
        if key in seen:
            continue
        seen.add(key)
        ks.append(Minv @ (np.array(K, dtype=float)
            + 2 * np.pi * np.array(m)))
        if len(ks) == n:
            break
    assert len(ks) == n
    return np.array(ks)

def fold(A, M, cells, K=(0, 0, 0)):
    """Supercell representation of k-dependent matrix A(k).

    B(K)[i, j] = 1/n sum_k exp[i k (c_i - c_j)] A(k)
    """
    ks = folded(M, K)
    n = len(ks)
    c = np.array(cells)
    B = 0
    for k in ks:
        phase = np.exp(1j * (c @ k))
        P = np.outer(phase, phase.conj()) / n
        B = B + np.kron(P, A(k))
    return B

def fold_g(g, M, cells, Q=(0, 0, 0), K=(0, 0, 0)):
    """Supercell representation of coupling g(q, k)[x, a, b].

    Convention: <0 a| dV/du_{R x} |R' b> summed with exp(i q R + i k R').
    """
    qs = folded(M, Q)
    ks = folded(M, K)
    n = len(ks)
    c = np.array(cells)
    x, a, b = np.shape(g(qs[0], ks[0]))
    B = np.zeros((n, x, n, a, n, b), dtype=complex)
    for q in qs:
        for k in ks:
            G = g(q, k)
            fx = np.exp(-1j * (c @ q))
            fa = np.exp(1j * (c @ (q + k)))
            fb = np.exp(-1j * (c @ k))
            B += np.einsum('i,j,l,xab->ixjalb', fx, fa, fb, G)
    B /= n ** 2
    return B.reshape((n * x, n * a, n * b))
