"""Reference models. They use nothing of composipy."""
import functools
from fractions import Fraction as F
import numpy as np
import scipy.linalg
from numpy.polynomial import legendre

# ------------------------------------------------------------------ ply and laminate


def iso_as_ortho(m):
    if m['kind'] == 'iso':
        return dict(e1=m['e'], e2=m['e'], v12=m['v'], g12=m['g'], thickness=m['thickness'])
    return m


def Q_ply(m):
    """Plane-stress stiffness: inverse of the engineering compliance."""
    m = iso_as_ortho(m)
    E1, E2, v, G = m['e1'], m['e2'], m['v12'], m['g12']
    S = np.array([[1 / E1, -v / E1], [-v / E1, 1 / E2]])
    # scaled 2x2 inverse
    d = np.array([np.sqrt(E1), np.sqrt(E2)])
    Q = np.zeros((3, 3))
    Q[:2, :2] = np.linalg.inv(S * np.outer(d, d)) * np.outer(d, d)
    Q[2, 2] = G
    return Q


_V = [(0, 0), (1, 1), (0, 1)]


def rot(theta):
    t = np.deg2rad(theta)
    c, s = np.cos(t), np.sin(t)
    return np.array([[c, s], [-s, c]])  # rows: material axes in plate axes


def rotate_stiffness(Q, theta):
    """Stiffness of a ply at theta (degrees) in plate axes, rotated as a fourth-order tensor."""
    C = np.zeros((2, 2, 2, 2))
    for a, (i, j) in enumerate(_V):
        for b, (k, l) in enumerate(_V):
            for p, q in {(i, j), (j, i)}:
                for r, s in {(k, l), (l, k)}:
                    C[p, q, r, s] = Q[a, b]
    R = rot(theta)
    C = np.einsum('ijkl,ip,jq,kr,ls->pqrs', C, R, R, R, R)
    return np.array([[C[i, j, k, l] for k, l in _V] for i, j in _V])


def rotate_strain(e, theta):
    """Engineering strain (x, y, gamma) from plate to material axes at theta."""
    R = rot(theta)
    T = R @ np.array([[e[0], e[2] / 2], [e[2] / 2, e[1]]]) @ R.T
    return np.array([T[0, 0], T[1, 1], 2 * T[0, 1]])


def rotate_stress(s, theta):
    R = rot(theta)
    T = R @ np.array([[s[0], s[2]], [s[2], s[1]]]) @ R.T
    return np.array([T[0, 0], T[1, 1], T[0, 1]])


def heights(ts):
    h = float(np.sum(ts))
    return np.concatenate([[0.0], np.cumsum(ts)]) - h / 2


def qbars(angles, mats):
    return [rotate_stiffness(Q_ply(m), t) for t, m in zip(angles, mats)]


def ABD(angles, mats):
    ts = np.array([m['thickness'] for m in mats])
    z = heights(ts)
    mid = (z[1:] + z[:-1]) / 2
    Q = np.array(qbars(angles, mats))
    A = np.tensordot(ts, Q, 1)
    B = np.tensordot(ts * mid, Q, 1)
    D = np.tensordot(ts * mid ** 2 + ts ** 3 / 12, Q, 1)
    return A, B, D


def solve_laminate(ABD6, load, h):
    """Midplane strains and curvatures, in variables scaled by the thickness."""
    d = np.array([1, 1, 1, 1 / h, 1 / h, 1 / h])
    S = ABD6 * np.outer(d, d)
    return np.linalg.solve(S, np.asarray(load) * d) * d, np.linalg.cond(S)


# ------------------------------------------------------------------ Bardell's functions

NF = 50


def _P(k, x):
    return legendre.legval(x, [0] * k + [1])


def bardell(i, x, d=0):
    """d-th derivative of function i at x (for i >= 4 the second derivative is the Legendre polynomial P_{i-2})."""
    x = np.asarray(x, float)
    if i < 4:
        c = [[1 / 2, -3 / 4, 0, 1 / 4], [1 / 8, -1 / 8, -1 / 8, 1 / 8],
             [1 / 2, 3 / 4, 0, -1 / 4], [-1 / 8, -1 / 8, 1 / 8, 1 / 8]][i]
        return np.polynomial.polynomial.polyval(x, np.polynomial.polynomial.polyder(c, d) if d else c)
    k = i - 2
    if d == 2:
        return _P(k, x)
    if d == 1:
        return (_P(k + 1, x) - _P(k - 1, x)) / (2 * k + 1)
    return ((_P(k + 2, x) - _P(k, x)) / (2 * k + 3) - (_P(k, x) - _P(k - 2, x)) / (2 * k - 1)) / (2 * k + 1)


def _legendre(i, d):
    """Exact Legendre coefficients {degree: Fraction} of the d-th derivative of function i."""
    if i < 4:
        c = [[F(1, 2), F(-3, 4), F(0), F(1, 4)], [F(1, 8), F(-1, 8), F(-1, 8), F(1, 8)],
             [F(1, 2), F(3, 4), F(0), F(-1, 4)], [F(-1, 8), F(-1, 8), F(1, 8), F(1, 8)]][i]
        for _ in range(d):
            c = [j * c[j] for j in range(1, len(c))]
        c = c + [F(0)] * (4 - len(c))
        # 1 = P0, x = P1, x^2 = (2 P2 + P0)/3, x^3 = (2 P3 + 3 P1)/5
        return {0: c[0] + c[2] / 3, 1: c[1] + c[3] * F(3, 5), 2: c[2] * F(2, 3), 3: c[3] * F(2, 5)}
    k = i - 2
    if d == 2:
        return {k: F(1)}
    if d == 1:
        return {k + 1: F(1, 2 * k + 1), k - 1: F(-1, 2 * k + 1)}
    up, down = F(1, (2 * k + 3) * (2 * k + 1)), F(1, (2 * k - 1) * (2 * k + 1))
    return {k + 2: up, k: -up - down, k - 2: down}


@functools.lru_cache(None)
def integral(p, q):
    """Matrix of the integrals over (-1, 1) of f_i^(p) f_k^(q), from exact rational arithmetic."""
    P, Q = ([_legendre(i, d) for i in range(NF)] for d in (p, q))
    M = np.zeros((NF, NF))
    for i in range(NF):
        for k in range(NF):
            v = sum((c * Q[k][n] * F(2, 2 * n + 1) for n, c in P[i].items() if n in Q[k]), F(0))
            M[i, k] = float(v)
    return M


@functools.lru_cache(None)
def norms(p):
    return np.sqrt(np.diag(integral(p, p)))


@functools.lru_cache(None)
def _tab(p, q):
    """Accuracy of composipy's tabulated integrals: rational numbers, but decimal ones with cancelled digits if one of
    the two functions is among the first four."""
    i = np.arange(NF)
    m = np.maximum.outer(i, i)
    dec = np.minimum.outer(i, i) < 4
    nn = np.outer(norms(p), norms(q))
    return np.where(dec, nn * (1e-11 + 1e-14 * 2.0 ** np.minimum(m, 40)), 1e-14 * np.abs(integral(p, q)))


# ------------------------------------------------------------------ supports

NAMES = {'free': [], 'pinned': ['TX', 'TY', 'TZ'], 'simply_supported': ['TX', 'TY', 'TZ'],
         'clamped': ['TX', 'TY', 'TZ', 'RX', 'RY', 'RZ'], 'fixed': ['TX', 'TY', 'TZ', 'RX', 'RY', 'RZ']}
EDGES = ('x0', 'xa', 'y0', 'yb')


def freedoms(cons):
    """Per edge the set of freedoms held, for any of composipy's ways to give them."""
    if cons is None or cons == 'PINNED':
        return {e: set(NAMES['pinned']) for e in EDGES}
    if cons == 'CLAMPED':
        return {e: set(NAMES['clamped']) for e in EDGES}
    return {e: set(NAMES[cons[e].lower()]) if isinstance(cons[e], str) else set(cons[e]) for e in EDGES}


def basis(cons, m, n):
    """{'u': (x indices, y indices), ...}: the first m, n functions that the supports admit."""
    f = freedoms(cons)
    out = {}
    for fld, ax in (('u', 'X'), ('v', 'Y'), ('w', 'Z')):
        ix = []
        for size, e0, e1 in ((m, 'x0', 'xa'), (n, 'y0', 'yb')):
            held = set()
            if 'T' + ax in f[e0]:
                held.add(0)
            if 'R' + ax in f[e0]:
                held.add(1)
            if 'T' + ax in f[e1]:
                held.add(2)
            if 'R' + ax in f[e1]:
                held.add(3)
            ix.append(np.array([i for i in range(size + 4) if i not in held][:size]))
        out[fld] = tuple(ix)
    return out


def supported(cons):
    """No rigid-body deflection c0 + c1*xi + c2*eta is left."""
    f = freedoms(cons)
    rows = []
    for e, s in (('x0', -1), ('xa', 1)):
        if 'TZ' in f[e]:
            rows += [[1, s, 0], [0, 0, 1]]
        if 'RZ' in f[e]:
            rows += [[0, 1, 0]]
    for e, s in (('y0', -1), ('yb', 1)):
        if 'TZ' in f[e]:
            rows += [[1, 0, s], [0, 1, 0]]
        if 'RZ' in f[e]:
            rows += [[0, 0, 1]]
    return bool(rows) and np.linalg.matrix_rank(np.array(rows, float)) == 3


# ------------------------------------------------------------------ Ritz plate

# strain components as lists of (field, dx, dy, coefficient)
_STRAIN = [[('u', 1, 0, 1.0)], [('v', 0, 1, 1.0)], [('u', 0, 1, 1.0), ('v', 1, 0, 1.0)],
           [('w', 2, 0, -1.0)], [('w', 0, 2, -1.0)], [('w', 1, 1, -2.0)]]
_OFF = {'u': 0, 'v': 1, 'w': 2}


def _energy(bas, fields, strains, C, a, b):
    """Second derivatives of 1/2 int strain' C strain dA and the tolerance from the accuracy of the tables."""
    sizes = [len(bas[f][0]) * len(bas[f][1]) for f in fields]
    pos = dict(zip(fields, np.concatenate([[0], np.cumsum(sizes)])))
    N = sum(sizes)
    K = np.zeros((N, N))
    tol = np.zeros((N, N))
    for r, sr in enumerate(strains):
        for s, ss in enumerate(strains):
            if C[r, s] == 0:
                continue
            for f, p, q, cf in sr:
                for g, p2, q2, cg in ss:
                    if f not in pos or g not in pos:
                        continue
                    fx, fy = bas[f]
                    gx, gy = bas[g]
                    k = C[r, s] * cf * cg * a * b / 4 * (2 / a) ** (p + p2) * (2 / b) ** (q + q2)
                    X = integral(p, p2)[np.ix_(fx, gx)]
                    Y = integral(q, q2)[np.ix_(fy, gy)]
                    blk = (slice(pos[f], pos[f] + len(fx) * len(fy)), slice(pos[g], pos[g] + len(gx) * len(gy)))
                    K[blk] += k * np.kron(X, Y)
                    tX = _tab(p, p2)[np.ix_(fx, gx)]
                    tY = _tab(q, q2)[np.ix_(fy, gy)]
                    tol[blk] += abs(k) * (np.kron(np.abs(X), tY) + np.kron(tX, np.abs(Y)) + np.kron(tX, tY))
    return K, tol


def magnitude(bas, fields, strains, C, a, b, size=False, exact=False):
    """Upper bounds of the entries if every coefficient had the largest magnitude of its block of C: by the norms of the
    functions, or (size) the sum of the magnitudes of the products."""
    sizes = [len(bas[f][0]) * len(bas[f][1]) for f in fields]
    pos = dict(zip(fields, np.concatenate([[0], np.cumsum(sizes)])))
    M = np.zeros((sum(sizes), sum(sizes)))
    n = len(C) // 3 if len(C) > 3 else 1
    w = len(C) // n
    for r, sr in enumerate(strains):
        for s, ss in enumerate(strains):
            c = np.abs(C[r // w * w:r // w * w + w, s // w * w:s // w * w + w]).max() if not exact else abs(C[r, s])
            for f, p, q, cf in sr:
                for g, p2, q2, cg in ss:
                    fx, fy = bas[f]
                    gx, gy = bas[g]
                    k = c * abs(cf * cg) * a * b / 4 * (2 / a) ** (p + p2) * (2 / b) ** (q + q2)
                    blk = (slice(pos[f], pos[f] + len(fx) * len(fy)), slice(pos[g], pos[g] + len(gx) * len(gy)))
                    if size:
                        M[blk] += k * np.kron(np.abs(integral(p, p2)[np.ix_(fx, gx)]), np.abs(integral(q, q2)[np.ix_(fy, gy)]))
                    else:
                        M[blk] += k * np.kron(np.outer(norms(p)[fx], norms(p2)[gx]), np.outer(norms(q)[fy], norms(q2)[gy]))
    return M


def magnitude_bending(bas, D, a, b, size=False):
    return magnitude(bas, ['w'], _STRAIN[3:], D, a, b, size)


def magnitude_full(bas, ABD6, a, b, size=False):
    return magnitude(bas, ['u', 'v', 'w'], _STRAIN, ABD6, a, b, size)


def K_bending(bas, D, a, b):
    return _energy(bas, ['w'], _STRAIN[3:], D, a, b)


def K_full(bas, ABD6, a, b):
    return _energy(bas, ['u', 'v', 'w'], _STRAIN, ABD6, a, b)


def KG(bas, Nxx, Nyy, Nxy, a, b):
    C = np.array([[Nxx, Nxy], [Nxy, Nyy]])
    return _energy({'w': bas['w']}, ['w'], [[('w', 1, 0, 1.0)], [('w', 0, 1, 1.0)]], C, a, b)


def mus(K, G):
    """All mu with G v = mu K v (ascending) and v (K-normalised); the buckling factors are -1/mu."""
    return scipy.linalg.eigh(G, K)


def lowest_factor(D, a, b, cons, Nxx, Nyy, Nxy, m, n):
    bas = basis(cons, m, n)
    K, _ = K_bending(bas, D, a, b)
    G, _ = KG(bas, Nxx, Nyy, Nxy, a, b)
    mu = scipy.linalg.eigh(G, K, eigvals_only=True)[0]
    return -1 / mu if mu < 0 else np.inf


def deflection(bas, coef, xi, eta):
    """Deflection on the grid xi x eta -> array [len(eta), len(xi)]."""
    wx, wy = bas['w']
    C = np.asarray(coef).reshape(len(wx), len(wy))
    X = np.array([bardell(i, xi) for i in wx])
    Y = np.array([bardell(j, eta) for j in wy])
    return Y.T @ C.T @ X


# ------------------------------------------------------------------ lamination parameters

def invariants(Q):
    a = Q[0, 0] + Q[1, 1]
    return np.array([(3 * a + 2 * Q[0, 1] + 4 * Q[2, 2]) / 8, (Q[0, 0] - Q[1, 1]) / 2,
                     (a - 2 * Q[0, 1] - 4 * Q[2, 2]) / 8, (a + 6 * Q[0, 1] - 4 * Q[2, 2]) / 8,
                     (a - 2 * Q[0, 1] + 4 * Q[2, 2]) / 8])


def lamination_parameters(angles, ts):
    z = heights(ts)
    mid = (z[1:] + z[:-1]) / 2
    t = np.asarray(ts, float)
    h = t.sum()
    rad = np.deg2rad(np.asarray(angles, float))
    tr = np.array([np.cos(2 * rad), np.sin(2 * rad), np.cos(4 * rad), np.sin(4 * rad)])
    return tr @ t / h, tr @ (t * mid ** 2 + t ** 3 / 12) * 12 / h ** 3


def Q_from_lp(m, xi):
    """Mean stiffness for lamination parameters xi, as a mean over angle: by linear functionals of the rotated stiffness.

    Q(theta) = R0 + R1 cos2t + R2 sin2t + R3 cos4t + R4 sin4t; the R are obtained by discrete Fourier transform of the
    rotated stiffness, so that no closed form of the invariants is needed."""
    Q = Q_ply(m)
    th = np.arange(8) * 180.0 / 8
    S = np.array([rotate_stiffness(Q, t) for t in th])
    r = np.deg2rad(th)
    R0 = S.mean(0)
    R = [2 * np.tensordot(f, S, 1) / 8 for f in (np.cos(2 * r), np.sin(2 * r), np.cos(4 * r), np.sin(4 * r))]
    # cos4t on 8 points over 180 deg has period 4: fine; weights 2/8 hold for both harmonics
    return R0 + sum(x * M for x, M in zip(xi, R))
