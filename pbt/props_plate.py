"""C14 bending stiffness, C15 full stiffness, C20 supports, C21 plotted mode, C28 plate from parameters."""
import copy
import numpy as np
from hypothesis import strategies as st

from .core import sub, Skip
from .gen import *
from . import ref, gen
from .props_laminate import MIX, describe

ALLC = dict(angles=[20, -50, 75], mats=[gen.TYPICAL[0], gen.TYPICAL[4]], ply=[0, 1, 0], scalar=False)  # all of A, B, D nonzero
FREE = {e: [] for e in ref.EDGES}


def sup(**kw):
    return dict(FREE, **kw)


def pnote(P, note):
    describe(P['lam'], note)
    f = ref.freedoms(P['cons'])
    held = [frozenset(f[e]) for e in ref.EDGES]
    note('supports: %s' % ('equal on all edges' if len(set(held)) == 1 else 'different edges'))
    if f['x0'] != f['xa'] or f['y0'] != f['yb']:
        note('opposite edges differ')
    note('supports by %s' % (P['cons'] if P['cons'] is None or isinstance(P['cons'], str) else
                             'name' if all(isinstance(v, str) for v in P['cons'].values()) else 'name and list' if any(isinstance(v, str) for v in P['cons'].values()) else 'list'))
    if P['a'] != P['b']:
        note('not square')
    if P['m'] != P['n']:
        note('m != n')


def compare_matrix(got, want, tol, mag, what, size=None):
    """tol: accuracy of the tables; mag: bounds by the norms of the functions; size: sums of the magnitudes of the products."""
    got = arr(got)
    if got.shape != want.shape:
        fail('%s has shape %s instead of %s', what, got.shape, want.shape)
    close(got, want, 5 * tol + (2e-11 * mag if size is None else 2e-12 * size + 1e-14 * mag), what)


def symmetric_psd(K, mag, tol, what):
    d = np.sqrt(np.diag(mag))
    S = K / np.outer(d, d)
    close(S, S.T, 1e-10 + 10 * (tol / np.outer(d, d)), 'symmetry of ' + what)
    lo = np.linalg.eigvalsh((S + S.T) / 2).min()
    if lo < -1e-10 * len(K) - 10 * np.linalg.norm(tol / np.outer(d, d)):
        fail('%s has the negative eigenvalue %r (scaled)', what, lo)


def check_KG(P, bas, G, what='KG'):
    W, t = ref.KG(bas, *P['N'], P['a'], P['b'])
    C = np.array([[P['N'][0], P['N'][2]], [P['N'][2], P['N'][1]]], float)
    mag = ref.magnitude({'w': bas['w']}, ['w'], [[('w', 1, 0, 1.0)], [('w', 0, 1, 1.0)]], C, P['a'], P['b'])
    size = ref.magnitude({'w': bas['w']}, ['w'], [[('w', 1, 0, 1.0)], [('w', 0, 1, 1.0)]], C, P['a'], P['b'], True, True)
    compare_matrix(G, W, t, 0 * mag, what, size)
    close(arr(G), arr(G).T, 1e-10 * mag + 10 * t, 'symmetry of ' + what)


# ---------------------------------------------------------------- C14

def sweeps(full):
    """Plates whose matrices contain every tabulated integral, in both directions."""
    ends = [([], []), (['TZ'], []), (['TZ'], ['TZ']), (['TZ', 'RZ'], ['TZ', 'RZ']), (['RZ'], ['TZ']), ([], ['TZ', 'RZ'])]
    out = []
    allf = ['TX', 'TY', 'RX', 'RY']
    for k, (s, e) in enumerate(ends if not full else ends[:2]):
        ext = allf if full and k else []
        m = 30 - len(s) - len(e) - (4 if ext else 0)
        for o in ([[]] if k > 1 else [[], ['TZ', 'TX', 'TY']]) if not full else [[]]:
            x = sup(x0=s + ext, xa=e + ext, y0=o)
            y = sup(y0=s + ext, yb=e + ext, x0=o)
            nn = 2 if k < 2 else 1
            out.append(dict(lam=ALLC, a=100.0, b=70.0, cons=x, N=[-1, 0.5, 0.25], m=m, n=nn))
            out.append(dict(lam=ALLC, a=70.0, b=100.0, cons=y, N=[-1, 0.5, 0.25], m=nn, n=m))
    # functions of index 4 and above only, whose integrals are tabulated as rational numbers, one load at a time
    every = ['TX', 'TY', 'TZ', 'RX', 'RY', 'RZ']
    for N in ([1, 0, 0], [0, 1, 0], [0, 0, 1]) if not full else ([-1, 0.5, 0.25],):
        for (m, n) in ((26, 2), (2, 26)):
            out.append(dict(lam=ALLC, a=100.0, b=70.0, cons=sup(x0=every, xa=every, y0=every, yb=every), N=N, m=m, n=n))
    return out


C14_EX = [dict(lam=ALLC, a=100.0, b=b, cons=c, N=[-1, -0.5, 0.3], m=m, n=n)
          for b in (100.0, 40.0) for (m, n) in ((3, 2), (2, 4)) for c in
          ('PINNED', 'CLAMPED', None, dict(x0='clamped', xa='pinned', y0='free', yb='fixed'),
           dict(x0=['TZ'], xa=['RZ'], y0=['TX', 'RY', 'TZ'], yb=['RZ', 'RX']))]


@sub('C14', 'matrices', lambda: plate(max_m=5, proper=False), 1000, 8000, rule='opposite edges supported differently or m != n or a != b',
     nontrivial=lambda P: P['m'] != P['n'] or P['a'] != P['b'], explicit=lambda: C14_EX)
def c14(P, note):
    pnote(P, note)
    D = ref_ABD(P['lam'])[2]
    bas = ref.basis(P['cons'], P['m'], P['n'])
    K, G = build_plate(P).calc_K_KG_D()
    W, t = ref.K_bending(bas, D, P['a'], P['b'])
    mag = ref.magnitude_bending(bas, D, P['a'], P['b'])
    compare_matrix(K, W, t, mag, 'K', ref.magnitude_bending(bas, D, P['a'], P['b'], True))
    symmetric_psd(arr(K), mag, t, 'K')
    check_KG(P, bas, G)


@st.composite
def long_plate(draw, top, proper=False):
    """Many terms in one direction and few in the other."""
    cons = draw(supports([5, 6, 7, 3]))
    k = draw(st.integers(5, 30))
    q = draw(st.integers(1, top))
    P = dict(lam=draw(laminate(4)), a=draw(side()), b=draw(side()), cons=cons, N=draw(plane_loads()))
    b = ref.freedoms(cons)
    cut = max(sum(1 for e in E for x in b[e] if x[1] == ax) for ax in 'XYZ' for E in (('x0', 'xa'), ('y0', 'yb')))
    k = min(k, 30 - cut)
    P['m'], P['n'] = (k, q) if draw(st.booleans()) else (q, k)
    return P


@sub('C14', 'all_terms', lambda: long_plate(2), 100, 800, rule='every case', explicit=lambda: sweeps(False))
def c14_long(P, note):
    c14(P, note)
    note('terms: %d-%d' % (max(P['m'], P['n']) // 10 * 10, max(P['m'], P['n']) // 10 * 10 + 9))


# ---------------------------------------------------------------- C15

@sub('C15', 'matrices', lambda: plate(max_m=3, proper=False, lam=st.one_of(laminate(6), laminate(5), lp_laminate())), 620, 5000,
     rule='unsymmetric laminate (B != 0)', nontrivial=lambda P: np.abs(ref_ABD(P['lam'])[1]).max() > 0,
     explicit=lambda: [dict(P, m=min(P['m'], 3), n=min(P['n'], 3)) for P in C14_EX])
def c15(P, note):
    pnote(P, note)
    A, B, D = ref_ABD(P['lam'])
    C = np.block([[A, B], [B, D]])
    bas = ref.basis(P['cons'], P['m'], P['n'])
    pl = build_plate(P)
    K, G = pl.calc_K_KG_ABD()
    W, t = ref.K_full(bas, C, P['a'], P['b'])
    # the coupling magnitudes: A*D bound, so that rounding of B of a symmetric layup is not judged
    h = height(P['lam'])
    C2 = np.block([[np.full((3, 3), np.abs(A).max()), np.full((3, 3), max(np.abs(B).max(), np.sqrt(np.abs(A).max() * np.abs(D).max())))],
                   [np.full((3, 3), max(np.abs(B).max(), np.sqrt(np.abs(A).max() * np.abs(D).max()))), D]])
    mag = ref.magnitude_full(bas, C2, P['a'], P['b'])
    compare_matrix(K, W, t, mag, 'K', ref.magnitude_full(bas, C2, P['a'], P['b'], True))
    K, G = arr(K), arr(G)
    d = np.sqrt(np.diag(mag))
    if (d == 0).any():  # laminate by bending parameters only: no membrane stiffness
        note('no membrane stiffness')
        q = P['m'] * P['n']
        close(K[:2 * q], np.zeros_like(K[:2 * q]), 0, 'membrane rows without membrane stiffness')
    else:
        symmetric_psd(K, mag, t, 'K')
    q = P['m'] * P['n']
    if G.shape != (3 * q, 3 * q):
        fail('KG has shape %s for %d terms', G.shape, q)
    if np.any(G[:2 * q]) or np.any(G[:, :2 * q]):
        fail('KG acts on u or v')
    check_KG(P, bas, G[2 * q:, 2 * q:], 'w block of KG')
    if np.abs(B).max() == 0 or np.abs(B).max() < 1e-14 * np.sqrt(np.abs(A).max() * np.abs(D).max()):
        note('B = 0')
        Kd, Gd = build_plate(P).calc_K_KG_D()
        close(K[2 * q:, 2 * q:], Kd, 1e-11 * mag[2 * q:, 2 * q:], 'w block of K against the bending stiffness')
        close(G[2 * q:, 2 * q:], Gd, 0, 'w block of KG against the bending one')
        close(K[:2 * q, 2 * q:], np.zeros((2 * q, q)), 1e-11 * mag[:2 * q, 2 * q:], 'coupling block of K for B = 0')


@sub('C15', 'all_terms', lambda: long_plate(1), 40, 400, rule='every case', explicit=lambda: sweeps(True))
def c15_long(P, note):
    c15(P, note)
    note('terms: %d-%d' % (max(P['m'], P['n']) // 10 * 10, max(P['m'], P['n']) // 10 * 10 + 9))


# ---------------------------------------------------------------- models with buckling factors

def model(P):
    """Reference K, KG, mu (ascending; factors are -1/mu); Skip if the model has no positive factor."""
    D = ref_ABD(P['lam'])[2]
    bas = ref.basis(P['cons'], P['m'], P['n'])
    K, t = ref.K_bending(bas, D, P['a'], P['b'])
    G, _ = ref.KG(bas, *P['N'], P['a'], P['b'])
    C = np.array([[P['N'][0], P['N'][2]], [P['N'][2], P['N'][1]]], float)
    mag = ref.magnitude({'w': bas['w']}, ['w'], [[('w', 1, 0, 1.0)], [('w', 0, 1, 1.0)]], C, P['a'], P['b'])
    if np.abs(G).max() <= 1e-9 * mag.max():
        raise Skip('the load does no work in the model')
    w = ref.mus(K, G)[0]
    s = np.abs(w).max()
    if w[0] > -1e-5 * s:
        raise Skip('no positive factor')
    # accuracy of the factors: that of the tables and of the arithmetic through the conditioning of K
    d = np.sqrt(np.diag(K))
    e = np.linalg.eigvalsh(K / np.outer(d, d))
    if not e[0] > 1e-11:
        raise Skip('nearly singular stiffness')
    acc = (np.linalg.norm(t / np.outer(d, d)) + 1e-13) / e[0]
    return K, G, w, s, acc


@st.composite
def buckling_plate(draw, max_m=4, min_terms=3, **kw):
    P = draw(plate(max_m=max_m, compressive=True, **kw))
    if P['N'][0] >= 0 and P['N'][1] >= 0:  # shear needs two terms in each direction
        P['m'], P['n'] = max(P['m'], 2), max(P['n'], 2)
    while P['m'] * P['n'] < min_terms:
        P['n' if P['m'] > 1 else 'm'] += 1
    return P


# ---------------------------------------------------------------- C20

@st.composite
def respell(draw, held):
    """One of the ways to write the supports `held` (per edge a list of freedoms)."""
    how = draw(st.sampled_from(['list', 'list', 'name', 'mixed', 'shortcut', 'repeat']))
    cls = {frozenset(v): [k for k in ref.NAMES if ref.NAMES[k] == v] for v in ref.NAMES.values()}
    if how == 'shortcut':
        s = {frozenset(h) for h in held.values()}
        if s == {frozenset(ref.NAMES['pinned'])}:
            return draw(st.sampled_from([None, 'PINNED']))
        if s == {frozenset(ref.NAMES['clamped'])}:
            return 'CLAMPED'
        how = 'list'
    if how == 'mixed' or how == 'name' and all(frozenset(h) in cls for h in held.values()):
        out = {}
        for e in draw(st.permutations(list(ref.EDGES))):
            if frozenset(held[e]) not in cls or how == 'mixed' and draw(st.booleans()):
                out[e] = draw(st.permutations(sorted(held[e])))
                continue
            nme = draw(st.sampled_from(cls[frozenset(held[e])]))
            w = draw(st.integers(0, 3))
            if w == 0:
                nme = nme.upper()
            elif w == 1:
                nme = nme.title()
            elif w == 2:
                nme = ''.join(ch.upper() if draw(st.booleans()) else ch for ch in nme)
            out[e] = nme
        return out
    return {e: draw(st.permutations(sorted(held[e]))) for e in draw(st.permutations(list(ref.EDGES)))}


@st.composite
def c20_case(draw):
    cls = draw(st.sampled_from(['names', 'lists', 'all_same']))
    if cls == 'names':
        held = {e: ref.NAMES[draw(st.sampled_from(['free', 'pinned', 'clamped']))] for e in ref.EDGES}
    elif cls == 'all_same':
        v = ref.NAMES[draw(st.sampled_from(['pinned', 'clamped', 'free']))]
        held = {e: v for e in ref.EDGES}
    else:
        held = {e: draw(edge_list()) for e in ref.EDGES}
    sp = [draw(respell(held)) for _ in range(2)]
    return dict(held=held, spell=sp, m=draw(st.integers(1, 3)), n=draw(st.integers(1, 3)), lam=draw(st.sampled_from(MIX + [ALLC])),
                a=draw(side()), b=draw(side()), N=draw(plane_loads()))


def singles():
    """Every freedom alone on every edge, and its absence alone."""
    out = []
    for e in ref.EDGES:
        for f in gen.FREE6:
            out.append(sup(**{e: [f]}))
            full = {x: list(gen.FREE6) for x in ref.EDGES}
            full[e] = [g for g in gen.FREE6 if g != f]
            out.append(full)
    for k in ('pinned', 'clamped', 'simply_supported', 'fixed', 'free'):
        out.append({e: list(ref.NAMES[k]) for e in ref.EDGES})
        for e in ref.EDGES:
            out.append({x: list(ref.NAMES[k if x == e else 'free']) for x in ref.EDGES})
    return out


def c20_explicit():
    res = []
    for i, h in enumerate(singles()):
        res.append(dict(held=h, spell=[h, {e: h[e][::-1] for e in ref.EDGES}], m=2 + i % 2, n=3 - i % 2, lam=ALLC, a=10.0, b=7.0, N=[-1, 2, 0.5]))
    P, C = (dict((e, ref.NAMES[k]) for e in ref.EDGES) for k in ('pinned', 'clamped'))
    for h, sp in ((P, [None, 'PINNED']), (P, ['PINNED', {e: 'simply_supported' for e in ref.EDGES}]), (C, ['CLAMPED', {e: 'fixed' for e in ref.EDGES}]),
                  (C, ['CLAMPED', {e: 'Clamped' for e in ref.EDGES}]), (P, [{e: 'PINNED' for e in ref.EDGES}, {e: 'Simply_Supported' for e in ref.EDGES}])):
        res.append(dict(held=h, spell=sp, m=2, n=3, lam=ALLC, a=10.0, b=7.0, N=[-1, 2, 0.5]))
    names = ['free', 'pinned', 'simply_supported', 'clamped', 'fixed']
    for k in names:
        for e in ref.EDGES:
            h = {x: list(ref.NAMES[k]) if x == e else ['TZ', 'RX'] for x in ref.EDGES}
            g = {x: list(ref.NAMES['pinned' if x == e else k]) for x in ref.EDGES}
            res.append(dict(held=h, spell=[dict(h, **{e: k})], m=2, n=2, lam=ALLC, a=10.0, b=7.0, N=[-1, 2, 0.5]))
            res.append(dict(held=g, spell=[{x: g[x] if x == e else k for x in ref.EDGES}], m=2, n=2, lam=ALLC, a=10.0, b=7.0, N=[-1, 2, 0.5]))
    for i in range(5):
        for e in ref.EDGES:
            nm = {x: names[(i + j) % 5] for j, x in enumerate(ref.EDGES)}
            res.append(dict(held={x: ref.NAMES[nm[x]] for x in ref.EDGES}, spell=[nm, {x: (v.upper() if x == e else v) for x, v in nm.items()}],
                            m=2, n=2, lam=ALLC, a=10.0, b=7.0, N=[-1, 2, 0.5]))
    return res


@sub('C20', 'model', c20_case, 750, 5000, rule='the four edges are not all supported alike',
     nontrivial=lambda c: len({frozenset(v) for v in c['held'].values()}) > 1, explicit=c20_explicit)
def c20(c, note):
    A, B, D = ref_ABD(c['lam'])
    C = np.block([[A, B], [B, D]])
    bas = ref.basis(c['held'], c['m'], c['n'])
    W, t = ref.K_full(bas, C, c['a'], c['b'])
    C2 = np.abs(C) + np.kron([[0, 1], [1, 0]], np.full((3, 3), np.sqrt(np.abs(A).max() * np.abs(D).max())))
    mag = ref.magnitude_full(bas, C2, c['a'], c['b'])
    Gw, _ = ref.KG(bas, *c['N'], c['a'], c['b'])
    for i, sp in enumerate(c['spell']):
        note('spelled as %s' % ('default' if sp is None else sp if isinstance(sp, str) else 'names' if all(isinstance(v, str) for v in sp.values()) else 'both' if any(isinstance(v, str) for v in sp.values()) else 'lists'))
        P = dict(lam=c['lam'], a=c['a'], b=c['b'], cons=copy.deepcopy(sp), N=c['N'], m=c['m'], n=c['n'])
        pl = build_plate(P)
        if i == 0:
            K, G = pl.calc_K_KG_ABD()
            compare_matrix(K, W, t, mag, 'K for %s' % (sp,))
            check_KG(P, bas, arr(G)[-len(Gw):, -len(Gw):], 'KG for %s' % (sp,))
        K, G = pl.calc_K_KG_D()
        q = len(Gw)
        compare_matrix(K, W[2 * q:, 2 * q:], t[2 * q:, 2 * q:], mag[2 * q:, 2 * q:], 'bending K for %s' % (sp,))
        if P['cons'] != sp:
            fail('the supports were changed from %s to %s', sp, P['cons'])


@st.composite
def bad_name(draw):
    nm = {e: draw(st.sampled_from(list(ref.NAMES))) for e in ref.EDGES}
    e = draw(st.sampled_from(list(ref.EDGES)))
    w = draw(st.one_of(st.sampled_from(['', 'clamp', 'pin', 'hinged', 'FREEE', 'simply supported', 'simply-supported', 'clamped ', 'none', 'TZ', 'TX']),
                       st.text(alphabet='abcdefilmnprsupxyz_', max_size=10)))
    if w.lower() in ref.NAMES:
        w = w + 'x'
    nm[e] = w
    for x in ref.EDGES:
        if x != e and draw(st.integers(0, 5)) == 0:
            nm[x] = draw(edge_list())
    return dict(cons=nm, whole=draw(st.integers(0, 5)) == 0)


@sub('C20', 'unknown', bad_name, 360, 2000, rule='every case', explicit=[dict(cons={e: ('clampd' if e == f else 'pinned') for e in ref.EDGES}, whole=False) for f in ref.EDGES])
def c20_unknown(c, note):
    cons = c['cons'] if not c['whole'] else 'HINGED'
    try:
        p = build_plate(dict(lam=MIX[1], a=10.0, b=10.0, cons=cons, N=[-1, 0, 0], m=2, n=2))
        p.calc_K_KG_D()
    except Exception:
        return
    fail('unknown supports %s were accepted', cons)


# ---------------------------------------------------------------- plotting

class Capture:
    """Records what plot_eigenvalue draws."""

    def __enter__(self):
        import matplotlib
        import matplotlib.pyplot as plt
        from mpl_toolkits.mplot3d import Axes3D
        self.surf, self.shown = [], 0
        self._o = (Axes3D.plot_surface, plt.show)
        cap = self

        def plot_surface(ax, X, Y, Z, *a, **k):
            cap.surf.append((np.array(X, float), np.array(Y, float), np.array(Z, float)))
            return None

        def show(*a, **k):
            cap.shown += 1
        Axes3D.plot_surface, plt.show = plot_surface, show
        return self

    def __exit__(self, *a):
        import matplotlib.pyplot as plt
        from mpl_toolkits.mplot3d import Axes3D
        Axes3D.plot_surface, plt.show = self._o
        plt.close('all')


def surface(pl, *a, **k):
    """(x, y, Z[iy, ix]) of the plotted surface."""
    with Capture() as c:
        pl.plot_eigenvalue(*a, **k)
    if len(c.surf) != 1:
        fail('%d surfaces were plotted', len(c.surf))
    X, Y, Z = c.surf[0]
    if not (X.shape == Y.shape == Z.shape and X.ndim == 2):
        fail('the plotted arrays have shapes %s, %s, %s', X.shape, Y.shape, Z.shape)
    if np.ptp(X, axis=0).max() > 0 and not np.ptp(X, axis=1).max() > 0:  # x along the first index
        X, Y, Z = X.T, Y.T, Z.T
    if np.ptp(X, axis=0).max() > 0 or np.ptp(Y, axis=1).max() > 0:
        fail('the plotted points are no rectangular grid')
    return X[0], Y[:, 0], Z


@st.composite
def c21_case(draw):
    P = draw(buckling_plate(4))
    k = P['m'] * P['n'] - 2
    num = draw(st.one_of(st.none(), st.integers(1, 7)))
    got = min(5 if num is None else num, k)
    return dict(P=P, num=num, nth=draw(st.integers(0, got - 1)), gx=draw(st.integers(2, 9)), gy=draw(st.integers(2, 9)),
                pre=draw(st.sampled_from(['none', 'none', 'run', 'run', 'abd', 'plot', 'again'])), first=draw(st.integers(1, 7)))


def check_surface(P, vec, x, y, Z, gx, gy, what):
    if Z.shape != (gy, gx):
        fail('%s: surface has %d x %d points (x, y) instead of %d x %d', what, Z.shape[1], Z.shape[0], gx, gy)
    close(x, np.linspace(0, P['a'], gx), 1e-12 * P['a'], what + ': x of the grid')
    close(y, np.linspace(0, P['b'], gy), 1e-12 * P['b'], what + ': y of the grid')
    bas = ref.basis(P['cons'], P['m'], P['n'])
    W = ref.deflection(bas, vec, np.linspace(-1, 1, gx), np.linspace(-1, 1, gy))
    # error scale: sum of |coefficients| times function magnitudes
    wx, wy = bas['w']
    xs = np.linspace(-1, 1, 41)
    FX, FY = (np.array([np.abs(ref.bardell(i, xs)).max() for i in ix]) for ix in (wx, wy))
    eX, eY = (np.array([4e-16 * 2.5 ** i for i in ix]) for ix in (wx, wy))  # cancellation of the monomials
    C = np.abs(np.asarray(vec)).reshape(len(wx), len(wy))
    tol = 1e-11 * (FX @ C @ FY) + (eX @ C @ FY) + (FX @ C @ eY)
    s = float(np.sum(Z * W)) / max(float(np.sum(W * W)), 1e-300)  # amplitude
    if np.abs(W).max() > 1e3 * tol:
        if not np.isfinite(s) or s == 0:
            fail('%s: the surface is unrelated to the mode (heights up to %r)', what, float(np.abs(Z).max()))
        close(Z, s * W, (1 + abs(s)) * tol, what + ': heights')
    return s


C21P = dict(lam=ALLC, a=30.0, b=20.0, cons=dict(x0='clamped', xa='free', y0='pinned', yb='free'), N=[-1, 0, 0.5], m=3, n=4)


@sub('C21', 'surface', c21_case, 440, 4000, rule='grid or numbers of terms differ in the two directions', nontrivial=lambda c: c['gx'] != c['gy'] or c['P']['m'] != c['P']['n'],
     explicit=[dict(P=C21P, num=None, nth=i, gx=gx, gy=gy, pre=p) for i in (0, 4) for gx, gy in ((4, 7), (7, 3)) for p in ('none', 'run', 'abd', 'again')])
def c21(c, note):
    P = c['P']
    pnote(P, note)
    model(P)
    pl = build_plate(P)
    kw = {} if c['num'] is None else dict(num_eigvalues=c['num'])
    note('before plotting: ' + c['pre'])
    if c['pre'] == 'again':  # an earlier analysis, with another number of factors
        pl.buckling_analysis(num_eigvalues=c.get('first', 7))
    if c['pre'] in ('run', 'abd', 'again') or c['num'] is not None:
        ev, vecs = pl.buckling_analysis(**kw)
        if not np.array_equal(pl.eigenvalue, ev) or not np.array_equal(pl.eigenvector, vecs):
            fail('the factors and modes kept are not those that the analysis returned')
        vec = np.array(vecs)[:, c['nth']].copy()
        if c['pre'] == 'abd':
            pl.calc_K_KG_ABD()
    else:
        vec = None
        if c['pre'] == 'plot':
            surface(pl, 0, 3, 2)
    x, y, Z = surface(pl, c['nth'], c['gx'], c['gy'])
    if vec is None:
        if pl.eigenvector is None:
            fail('plotting did not run the analysis')
        vec = np.array(pl.eigenvector)[:, c['nth']]
        # it must be a mode: the analysis was run by the plot itself
        D = ref_ABD(P['lam'])[2]
        bas = ref.basis(P['cons'], P['m'], P['n'])
        K, _ = ref.K_bending(bas, D, P['a'], P['b'])
        G, _ = ref.KG(bas, *P['N'], P['a'], P['b'])
        lam = float(np.array(pl.eigenvalue)[c['nth']])
        sc = np.sqrt(abs(vec @ K @ vec))
        if not sc > 0:
            fail('the mode is zero')
        s = np.linalg.norm(np.linalg.solve(np.linalg.cholesky(K), K @ vec + lam * G @ vec)) / sc
        if not s < 1e-4 * (1 + abs(lam) * np.abs(scipy_mu(K, G)).max()):
            fail('the plotted mode %d is no buckling mode: residual %r', c['nth'], s)
    check_surface(P, vec, x, y, Z, c['gx'], c['gy'], 'mode %d on %d x %d' % (c['nth'], c['gx'], c['gy']))
    x2, y2, Z2 = surface(pl, nth=c['nth'], ngridx=c['gy'], ngridy=c['gx'])
    check_surface(P, vec, x2, y2, Z2, c['gy'], c['gx'], 'mode %d plotted again' % c['nth'])


def scipy_mu(K, G):
    return ref.mus(K, G)[0]


@st.composite
def c21_long(draw):
    cons = draw(supported_supports([5, 6, 3]))
    k = draw(st.integers(5, 26))
    P = dict(lam=draw(laminate(4, mixed=False)), a=draw(side()), b=draw(side()), cons=cons, N=draw(plane_loads(True)))
    P['m'], P['n'] = (k, draw(st.integers(1, 2)))
    if draw(st.booleans()):
        P['m'], P['n'] = P['n'], P['m']
    if P['N'][0] >= 0 and P['N'][1] >= 0:
        P['m'], P['n'] = max(P['m'], 2), max(P['n'], 2)
    return dict(P=P, gx=draw(st.integers(2, 5)), gy=draw(st.integers(2, 5)), nth=draw(st.integers(0, 2)))


@sub('C21', 'all_terms', c21_long, 60, 600, rule='every case',
     explicit=[dict(P=dict(C21P, m=m, n=n), gx=6, gy=5, nth=k) for (m, n) in ((26, 2), (2, 26), (9, 9)) for k in (0, 4)],
     explicit_thorough=[dict(P=dict(C21P, m=18, n=18), gx=6, gy=5, nth=k) for k in (0, 4)])
def c21_l(c, note):
    P = c['P']
    model(P)
    pl = build_plate(P)
    ev, vecs = pl.buckling_analysis()
    vec = np.array(vecs)[:, c['nth']].copy()
    x, y, Z = surface(pl, c['nth'], c['gx'], c['gy'])
    check_surface(P, vec, x, y, Z, c['gx'], c['gy'], 'mode %d' % c['nth'])
    note('terms: %d-%d' % (max(P['m'], P['n']) // 10 * 10, max(P['m'], P['n']) // 10 * 10 + 9))


@sub('C21', 'functions', lambda: st.fixed_dictionaries(dict(i=st.integers(0, 29), j=st.integers(0, 29), xi=nice(-1, 1), eta=nice(-1, 1))), 3000, 20000,
     rule='a pair of functions of index >= 4', nontrivial=lambda c: c['i'] > 3 and c['j'] > 3,
     explicit=[dict(i=i, j=j, xi=0.83, eta=-0.91) for i in range(30) for j in range(30)])
def c21_functions(c, note):
    """The tabulated products of shape functions that the plot evaluates (skipped if the code no longer has them)."""
    try:
        from composipy.pre_integrated_component.functions import sxieta
        v = float(np.asarray(sxieta([(c['i'], c['j'])], c['xi'], c['eta'])).reshape(-1)[0])
    except Exception:
        raise Skip('no table of products')
    fx, fy = ref.bardell(c['i'], c['xi']), ref.bardell(c['j'], c['eta'])
    mx, my = (np.abs(ref.bardell(i, np.linspace(-1, 1, 101))).max() for i in (c['i'], c['j']))
    close(v, fx * fy, 1e-12 * mx * my + 4e-16 * (2.5 ** c['i'] * my + 2.5 ** c['j'] * mx), 'product of functions %d and %d' % (c['i'], c['j']))


# edges of the plotted modes: TZ holds the deflection, RZ the slope across the edge

@st.composite
def c20_modes(draw):
    P = draw(buckling_plate(3, lam=laminate(4, mixed=False)))
    return dict(P=P, nth=draw(st.integers(0, min(5, P['m'] * P['n'] - 2) - 1)))


def edge_slope(x, Z):
    """Derivatives along the last axis at both ends, exact for polynomials of degree < len(x)."""
    t = (x - x[0]) / (x[-1] - x[0]) * 2 - 1
    V = np.vander(t, increasing=True)
    c = np.linalg.solve(V, Z.T)
    k = np.arange(len(t))
    dl = (k[1:] * (-1.0) ** (k[1:] - 1)) @ c[1:]
    dr = k[1:] @ c[1:]
    return dl, dr


@sub('C20', 'modes', c20_modes, 360, 2500, rule='edges not all supported alike',
     nontrivial=lambda c: len({frozenset(v) for v in ref.freedoms(c['P']['cons']).values()}) > 1)
def c20_m(c, note):
    P = c['P']
    pnote(P, note)
    model(P)
    pl = build_plate(P)
    g = 10  # degrees are at most 6
    x, y, Z = surface(pl, c['nth'], g, g)
    A = np.abs(Z).max()
    if not A > 0:
        fail('the plotted mode is zero')
    f = ref.freedoms(P['cons'])
    lines = dict(x0=Z[:, 0], xa=Z[:, -1], y0=Z[0], yb=Z[-1])
    sx, sy = edge_slope(x, Z), edge_slope(y, Z.T)
    slope = dict(x0=sx[0], xa=sx[1], y0=sy[0], yb=sy[1])
    for e in ref.EDGES:
        if 'TZ' in f[e] and np.abs(lines[e]).max() > 1e-9 * A:
            fail('mode %d moves by %r of its amplitude on edge %s, which holds TZ', c['nth'], np.abs(lines[e]).max() / A, e)
        if 'RZ' in f[e] and np.abs(slope[e]).max() > 1e-7 * A:
            fail('mode %d turns by %r on edge %s, which holds RZ', c['nth'], np.abs(slope[e]).max() / A, e)
        if 'TZ' not in f[e] and np.abs(lines[e]).max() > 1e-3 * A:
            note('moves on a free edge')
        if 'RZ' not in f[e] and np.abs(slope[e]).max() > 1e-3 * A:
            note('turns on an edge')


# ---------------------------------------------------------------- C28

@st.composite
def c28_case(draw):
    L = draw(laminate(6, one_material=True, scalar=True, symmetric=draw(st.booleans()), big=False))
    if draw(st.integers(0, 4)) == 0:  # plies in pairs at right angles, as far from the midplane: the first two parameters vanish
        L['angles'] = L['angles'] + [x + 90 for x in L['angles'][::-1]]
        L['ply'] = [0] * len(L['angles'])
    P = draw(buckling_plate(4, lam=st.just(L)))
    return dict(P=P, snap=draw(st.booleans()), xiA=draw(st.one_of(st.none(), st.just('own'), st.lists(nice(-1, 1), min_size=4, max_size=4))), T=draw(st.just(1)), ply=draw(st.sampled_from([1, 1, 0.3, 0.77, 2.6, 10])))


@sub('C28', 'plates', c28_case, 640, 3000, rule='D16 or D26 is not zero, or the layup is not symmetric',
     nontrivial=lambda c: np.abs(ref_ABD(c['P']['lam'])[2][:2, 2]).max() > 1e-6 * np.abs(ref_ABD(c['P']['lam'])[2]).max(),
     explicit=[dict(P=dict(C21P, lam=L, cons=cc), xiA=x, T=1) for L in (MIX[1], MIX[2], dict(angles=[45, -45, -45, 45], mats=[gen.TYPICAL[2]], ply=[0] * 4, scalar=True))
               for cc in ('PINNED', C21P['cons']) for x in (None, 'own', [1, 1, 1, 1])]
     + [dict(P=dict(C21P, lam=dict(angles=t, mats=[gen.TYPICAL[0]], ply=[0] * len(t), scalar=True)), xiA=None, T=1, snap=True)
        for t in ([0], [90], [45], [-45], [22.5, 112.5], [-22.5, 67.5], [30, -30, 60, -60, 30, -30, 60, -60], [0, 90], [22.5, -22.5, 67.5, -67.5])])
def c28(c, note):
    P = c['P']
    L = P['lam']
    pnote(P, note)
    K, G, w, s, acc = model(P)
    src = build_lam(L)
    T = height(L)
    d = dict(xiD=[float(v) for v in src.xiD], T=T)
    if c.get('snap'):  # without the rounding, so that zeros and ones are exact
        d['xiD'] = [round(v, 13) + 0.0 for v in d['xiD']]
        note('%d zeros' % d['xiD'].count(0.0))
    if c['xiA'] == 'own':
        d['xiA'] = [float(v) for v in src.xiA]
    elif c['xiA'] is not None:
        d['xiA'] = c['xiA']
    note('xiA: %s' % ('none' if c['xiA'] is None else 'own' if c['xiA'] == 'own' else 'other'))
    lp = LaminateProperty(d, build_mat(dict(L['mats'][0], thickness=L['mats'][0]['thickness'] * c.get('ply', 1))))
    p1, p2 = build_plate(P, src), build_plate(P, lp)
    (K1, G1), (K2, G2) = p1.calc_K_KG_D(), p2.calc_K_KG_D()
    bas = ref.basis(P['cons'], P['m'], P['n'])
    mag = ref.magnitude_bending(bas, ref_ABD(L)[2], P['a'], P['b'])
    close(K2, K1, 1e-10 * mag, 'K from parameters against K from the layup')
    close(G2, G1, 0, 'KG from parameters against KG from the layup')
    e1, e2 = arr(p1.buckling_analysis()[0]), arr(p2.buckling_analysis()[0])
    if e1.shape != e2.shape:
        fail('%d and %d buckling factors', len(e1), len(e2))
    m1, m2 = -1 / e1, -1 / e2
    k = (m1 < -1e-7 * s) & (m2 < -1e-7 * s)
    close(m2[k], m1[k], 1e-7 * s, 'inverse buckling factors from parameters')
    close(m1[0], w[0], 1e-7 * s, 'inverse of the first buckling factor')
