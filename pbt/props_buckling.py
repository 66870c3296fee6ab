"""C16 eigenpairs, C17 scaling, C18 symmetries, C19 convergence and stiffening."""
import copy
import numpy as np
from hypothesis import strategies as st

from .core import sub, Skip
from .gen import *
from . import ref, gen
from .props_plate import ALLC, MIX, FREE, buckling_plate, model, pnote, C21P
from .props_laminate import describe

TOL = 1e-8


def factors(P, k=None, lam=None, **kw):
    pl = build_plate(P, lam)
    ev, vec = pl.buckling_analysis(**(dict(num_eigvalues=k) if k is not None else {}), **kw)
    return arr(ev), arr(vec), pl


def scale_note(ev, note):
    f = abs(ev[0])
    note('first factor %s' % ('< 0.01' if f < 0.01 else '0.01-1' if f < 1 else '1-100' if f < 100 else '> 100'))


# ---------------------------------------------------------------- C16

@st.composite
def c16_case(draw, max_m=5, **kw):
    P = draw(buckling_plate(max_m, **kw))
    # loads of any magnitude, so that the factors are far below and far above 1
    f = draw(st.one_of(st.just(1), st.just(1), logfloat(1e-6, 1e9)))
    P['N'] = [sig(x * f, 6) for x in P['N']]
    return dict(P=P, k=draw(st.one_of(st.none(), st.integers(1, 10))), silent=draw(st.sampled_from([None, True, True, False])))


C16_EX = [dict(P=dict(C21P, N=N), k=k, silent=s) for N in ([-1, 0, 0], [-1000, 0, 0], [-1e6, 2e5, 0], [0, -1e-4, 1e-4], [0, 0, 500], [1000, -1000, 30])
          for k, s in ((None, None), (2, True), (9, False), (10, True), (25, True))]
C16_EX += [dict(P=dict(lam=L, a=100.0, b=b, cons=c, N=N, m=4, n=4), k=k, silent=True) for L in (MIX[1], dict(angles=[0], mats=[dict(kind='iso', e=70000., v=0.3, g=26923.076923, thickness=1.)], ply=[0], scalar=True))
           for b in (100.0, 50.0) for c in ('PINNED', 'CLAMPED') for N in ([-1, -1, 0], [-2000, 0, 0], [0, 0, 3000]) for k in (1, 4)]


@sub('C16', 'eigenpairs', c16_case, 1200, 8000, rule='unequal supports or shear or a first factor below 1',
     nontrivial=lambda c: c['P']['N'][2] != 0 or len({frozenset(v) for v in ref.freedoms(c['P']['cons']).values()}) > 1 or max(map(abs, c['P']['N'])) > 1,
     explicit=C16_EX)
def c16(c, note):
    P = c['P']
    pnote(P, note)
    K, G, w, s, acc = model(P)
    ev, vec, pl = factors(P, c['k'], **({} if c['silent'] is None else dict(silent=c['silent'])))
    scale_note(ev, note)
    N = P['m'] * P['n']
    k = 5 if c['k'] is None else c['k']
    if ev.ndim != 1 or vec.shape != (N, len(ev)):
        fail('shapes of the result: %s and %s for %d terms', ev.shape, vec.shape, N)
    if len(ev) > k or (len(ev) < k and len(ev) < N - 2) or len(ev) < 1:
        fail('%d factors returned, %d requested, %d terms', len(ev), k, N)
    note('fewer than requested' if len(ev) < k else 'as many as requested')
    if np.isnan(ev).any() or np.isnan(vec).any():
        fail('not a number in the result: %s', ev)
    with np.errstate(divide='ignore'):
        mu = -1 / ev
    tol = TOL * s + 50 * acc * s
    # residuals K v + factor KG v, in the form KG v - mu K v, measured in the norm of K^-1
    Lc = np.linalg.cholesky(K)
    for i in range(len(ev)):
        v = vec[:, i]
        nv = np.sqrt(v @ K @ v)
        if not nv > 0:
            fail('mode %d is zero', i)
        r = np.linalg.norm(np.linalg.solve(Lc, G @ v - mu[i] * (K @ v))) / nv
        if not r <= 10 * tol:
            fail('mode %d does not satisfy K v + %r KG v = 0 (relative residual %r)', i, ev[i], r / s)
    # the positive factors: first, ascending, none skipped
    pos = mu[(ev > 0) & (mu < -1e-6 * s)]
    want = w[w < -1e-6 * s][:len(ev)]
    if len(pos) < len(want) - np.sum(np.abs(want + 1e-6 * s) < 1e-7 * s):
        fail('factors %s, expected the positive ones %s', ev, -1 / want)
    if not ev[0] > 0:
        fail('the first factor is %r', ev[0])
    close(mu[0], w[0], tol, 'inverse of the first factor (factor %r instead of %r)' % (ev[0], -1 / w[0]))
    q = min(len(pos), len(want))
    close(pos[:q], want[:q], tol, 'inverse of the positive factors %s' % ev)
    p = ev[ev > 0]
    p = p[1 / p > 1e-6 * s]
    if len(p) > 1 and np.any(np.diff(-1 / p) < -tol):
        fail('the positive factors are not ascending: %s', ev)
    if not np.array_equal(arr(pl.eigenvalue), ev) or not np.array_equal(arr(pl.eigenvector), vec):
        fail('the plate keeps other results than it returned')
    if np.any(ev < 0):
        note('negative factors among the requested')


@sub('C16', 'large', lambda: c16_case(9), 70, 400, rule='at least 30 terms', nontrivial=lambda c: c['P']['m'] * c['P']['n'] >= 30,
     explicit=[dict(P=dict(C21P, m=m, n=n, N=N), k=k, silent=True) for m, n, N, k in ((10, 10, [-500, 0, 100], 8), (9, 6, [0, -3, 1], 20), (5, 12, [-0.001, 0, 0], 5))])
def c16_large(c, note):
    c16(c, note)


@st.composite
def slender(draw, lo=8, hi=22, shear=True):
    """Long plates, modelled with many terms along them and few across."""
    L = draw(laminate(5, big=False))
    b = sig(draw(logfloat(0.1, 1000)), 3)
    long, short, r = draw(st.integers(lo, hi)), draw(st.integers(1, 3)), draw(st.floats(3, 9))
    N = [-1.0, draw(st.sampled_from([0.0, 0.0, -0.05, 0.1])), draw(st.sampled_from([0.0, 0.3])) if shear and short > 1 else 0.0]
    P = dict(lam=L, a=sig(b * r, 3), b=b, N=N, m=long, n=short,
             cons=make_supported({e: draw(st.sampled_from(['pinned', 'pinned', 'clamped', 'free'] if e in ('x0', 'xa', 'yb') else ['pinned', 'clamped'])) for e in ref.EDGES}))
    if draw(st.booleans()):
        P.update(a=P['b'], b=P['a'], m=short, n=long, N=[N[1], N[0], N[2]], cons={k: P['cons'][SWAP[k]] for k in P['cons']} if isinstance(P['cons'], dict) else P['cons'])
    return P


@sub('C16', 'slender', lambda: slender().map(lambda P: dict(P=P, k=6, silent=True)), 60, 500, rule='every case',
     explicit=[dict(P=dict(C21P, a=a, b=b, m=m, n=n, N=N), k=5, silent=True) for a, b, m, n, N in ((550., 50., 20, 2, [-1, 0, 0]), (50., 400., 3, 17, [0, -1, 0]), (600., 80., 26, 1, [-1, 0, 0]), (90., 500., 2, 24, [0, -1, .2]))])
def c16_slender(c, note):
    note('%d terms along the plate' % (max(c['P']['m'], c['P']['n']) // 5 * 5))
    c16(c, note)


@st.composite
def clustered(draw):
    """Plates pulled in one direction and pressed in the other: few positive factors, and more requested, among the many negative
    ones close to each other."""
    L = draw(laminate(3, big=False))
    b = draw(logfloat(0.1, 10))
    N = [draw(st.sampled_from([1.0, 0.6, 0.3])), -sig(draw(st.floats(0.1, 1)), 3), draw(st.sampled_from([0.0, 0.0, 0.2, -0.7]))]
    if draw(st.booleans()):
        N = [N[1], N[0], N[2]]
    cons = make_supported({e: draw(st.sampled_from(['pinned', 'clamped', 'free'])) for e in ref.EDGES})
    return dict(P=dict(lam=L, a=1.0, b=sig(b, 3), N=N, m=draw(st.integers(6, 11)), n=draw(st.integers(6, 9)), cons=cons), k=draw(st.sampled_from([None, None, 8, 12])), silent=True)


@sub('C16', 'clustered', clustered, 40, 300, rule='every case',
     explicit=[dict(P=dict(lam=dict(angles=[-85.97], mats=[dict(kind='ortho', e1=5257.0, e2=29518.1, g12=5257.0, v12=0.0, thickness=0.3)], ply=[0], scalar=True),
                           a=1.0, b=3.236, N=N, m=9, n=6, cons=dict(x0='Fixed', xa='free', y0='pinned', yb='pinned')), k=None, silent=True)
               for N in ([0.4, -0.132, 0.0], [0.4, -0.132, 0.05], [-0.132, 0.4, 0.0], [400.0, -132.0, 0.0])])
def c16_clustered(c, note):
    note('%d terms' % (c['P']['m'] * c['P']['n'] // 20 * 20))
    c16(c, note)


# ---------------------------------------------------------------- comparing two analyses

def compare(ev0, ev1, conv, s, tol, what):
    """Positive factors of two analyses; conv(ev1) is on the scale of ev0. s: largest |1/factor| of the first model."""
    m0, m1 = -1 / ev0, -1 / conv(ev1)
    lim = -1e-5 * s
    a, b = m0[m0 < lim], m1[m1 < lim]
    q = min(len(a), len(b))
    if q == 0 or max(len(a), len(b)) > q + np.sum(np.abs(m0 - lim) < 1e-6 * s) + np.sum(np.abs(m1 - lim) < 1e-6 * s):
        if len(m0) == len(m1):
            fail('%s: factors %s against %s', what, ev0, conv(ev1))
    if q == 0:
        fail('%s: factors %s against %s', what, ev0, conv(ev1))
    if np.abs(a[:q] - b[:q]).max() > tol:
        fail('%s: factors %s against %s', what, -1 / a[:q], -1 / b[:q])


# ---------------------------------------------------------------- C17

@st.composite
def c17_case(draw):
    P = draw(buckling_plate(4))
    return dict(P=P, c=draw(logfloat(1e-4, 1e4)), what=draw(st.sampled_from(['loads', 'moduli', 'thickness', 'size'])), k=draw(st.integers(1, 6)))


C17_EX = [dict(P=dict(C21P, N=[-1, 0.3, 0.5]), c=c, what=w, k=4) for c in (0.001, 3.0, 2500.0) for w in ('loads', 'moduli', 'thickness', 'size')]


@sub('C17', 'scaling', c17_case, 1200, 6000, rule='scale other than 1', nontrivial=lambda c: abs(c['c'] - 1) > 0.01, explicit=C17_EX)
def c17(c, note):
    P, f, what = c['P'], c['c'], c['what']
    pnote(P, note)
    note(what)
    K, G, w, s, acc = model(P)
    ev, vec, _ = factors(P, c['k'])
    R = copy.deepcopy(P)
    if what == 'loads':
        R['N'] = [x * f for x in P['N']]
        conv = lambda e: e * f
    elif what == 'moduli':
        for m in R['lam']['mats']:
            for k in ('e1', 'e2', 'g12', 'e', 'g'):
                if k in m:
                    m[k] *= f
        conv = lambda e: e / f
    elif what == 'thickness':
        f = f ** 0.5 if f > 100 or f < 0.01 else f
        for m in R['lam']['mats']:
            m['thickness'] *= f
        if 'T' in R['lam']:
            R['lam']['T'] *= f
        conv = lambda e: e / f ** 3
    else:
        R['a'], R['b'] = P['a'] * f, P['b'] * f
        conv = lambda e: e * f ** 2
    ev2, vec2, _ = factors(R, c['k'])
    if len(ev) != len(ev2):
        fail('%d and %d factors', len(ev), len(ev2))
    compare(ev, ev2, conv, s, (TOL + 50 * acc) * s, '%s times %r' % (what, f))


# ---------------------------------------------------------------- C18

def tr_lam(L, what):
    L = copy.deepcopy(L)
    if 'xiD' in L:
        for k in ('xiA', 'xiD'):
            if k in L:
                x = L[k]
                L[k] = {'swap': [-x[0], x[1], x[2], -x[3]], 'neg': [x[0], -x[1], x[2], -x[3]]}[what]
        return L
    L['angles'] = [90 - t if what == 'swap' else -t for t in L['angles']]
    return L


def tr_edges(cons, mp, rename=None):
    """Supports with the edges exchanged: new[e] = old[mp[e]]; rename exchanges the freedoms' axes."""
    f = {e: sorted(v) for e, v in ref.freedoms(cons).items()}
    ren = rename or {}
    return {e: [ren.get(x, x) for x in f[mp[e]]] for e in ref.EDGES}


SWAP = dict(x0='y0', xa='yb', y0='x0', yb='xa')
XY = dict(TX='TY', TY='TX', RX='RY', RY='RX')
MX = dict(x0='xa', xa='x0', y0='y0', yb='yb')
MY = dict(x0='x0', xa='xa', y0='yb', yb='y0')
TURN = dict(x0='xa', xa='x0', y0='yb', yb='y0')


def special(L):
    """D16 = D26 = 0."""
    D = ref_ABD(L)[2]
    return np.abs(D[:2, 2]).max() <= 1e-13 * np.abs(D).max()


@st.composite
def crossply(draw):
    L = draw(laminate(6, big=False))
    if draw(st.booleans()):  # angle plies of one material arranged so that D16 = D26 = 0: antisymmetric
        L['angles'] = L['angles'] + [-t for t in L['angles'][::-1]]
        L['ply'] = L['ply'] + L['ply'][::-1]
    else:
        L['angles'] = [90 * (int(abs(t)) % 2) for t in L['angles']]
    return L


@st.composite
def c18_case(draw):
    what = draw(st.sampled_from(['swap', 'swap', 'swap', 'mirror_x', 'mirror_y', 'turn', 'reverse', 'shear_sign']))
    kw = dict(lam=crossply()) if what == 'shear_sign' else dict(lam=laminate(6)) if what == 'reverse' else {}
    big = what in ('mirror_x', 'mirror_y', 'turn', 'shear_sign')
    P = draw(buckling_plate(5 if big else 4, **kw))
    if big:
        P['m'], P['n'] = max(4, P['m']), max(4, P['n'])
    if what == 'shear_sign' and P['N'][2] == 0:
        P['N'][2] = draw(st.sampled_from([0.5, -1, 30]))
    return dict(P=P, what=what, k=draw(st.integers(1, 6)))


C18_EX = [dict(P=dict(C21P, m=m, n=n, cons=cc), what=w, k=4) for w in ('swap', 'mirror_x', 'mirror_y', 'turn', 'reverse') for m, n in ((4, 5), (5, 4))
          for cc in (C21P['cons'], dict(x0=['TZ', 'RZ'], xa=['RZ'], y0=['TZ'], yb=['TZ', 'RZ']), dict(x0='free', xa='pinned', y0='clamped', yb='free'))]
C18_EX += [dict(P=dict(C21P, lam=MIX[1], m=4, n=5, N=[-0.2, 0, 1], lam2=0), what='shear_sign', k=4) for _ in range(0)]
C18_EX += [dict(P=dict(C21P, lam=dict(angles=[0, 90, 90], mats=[gen.TYPICAL[0]], ply=[0, 0, 0], scalar=True), m=4, n=5, N=[-0.2, 0, 1]), what='shear_sign', k=4)]


@sub('C18', 'symmetry', c18_case, 600, 5000, rule='opposite edges supported differently, m != n or a != b',
     nontrivial=lambda c: c['P']['m'] != c['P']['n'] or c['P']['a'] != c['P']['b'], explicit=C18_EX)
def c18(c, note):
    P, what = c['P'], c['what']
    pnote(P, note)
    note(what)
    K, G, w, s, acc = model(P)
    R = copy.deepcopy(P)
    N = P['N']
    if what == 'swap':
        R.update(a=P['b'], b=P['a'], m=P['n'], n=P['m'], N=[N[1], N[0], N[2]], cons=tr_edges(P['cons'], SWAP, XY), lam=tr_lam(P['lam'], 'swap'))
    elif what == 'mirror_x':
        R.update(N=[N[0], N[1], -N[2]], cons=tr_edges(P['cons'], MX), lam=tr_lam(P['lam'], 'neg'))
    elif what == 'mirror_y':
        R.update(N=[N[0], N[1], -N[2]], cons=tr_edges(P['cons'], MY), lam=tr_lam(P['lam'], 'neg'))
    elif what == 'turn':
        R.update(cons=tr_edges(P['cons'], TURN))
    elif what == 'reverse':
        if 'angles' not in P['lam']:
            raise Skip('no layup')
        R['lam']['angles'], R['lam']['ply'] = P['lam']['angles'][::-1], P['lam']['ply'][::-1]
    else:
        if not special(P['lam']):
            raise Skip('D16 or D26 not zero')
        # the sign of shear: mirroring the plate changes it, and the supports are exchanged with it
        R.update(N=[N[0], N[1], -N[2]], cons=tr_edges(P['cons'], MX))
        e1 = factors(P, c['k'])[0]
        e2 = factors(R, c['k'])[0]
        compare(e1, e2, lambda e: e, s, (TOL + 50 * acc) * s, 'shear of the opposite sign on the mirrored supports')
        f = ref.freedoms(P['cons'])
        if f['x0'] & {'TZ', 'RZ'} != f['xa'] & {'TZ', 'RZ'} and f['y0'] & {'TZ', 'RZ'} != f['yb'] & {'TZ', 'RZ'}:
            return
        note('sign of shear alone')
        R = dict(P, N=[N[0], N[1], -N[2]])
    ev = factors(P, c['k'])[0]
    ev2 = factors(R, c['k'])[0]
    if len(ev) != len(ev2):
        fail('%s: %d and %d factors', what, len(ev), len(ev2))
    compare(ev, ev2, lambda e: e, s, (TOL + 50 * acc) * s, what)


# ---------------------------------------------------------------- C19

@st.composite
def c19_mono(draw):
    P = draw(buckling_plate(3))
    return dict(P=P, dm=draw(st.integers(0, 3)), dn=draw(st.integers(0, 3)))


def first(P):
    return float(factors(P)[0][0])


@sub('C19', 'more_terms', c19_mono, 200, 4000, rule='terms added', nontrivial=lambda c: c['dm'] + c['dn'] > 0,
     explicit=[dict(P=dict(C21P, m=m, n=n), dm=dm, dn=dn) for m, n, dm, dn in ((2, 2, 1, 0), (2, 2, 0, 1), (3, 3, 3, 3), (3, 1, 0, 2), (1, 3, 2, 0), (5, 5, 3, 2))])
def c19_more(c, note):
    P = c['P']
    pnote(P, note)
    acc = model(P)[4]
    R = dict(P, m=P['m'] + c['dm'], n=P['n'] + c['dn'])
    acc = max(acc, model(R)[4])
    l0, l1 = first(P), first(R)
    if not 0 < l1 <= l0 * (1 + 1e-8 + 50 * acc):
        fail('the first factor rises from %r to %r with %d x %d instead of %d x %d terms', l0, l1, R['m'], R['n'], P['m'], P['n'])
    note('drops by %s' % ('nothing' if l1 > l0 * (1 - 1e-6) else 'less than 10%' if l1 > 0.9 * l0 else 'more than 10%'))


@st.composite
def c19_stiff(draw):
    names = draw(st.booleans())
    order = ['free', 'pinned', 'clamped']
    lo = {e: draw(st.integers(0, 2)) for e in ref.EDGES}
    weak = make_supported({e: order[v] for e, v in lo.items()})
    strong = {e: order[draw(st.integers(order.index(weak[e]), 2))] for e in ref.EDGES}
    P = draw(buckling_plate(3))
    P['cons'] = weak
    return dict(P=P, strong=strong)


@sub('C19', 'supports', c19_stiff, 120, 2500, rule='some edge is supported more strongly', nontrivial=lambda c: c['strong'] != c['P']['cons'],
     explicit=[dict(P=dict(C21P, cons={e: 'pinned' for e in ref.EDGES}, m=2, n=3), strong={x: ('clamped' if x == e else 'pinned') for x in ref.EDGES}) for e in ref.EDGES]
     + [dict(P=dict(C21P, cons={x: ('free' if x == e else 'pinned') for x in ref.EDGES}, m=3, n=2), strong={x: 'pinned' for x in ref.EDGES}) for e in ref.EDGES])
def c19_sup(c, note):
    P = c['P']
    pnote(P, note)
    # m terms of the stronger plate lie within m + r terms of the weaker one, r: extra conditions in that direction
    f0, f1 = ref.freedoms(P['cons']), ref.freedoms(c['strong'])
    cnt = lambda f, e0, e1: sum(1 for e in (e0, e1) for x in f[e] if x[1] == 'Z')
    rx, ry = cnt(f1, 'x0', 'xa') - cnt(f0, 'x0', 'xa'), cnt(f1, 'y0', 'yb') - cnt(f0, 'y0', 'yb')
    S = dict(P, cons=c['strong'])
    W = dict(P, m=P['m'] + rx, n=P['n'] + ry)
    acc = max(model(W)[4], model(S)[4])
    lw, ls = first(W), first(S)
    if not ls >= lw * (1 - 1e-8 - 50 * acc) or not lw > 0:
        fail('the first factor drops from %r to %r when the supports become %s instead of %s', lw, ls, c['strong'], P['cons'])
    note('rises' if ls > lw * 1.0001 else 'unchanged')


@st.composite
def c19_navier(draw):
    L = draw(laminate(5, mixed=True, big=False))
    L['angles'] = [90 * (int(abs(t)) % 2) for t in L['angles']]
    a, b = draw(sides())
    r = draw(st.floats(0.4, 2.5))
    b = sig(a * r, 3)
    N = draw(st.one_of(st.tuples(nice(-1, 1, 2), nice(-1, 1, 2)), st.just((-1.0, 0.0)), st.just((0.0, -1.0)), st.just((-1.0, -1.0))).map(list))
    if N[0] >= 0 and N[1] >= 0:
        N[draw(st.integers(0, 1))] = -1.0
    return dict(lam=L, a=a, b=b, N=N, m=draw(st.integers(2, 5)), n=draw(st.integers(2, 5)),
                cons=draw(st.sampled_from([None, 'PINNED', {e: 'simply_supported' for e in ref.EDGES}, {e: ['TZ'] for e in ref.EDGES}])))


def navier(D, a, b, N):
    p, q = np.meshgrid(np.arange(1, 60), np.arange(1, 60), indexing='ij')
    x, y = p * np.pi / a, q * np.pi / b
    num = D[0, 0] * x ** 4 + 2 * (D[0, 1] + 2 * D[2, 2]) * x ** 2 * y ** 2 + D[1, 1] * y ** 4
    den = -(N[0] * x ** 2 + N[1] * y ** 2)
    with np.errstate(divide='ignore', invalid='ignore'):
        l = np.where(den > 0, num / den, np.inf)
    i = np.unravel_index(np.argmin(l), l.shape)
    return float(l[i]), int(p[i]), int(q[i])


NAV_EX = [dict(lam=L, a=a, b=100.0, N=N, m=5, n=5, cons='PINNED') for L in (dict(angles=[0, 90, 0], mats=[gen.TYPICAL[0]], ply=[0] * 3, scalar=True),
          dict(angles=[0], mats=[dict(kind='iso', e=70000., v=0.3, g=70000 / 2.6, thickness=2.)], ply=[0], scalar=True))
          for a in (100.0, 170.0, 60.0) for N in ([-1, 0], [0, -1], [-1, -1], [-1, 0.5])]


@sub('C19', 'closed_form', c19_navier, 60, 1200, rule='every case', explicit=NAV_EX)
def c19_nav(c, note):
    D = ref_ABD(c['lam'])[2]
    exact, p, q = navier(D, c['a'], c['b'], c['N'])
    P = dict(c, N=c['N'] + [0])
    if not np.isfinite(exact):
        raise Skip('no positive factor')
    try:
        model(P)
    except Skip:
        raise Skip('no positive factor with few terms')
    l = first(P)
    if not l >= exact * (1 - 1e-8):
        fail('the first factor %r is below the closed-form %r', l, exact)
    note('half waves: %d x %d' % (min(p, 4), min(q, 4)))
    if p <= 3 and q <= 3:
        R = dict(P, m=2 * p + 6, n=2 * q + 6)
        if R['m'] * R['n'] > 110:
            return
        l2 = first(R)
        if not exact * (1 - 1e-8) <= l2 <= exact * (1 + 2e-5):
            fail('with %d x %d terms the first factor is %r instead of %r (%d x %d half waves)', R['m'], R['n'], l2, exact, p, q)
        note('converged')


@st.composite
def c19_longcase(draw):
    P = draw(slender(shear=False))
    return dict(P=P, more=draw(st.integers(1, 2)))


@sub('C19', 'long_plates', c19_longcase, 60, 600, rule='every case',
     explicit=[dict(P=dict(C21P, a=a, b=50., m=m, n=2, N=[-1, 0, 0]), more=1) for a in (250., 450., 550.) for m in range(8, 22)]
     + [dict(P=dict(C21P, a=40., b=b, m=2, n=n, N=[0, -1, 0]), more=1) for b in (200., 400.) for n in range(8, 22)])
def c19_long(c, note):
    P = c['P']
    long = 'm' if P['m'] > P['n'] else 'n'
    note('%d terms along the plate' % (P[long] // 5 * 5))
    R = dict(P, **{long: P[long] + c['more']})
    acc = max(model(P)[4], model(R)[4])
    if acc > 1e-7:
        note('inaccurate tables')
    l0, l1 = first(P), first(R)
    if not 0 < l1 <= l0 * (1 + 1e-8 + 50 * acc):
        fail('the first factor rises from %r to %r with %d instead of %d terms along the plate', l0, l1, R[long], P[long])
    note('drops by %s' % ('nothing' if l1 > l0 * (1 - 1e-6) else 'less than 10%' if l1 > 0.9 * l0 else 'more than 10%'))


@st.composite
def c19_longnav(draw):
    L = draw(laminate(4, mixed=True, big=False))
    L['angles'] = [90 * (int(abs(t)) % 2) for t in L['angles']]
    b = sig(draw(logfloat(0.1, 1000)), 3)
    p = draw(st.integers(3, 9))
    return dict(lam=L, b=b, p=p, f=draw(st.floats(0.85, 1.1)), turn=draw(st.booleans()))


@sub('C19', 'many_waves', c19_longnav, 40, 400, rule='at least 4 half waves', nontrivial=lambda c: c['p'] >= 4,
     explicit=[dict(NAV_EX[0], p=p, f=1.0, turn=t) for p in range(3, 11) for t in (False, True)])
def c19_waves(c, note):
    """Simply supported long plates: the closed form is approached from above with enough terms, whichever side is long."""
    D = ref_ABD(c['lam'])[2]
    d1, d2 = (D[1, 1], D[0, 0]) if c['turn'] else (D[0, 0], D[1, 1])
    a, b = sig(c['p'] * c['f'] * c['b'] * (d1 / d2) ** 0.25, 4), c['b']  # about p half waves along the plate
    m = 2 * c['p'] + 8
    N = [-1.0, 0.0]
    P = dict(lam=c['lam'], a=a, b=b, m=m, n=3, N=[-1.0, 0.0, 0.0], cons='PINNED')
    if c['turn']:
        P.update(a=b, b=a, m=3, n=m, N=[0.0, -1.0, 0.0])
    exact, p, q = navier(D, P['a'], P['b'], P['N'])
    acc = model(P)[4]
    l = first(P)
    note('%d half waves' % max(p, q))
    if not exact * (1 - 1e-8 - 50 * acc) <= l <= exact * (1 + 2e-2 + 50 * acc):
        fail('the first factor is %r instead of %r (%d x %d half waves, %d x %d terms)', l, exact, p, q, P['m'], P['n'])
