"""C05 ABD, C06 transformations, C07 lamination parameters, C08 laminates from parameters."""
import copy
import numpy as np
from hypothesis import strategies as st

from .core import sub
from .gen import *
from . import ref, gen


def abd_scale(L):
    """Magnitudes of A, B and D entries: max ply stiffness times h, h^2, h^3."""
    h = height(L)
    q = max(np.abs(ref.Q_ply(m)).max() for m in (plies_of(L) if 'ply' in L else L['mats']))
    return q * h, q * h * h, q * h ** 3


def angle_tol(L, base=1e-12):
    return base * (1 + max(abs(t) for t in L['angles']) / 100) if 'angles' in L else base


def unsym(L):
    A, B, D = ref_ABD(L)
    return np.abs(B).max() > 1e-6 * abd_scale(L)[1]


def describe(L, note):
    if 'angles' not in L:
        note('by lamination parameters')
        return
    note('plies: %s' % ('1' if len(L['angles']) == 1 else '2-5' if len(L['angles']) < 6 else '6-15' if len(L['angles']) < 16 else '16+'))
    if len(set(L['ply'])) > 1:
        note('mixed materials')
    if unsym(L):
        note('unsymmetric (B != 0)')
    if any(m['kind'] == 'iso' for m in plies_of(L)):
        note('isotropic plies')


LAM = lambda: laminate(14, long=True)
MIX = [dict(angles=[30, -45, 0, 90], mats=[gen.TYPICAL[0], gen.TYPICAL[4]], ply=[0, 1, 1, 0], scalar=False),
       dict(angles=[0, 45], mats=[gen.TYPICAL[0]], ply=[0, 0], scalar=True),
       dict(angles=[37.5], mats=[gen.TYPICAL[0]], ply=[0], scalar=True),
       dict(angles=[0, 90, 45, -45, 30], mats=[dict(kind='iso', e=70000., v=0.33, g=26000., thickness=1.), gen.TYPICAL[0]], ply=[0, 1, 1, 1, 1], scalar=False)]
CONTAINERS = st.sampled_from(['list', 'list', 'tuple', 'array'])


def with_container(s):
    return st.tuples(s, CONTAINERS).map(lambda x: dict(x[0], container=x[1]))


make_lam = build_lam


# ---------------------------------------------------------------- C05

@sub('C05', 'integrals', lambda: with_container(LAM()), 6000, 40000, rule='unsymmetric laminate (B != 0)',
     nontrivial=unsym, explicit=MIX)
def c05(L, note):
    describe(L, note)
    lam = make_lam(L)
    sA, sB, sD = abd_scale(L)
    tol = angle_tol(L)
    A, B, D = ref_ABD(L)
    close(lam.A, A, tol * sA, 'A')
    close(lam.B, B, tol * sB, 'B')
    close(lam.D, D, tol * sD, 'D')
    close(lam.ABD, np.block([[lam.A, lam.B], [lam.B, lam.D]]), 0, 'ABD against its blocks')
    h = height(L)
    d = np.array([1, 1, 1, 1 / h, 1 / h, 1 / h])
    S = arr(lam.ABD) * np.outer(d, d) / sA
    close(S, S.T, 10 * tol, 'symmetry of ABD')
    w = np.linalg.eigvalsh((S + S.T) / 2)
    wr = np.linalg.eigvalsh(np.block([[A, B], [B, D]]) * np.outer(d, d) / sA)
    if wr.min() > 1e-9 and not w.min() > 0:
        fail('ABD is not positive definite: %s', w)
    ts = [m['thickness'] for m in plies_of(L)]
    close(lam.z_position, ref.heights(ts), 1e-13 * h * (1 + len(ts)), 'ply interfaces')
    Q = lam.Q_layup
    if len(Q) != len(ts):
        fail('Q_layup has %d entries for %d plies', len(Q), len(ts))
    for k, (q, w) in enumerate(zip(Q, ref.qbars(L['angles'], plies_of(L)))):
        close_rel(q, w, tol, 'stiffness of ply %d in plate axes' % (k + 1))


# ---------------------------------------------------------------- C06

TRANS = ['reverse', 'negate', 'rotate', 'add180', 'split', 'moduli', 'thickness', 'symmetric', 'balanced', 'swap90', 'join']


@st.composite
def c06_case(draw):
    L = draw(laminate(10, big=False))
    n = len(L['angles'])
    return dict(lam=L, t=draw(st.sampled_from(TRANS)), ang=draw(angle()), i=draw(st.integers(0, n - 1)), k=draw(st.integers(2, 4)),
                c=draw(logfloat(1e-3, 1e3)), frac=draw(nice(0.05, 0.95, 3)))


def tensor_rotate(M, theta):
    """Rotates a 3x3 plate stiffness with the plate's material turned by theta."""
    return ref.rotate_stiffness(M, theta)


@sub('C06', 'transforms', c06_case, 7500, 50000, rule='unsymmetric laminate', nontrivial=lambda c: unsym(c['lam']),
     explicit=[dict(lam=L, t=t, ang=33, i=0, k=2, c=2.5, frac=0.3) for L in MIX for t in TRANS])
def c06(c, note):
    L, t = c['lam'], c['t']
    note(t)
    lam = build_lam(L)
    A, B, D = arr(lam.A), arr(lam.B), arr(lam.D)
    sA, sB, sD = abd_scale(L)
    tol = 1e-11
    R = copy.deepcopy(L)
    n = len(L['angles'])
    wA, wB, wD = A, B, D
    if t == 'reverse':
        R['angles'], R['ply'] = L['angles'][::-1], L['ply'][::-1]
        wB = -B
    elif t == 'negate':
        R['angles'] = [-x for x in L['angles']]
        f = np.array([[1, 1, -1], [1, 1, -1], [-1, -1, 1]])
        wA, wB, wD = A * f, B * f, D * f
    elif t == 'rotate':
        R['angles'] = [x + c['ang'] for x in L['angles']]
        wA, wB, wD = (tensor_rotate(M, c['ang']) for M in (A, B, D))
    elif t == 'swap90':
        R['angles'] = [90 - x for x in L['angles']]
        P = np.array([[0, 1, 0], [1, 0, 0], [0, 0, 1]])
        wA, wB, wD = (P @ M @ P for M in (A, B, D))
    elif t == 'add180':
        R['angles'][c['i']] += 180 * (-1) ** c['k']
    elif t in ('split', 'join'):
        i, k = c['i'], c['k']
        m = L['mats'][L['ply'][i]]
        fr = [1 / k] * k if t == 'split' else [c['frac'], 1 - c['frac']]
        new = []
        for f in fr:
            R['mats'].append(dict(m, thickness=m['thickness'] * f))
            new.append(len(R['mats']) - 1)
        R['ply'] = L['ply'][:i] + new + L['ply'][i + 1:]
        R['angles'] = L['angles'][:i] + [L['angles'][i]] * len(fr) + L['angles'][i + 1:]
        R['scalar'] = False
    elif t == 'moduli':
        for m in R['mats']:
            for k in ('e1', 'e2', 'g12', 'e', 'g'):
                if k in m:
                    m[k] *= c['c']
        wA, wB, wD = A * c['c'], B * c['c'], D * c['c']
        sA, sB, sD = (s * c['c'] for s in (sA, sB, sD))
    elif t == 'thickness':
        s = c['c']
        for m in R['mats']:
            m['thickness'] *= s
        wA, wB, wD = A * s, B * s ** 2, D * s ** 3
        sA, sB, sD = sA * s, sB * s ** 2, sD * s ** 3
    elif t == 'symmetric':
        k = c['k'] % 2
        R['angles'] = L['angles'] + L['angles'][::-1][k:]
        R['ply'] = L['ply'] + L['ply'][::-1][k:]
        r = build_lam(R)
        close(r.B, np.zeros((3, 3)), 1e-12 * 4 * sB, 'B of a symmetric layup')
        return
    elif t == 'balanced':
        R['angles'] = L['angles'] + [-x for x in L['angles']]
        R['ply'] = L['ply'] + L['ply']
        a = arr(build_lam(R).A)
        close([a[0, 2], a[1, 2], a[2, 0], a[2, 1]], np.zeros(4), 1e-12 * 2 * sA, 'A16, A26 of a balanced layup')
        return
    r = build_lam(R)
    close(r.A, wA, tol * sA, 'A after %s' % t)
    close(r.B, wB, tol * sB, 'B after %s' % t)
    close(r.D, wD, tol * sD, 'D after %s' % t)


# ---------------------------------------------------------------- C07

@sub('C07', 'parameters', lambda: with_container(st.one_of(LAM(), laminate(8))), 6000, 40000,
     rule='at least two different angles', nontrivial=lambda L: len(set(L['angles'])) > 1,
     explicit=MIX + [dict(angles=[a], mats=[gen.TYPICAL[0]], ply=[0], scalar=s) for a in (0, 45, -30, 90, 10.5) for s in (True, False)])
def c07(L, note):
    describe(L, note)
    lam = make_lam(L)
    xa, xd = arr(lam.xiA), arr(lam.xiD)
    wa, wd = ref.lamination_parameters(L['angles'], [m['thickness'] for m in plies_of(L)])
    tol = angle_tol(L) * 10
    close(xa, wa, tol, 'xiA')
    close(xd, wd, tol, 'xiD')
    for nme, x in (('xiA', xa), ('xiD', xd)):
        if np.abs(x).max() > 1 + 1e-12:
            fail('%s outside [-1, 1]: %s', nme, x)
        if x[2] < 2 * x[0] ** 2 - 1 - 1e-11:
            fail('%s violates xi3 >= 2 xi1^2 - 1: %s', nme, x)
    if len(set(L['angles'])) == 1:
        note('single angle')
        t = np.deg2rad(L['angles'][0])
        w = [np.cos(2 * t), np.sin(2 * t), np.cos(4 * t), np.sin(4 * t)]
        close(xa, w, tol, 'xiA of a single angle')
        close(xd, w, tol, 'xiD of a single angle')
    close(lam.xiA, xa, 0, 'second reading of xiA')
    close(lam.xiD, xd, 0, 'second reading of xiD')


@st.composite
def c07_scale(draw):
    return dict(lam=draw(laminate(8, big=False)), c=draw(logfloat(1e-3, 1e3)), ang=draw(angle(False)))


@sub('C07', 'invariance', c07_scale, 2400, 15000, rule='at least two different angles', nontrivial=lambda c: len(set(c['lam']['angles'])) > 1)
def c07_inv(c, note):
    """Normalised: no dependence on thickness scale or moduli; a rotation of the layup rotates the parameters."""
    L = c['lam']
    lam = build_lam(L)
    R = copy.deepcopy(L)
    for m in R['mats']:
        m['thickness'] *= c['c']
        for k in ('e1', 'e2', 'g12', 'e', 'g'):
            if k in m:
                m[k] *= 1.7
    r = build_lam(R)
    close(r.xiA, lam.xiA, 1e-11, 'xiA after scaling the plies')
    close(r.xiD, lam.xiD, 1e-11, 'xiD after scaling the plies')
    R = copy.deepcopy(L)
    R['angles'] = [t + c['ang'] for t in L['angles']]
    r = build_lam(R)
    p = np.deg2rad(c['ang'])
    for nme in ('xiA', 'xiD'):
        x, y = arr(getattr(lam, nme)), arr(getattr(r, nme))
        z = np.array([x[0] * np.cos(2 * p) - x[1] * np.sin(2 * p), x[0] * np.sin(2 * p) + x[1] * np.cos(2 * p),
                      x[2] * np.cos(4 * p) - x[3] * np.sin(4 * p), x[2] * np.sin(4 * p) + x[3] * np.cos(4 * p)])
        close(y, z, 1e-10, '%s after rotating the layup' % nme)


# ---------------------------------------------------------------- C08

PLY = st.sampled_from([1, 1, 0.3, 0.77, 2.6, 10])  # thickness of the material given with the parameters, in that of the plies of the layup

@st.composite
def c08_case(draw):
    L = draw(laminate(10, one_material=True, scalar=True, big=False))
    reads = draw(st.lists(st.sampled_from(['A', 'B', 'D', 'ABD', 'xiA', 'xiD']), min_size=1, max_size=8))
    return dict(lam=L, reads=reads, with_A=draw(st.integers(0, 3)) > 0, keys=draw(st.permutations(['xiA', 'xiD', 'T'])),
                form=draw(st.sampled_from(['list', 'array', 'tuple'])), xiB=draw(st.booleans()), ply=draw(PLY))


def as_form(x, form):
    return {'list': list, 'array': np.array, 'tuple': tuple}[form](float(v) for v in x) if form != 'array' else np.array([float(v) for v in x])


@sub('C08', 'roundtrip', c08_case, 6000, 30000, rule='layup with at least two angles', nontrivial=lambda c: len(set(c['lam']['angles'])) > 1,
     explicit=[dict(lam=MIX[1], reads=r, with_A=w, keys=['xiA', 'xiD', 'T'], form='list', xiB=False)
               for r in (['xiA', 'xiD'], ['B', 'A'], ['A', 'B', 'D', 'A'], ['ABD', 'B', 'A', 'ABD']) for w in (True, False)])
def c08(c, note):
    L = c['lam']
    T = height(L)
    src = build_lam(L)
    xa, xd = ref.lamination_parameters(L['angles'], [m['thickness'] for m in plies_of(L)])
    close(src.xiA, xa, 1e-10, 'xiA of the layup')
    close(src.xiD, xd, 1e-10, 'xiD of the layup')
    xa, xd = arr(src.xiA), arr(src.xiD)
    vals = dict(xiA=as_form(xa, c['form']), xiD=as_form(xd, c['form']), T=T)
    d = {k: vals[k] for k in c['keys'] if k != 'xiA' or c['with_A']}
    if c['xiB']:
        d['xiB'] = [0.0] * 4
    note('with xiA' if c['with_A'] else 'without xiA')
    lam = LaminateProperty(d, build_mat(dict(L['mats'][0], thickness=L['mats'][0]['thickness'] * c.get('ply', 1))))
    sA, sB, sD = abd_scale(L)
    Z = np.zeros((3, 3))
    wA = ref_ABD(L)[0] if c['with_A'] else Z
    wD = ref_ABD(L)[2]
    want = dict(A=(wA, 1e-10 * sA), B=(Z, 0), D=(wD, 1e-10 * sD))
    for r in c['reads'] + ['A', 'B', 'D', 'ABD', 'xiA', 'xiD']:
        v = getattr(lam, r)
        if r in want:
            close(v, want[r][0], want[r][1], '%s from parameters (reads %s)' % (r, c['reads']))
        elif r == 'ABD':
            v = arr(v)
            if v.shape != (6, 6):
                fail('ABD has shape %s', v.shape)
            close(v[:3, :3], wA, 1e-10 * sA, 'A block')
            close(v[3:, 3:], wD, 1e-10 * sD, 'D block')
            close(v[:3, 3:], Z, 0, 'B block')
            close(v[3:, :3], Z, 0, 'B block')
        elif r == 'xiA' and not c['with_A']:
            if v is not None and np.any(arr(v) != 0):
                fail('xiA of a laminate without in-plane parameters is %s', v)
        else:
            close(v, xa if r == 'xiA' else xd, 0, r)
    if c['with_A']:
        close(lam.A, src.A, 1e-10 * sA, 'A against the layup')
    close(lam.D, src.D, 1e-10 * sD, 'D against the layup')


@sub('C08', 'arbitrary', lambda: st.fixed_dictionaries(dict(m=material(), xa=st.lists(nice(-1, 1), min_size=4, max_size=4),
                                                           xd=st.lists(nice(-1, 1), min_size=4, max_size=4), T=logfloat(1e-3, 100))), 3200, 15000,
     rule='every case')
def c08_arb(c, note):
    """A and D are the linear functions of any four parameters, whether or not a layup has them."""
    lam = LaminateProperty(dict(xiA=c['xa'], xiD=c['xd'], T=c['T']), build_mat(c['m']))
    q = np.abs(ref.Q_ply(c['m'])).max()
    T = c['T']
    close(lam.A, T * ref.Q_from_lp(c['m'], c['xa']), 1e-11 * q * T, 'A')
    close(lam.D, T ** 3 / 12 * ref.Q_from_lp(c['m'], c['xd']), 1e-11 * q * T ** 3, 'D')
    close(lam.xiA, c['xa'], 0, 'xiA')
    close(lam.xiD, c['xd'], 0, 'xiD')


@sub('C08', 'missing', lambda: st.fixed_dictionaries(dict(keys=st.lists(st.sampled_from(['xiA', 'xiB', 'xiD', 'T', 'xid', 't']), unique=True),
                                                         m=material())), 800, 2000, rule='xiD or T is missing',
     nontrivial=lambda c: not {'xiD', 'T'} <= set(c['keys']),
     explicit=[dict(keys=k, m=gen.TYPICAL[0]) for k in ([], ['xiD'], ['T'], ['xiA', 'T'], ['xiA', 'xiD'], ['xiA'], ['xiA', 'xiD', 'T'], ['xiA', 'xiB', 'xiD', 'T'])])
def c08_missing(c, note):
    d = {k: (1.0 if k in ('T', 't') else [0.0, 0.0, 0.0, 0.0]) for k in c['keys']}
    ok = 'xiD' in d and 'T' in d
    try:
        LaminateProperty(d, build_mat(c['m']))
    except KeyError:
        if ok:
            fail('complete definition %s raised KeyError', sorted(d))
        return
    except Exception as e:
        fail('definition with %s raised %s instead of KeyError', sorted(d), type(e).__name__)
    if not ok:
        fail('definition with only %s accepted', sorted(d))
