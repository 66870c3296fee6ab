"""C09 equilibrium, C10 tables, C11 material axes, C12 linearity and frame, C13 margins."""
import copy
import numpy as np
from hypothesis import strategies as st

from .core import sub
from .gen import *
from . import ref, gen
from .props_laminate import unsym, describe, MIX

LOADS = ['Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy']
SX, S1 = ['sigmax', 'sigmay', 'tauxy'], ['sigma1', 'sigma2', 'tau12']
EX, E1 = ['epsilonx', 'epsilony', 'gammaxy'], ['epsilon1', 'epsilon2', 'gamma12']


@st.composite
def case(draw, **kw):
    kw.setdefault('max_plies', 8)
    kw.setdefault('big', True)
    L = draw(laminate(**kw))
    N = draw(loads6())
    # moments in proportion to the thickness, so that bending and membrane stresses are comparable
    h = height(L)
    if draw(st.booleans()):
        N = N[:3] + [sig(x * h, 6) for x in N[3:]]
    # other units of stress and of length
    u, l = draw(st.sampled_from(UNITS))
    if (u, l) != (1, 1):
        for m in L['mats']:
            m.update({k: v * (l if k == 'thickness' else u) for k, v in m.items() if k in STRESSES or k == 'thickness'})
        N = [x * u * l for x in N[:3]] + [x * u * l * l for x in N[3:]]
    return dict(lam=L, N=N, omit=draw(st.booleans()))


STRESSES = ('e1', 'e2', 'g12', 'e', 'g', 't1', 'c1', 't2', 'c2', 's', 't', 'c')
UNITS = [(1, 1)] * 4 + [(1e-3, 1), (1e6, 1e-3), (1e-9, 1), (1e-6, 1e-3), (145.04, 1 / 25.4)]


def strength(c, N=None, lam=None):
    N = c['N'] if N is None else N
    kw = {k: v for k, v in zip(LOADS, N) if not (c.get('omit') and v == 0)}
    return LaminateStrength(lam if lam is not None else build_lam(c['lam']), **kw)


def model(c, N=None, L=None):
    """Reference: eps0, per-face z, plate/material strain and stress, and error scales."""
    L = L or c['lam']
    N = np.array(c['N'] if N is None else N, float)
    A, B, D = ref_ABD(L)
    h = height(L)
    M6 = np.block([[A, B], [B, D]])
    e0, cond = ref.solve_laminate(M6, N, h)
    ms = plies_of(L)
    z = ref.heights([m['thickness'] for m in ms])
    Qb = ref.qbars(L['angles'], ms)
    rows = []
    for k in range(len(ms)):
        for zz, pos in ((z[k], 'bot'), (z[k + 1], 'top')):
            e = e0[:3] + zz * e0[3:]
            s = Qb[k] @ e
            rows.append(dict(ply=k + 1, z=zz, position=pos, angle=L['angles'][k], e=e, s=s,
                             e1=ref.rotate_strain(e, L['angles'][k]), s1=ref.rotate_stress(s, L['angles'][k])))
    # strains are computed to about cond*eps of the largest ones
    es = max(np.abs(e0[:3]).max(), h / 2 * np.abs(e0[3:]).max())
    qs = [np.abs(ref.Q_ply(m)).max() for m in ms]
    tol = 1e-12 * (10 + cond) * (1 + max(abs(t) for t in L['angles']) / 100)
    return dict(e0=e0, rows=rows, es=es, qs=qs, tol=tol, cond=cond, h=h, M6=M6, N=N)


def table(df, cols, n, what):
    if len(df) != 2 * n:
        fail('%s has %d rows for %d plies', what, len(df), n)
    for col in cols:
        if col not in df.columns:
            fail('%s has no column %s', what, col)
    return np.array(df[list(cols)], dtype=float)


def lnote(c, note):
    describe(c['lam'], note)
    if any(c['N'][3:]):
        note('moments')
    if not any(c['N']):
        note('trivial')
        note('no load')


NT = lambda c: any(c['N']) and len(c['lam']['angles']) > 1
EXPL = [dict(lam=L, N=N, omit=o) for L in MIX for N in ([100, -50, 25, 3, -2, 1], [0, 0, 0, 0, 0, 7.5], [0, -10, 0, 0, 0, 0]) for o in (True, False)]


# ---------------------------------------------------------------- C09

@sub('C09', 'equilibrium', lambda: case(), 4500, 30000, rule='at least two plies under a load', nontrivial=NT, explicit=EXPL)
def c09(c, note):
    lnote(c, note)
    L = c['lam']
    r = model(c)
    S = strength(c)
    h = r['h']
    ms = plies_of(L)
    df = S.calculate_stress()
    s = table(df, SX, len(ms), 'stress table')
    z = ref.heights([m['thickness'] for m in ms])
    N = np.zeros(3)
    M = np.zeros(3)
    smax = np.zeros(3)
    for k, m in enumerate(ms):
        t = m['thickness']
        sb, s_t = s[2 * k], s[2 * k + 1]
        N += t * (sb + s_t) / 2
        M += t / 6 * (sb * (2 * z[k] + z[k + 1]) + s_t * (z[k] + 2 * z[k + 1]))
    scale = max(np.abs(r['N'][:3]).max(), np.abs(r['N'][3:]).max() / h)
    # cancellation: forces are sums of ply forces up to cond times larger
    sc = scale + sum(m['thickness'] * q * r['es'] for m, q in zip(ms, r['qs'])) * 1e-3
    tol = r['tol'] * sc
    close(N, c['N'][:3], tol, 'resultant forces of the stresses')
    close(M / h, np.array(c['N'][3:]) / h, tol, 'resultant moments of the stresses over the thickness')
    e0 = arr(S.epsilon0())
    if e0.shape != (6,):
        fail('epsilon0 has shape %s', e0.shape)
    d = np.array([1, 1, 1, h, h, h])
    close((r['M6'] @ e0) / d, r['N'] / d, tol, 'ABD times strain')
    close((arr(build_lam(L).ABD) @ e0) / d, r['N'] / d, tol, "the laminate's ABD times strain")
    close(e0 * d, r['e0'] * d, r['tol'] * r['es'], 'midplane strains and curvatures (times thickness)')
    stale = arr(S.epsilon0())
    close(stale, e0, 0, 'midplane strains read again')


@st.composite
def c09_lp_case(draw):
    L = draw(lp_laminate(with_A=True))
    N = draw(loads6())
    if draw(st.booleans()):
        N = N[:3] + [sig(x * L['T'], 6) for x in N[3:]]
    return dict(lam=L, N=N, omit=draw(st.booleans()))


@sub('C09', 'parameters', c09_lp_case, 1500, 10000, rule='under a load', nontrivial=lambda c: any(c['N']))
def c09_lp(c, note):
    """Laminates given by lamination parameters."""
    lnote(c, note)
    A, B, D = ref_ABD(c['lam'])
    h = height(c['lam'])
    e, cond = ref.solve_laminate(np.block([[A, B], [B, D]]), np.array(c['N'], float), h)
    d = np.array([1, 1, 1, h, h, h])
    close(arr(strength(c).epsilon0()) * d, e * d, 1e-12 * (10 + cond) * np.abs(e * d).max(), 'midplane strains and curvatures (times thickness)')


# ---------------------------------------------------------------- C10

def meta(df, r, what, first):
    n = len(r['rows']) // 2
    if len(df) != 2 * n:
        fail('%s has %d rows for %d plies', what, len(df), n)
    for i, row in enumerate(r['rows']):
        if int(df['ply'].iloc[i]) != row['ply'] or df['position'].iloc[i] != row['position'] or df['angle'].iloc[i] != row['angle']:
            fail('%s row %d is ply %s %s at %s degrees instead of ply %s %s at %s', what, i, df['ply'].iloc[i], df['position'].iloc[i],
                 df['angle'].iloc[i], row['ply'], row['position'], row['angle'])
    close(df['z'], [row['z'] for row in r['rows']], 1e-12 * r['h'], 'z of the ' + what)


@sub('C10', 'tables', lambda: case(), 4500, 30000, rule='at least two plies under a load', nontrivial=NT, explicit=EXPL)
def c10(c, note):
    lnote(c, note)
    r = model(c)
    S = strength(c)
    n = len(r['rows']) // 2
    es = S.calculate_strain()
    ss = S.calculate_stress()
    meta(es, r, 'strain table', True)
    meta(ss, r, 'stress table', True)
    e = table(es, EX, n, 'strain table')
    s = table(ss, SX, n, 'stress table')
    close(e, [row['e'] for row in r['rows']], r['tol'] * r['es'], 'plate-axis strains')
    e0 = arr(S.epsilon0())
    want = [e0[:3] + row['z'] * e0[3:] for row in r['rows']]
    close(e, want, 1e-11 * r['es'], 'plate-axis strains against epsilon0 + z*kappa')
    for k in range(n - 1):
        close(e[2 * k + 1], e[2 * k + 2], 1e-11 * r['es'], 'continuity of the strains between plies %d and %d' % (k + 1, k + 2))
    Q = build_lam(c['lam']).Q_layup
    for i, row in enumerate(r['rows']):
        q = r['qs'][i // 2]
        close(s[i], row['s'], r['tol'] * q * r['es'], 'plate-axis stresses of row %d' % i)
        close(s[i], arr(Q[i // 2]) @ e[i], 1e-11 * q * r['es'], 'plate-axis stresses of row %d against Q_layup times strain' % i)


# ---------------------------------------------------------------- C11

@sub('C11', 'rotation', lambda: case(), 4500, 30000, rule='a loaded ply at an angle that is no multiple of 90',
     nontrivial=lambda c: any(c['N']) and any(t % 90 for t in c['lam']['angles']), explicit=EXPL)
def c11(c, note):
    lnote(c, note)
    r = model(c)
    S = strength(c)
    n = len(r['rows']) // 2
    es, ss = S.calculate_strain(), S.calculate_stress()
    e, e1 = table(es, EX, n, 'strain table'), table(es, E1, n, 'strain table')
    s, s1 = table(ss, SX, n, 'stress table'), table(ss, S1, n, 'stress table')
    ms = plies_of(c['lam'])
    ta = 1e-12 * (1 + max(abs(t) for t in c['lam']['angles']) / 100)
    T = S.dproperty.T_layup
    if len(T) != len(ms):
        fail('T_layup has %d entries for %d plies', len(T), len(ms))
    for k, t in enumerate(c['lam']['angles']):
        # the columns are the rotated unit stresses and strains
        close(arr(T[k][0]).T, [ref.rotate_stress(u, t) for u in np.eye(3)], ta, 'stress transformation of ply %d' % (k + 1))
        close(arr(T[k][1]).T, [ref.rotate_strain(u, t) for u in np.eye(3)], ta, 'strain transformation of ply %d' % (k + 1))
    for i, row in enumerate(r['rows']):
        m, q = ms[i // 2], r['qs'][i // 2]
        se, sc = r['es'], q * r['es']
        close(e1[i], row['e1'], r['tol'] * se, 'material strains of row %d' % i)
        close(s1[i], row['s1'], r['tol'] * sc, 'material stresses of row %d' % i)
        close(e1[i], ref.rotate_strain(e[i], row['angle']), 10 * ta * se, 'material strains of row %d against the rotated ones' % i)
        close(s1[i], ref.rotate_stress(s[i], row['angle']), 10 * ta * sc, 'material stresses of row %d against the rotated ones' % i)
        close(s1[i], ref.Q_ply(m) @ e1[i], 20 * ta * sc, 'material stresses of row %d against Q_0 times strain' % i)
        close(s1[i] @ e1[i], s[i] @ e[i], 50 * ta * sc * se, 'energy density of row %d' % i)
        close(e1[i][0] + e1[i][1], e[i][0] + e[i][1], 20 * ta * se, 'trace of the strain of row %d' % i)
        close(s1[i][0] + s1[i][1], s[i][0] + s[i][1], 20 * ta * sc, 'trace of the stress of row %d' % i)
        close(s1[i][0] * s1[i][1] - s1[i][2] ** 2, s[i][0] * s[i][1] - s[i][2] ** 2, 50 * ta * sc ** 2, 'determinant of the stress of row %d' % i)


# ---------------------------------------------------------------- C12

def collect(S, n):
    es, ss = S.calculate_strain(), S.calculate_stress()
    return (arr(S.epsilon0()), table(es, EX, n, 'strain'), table(es, E1, n, 'strain'), table(ss, SX, n, 'stress'), table(ss, S1, n, 'stress'))


@st.composite
def c12_lin(draw):
    c = draw(case(max_plies=6, big=False))
    return dict(c, N2=draw(loads6()), p=draw(nice(-5, 5)), q=draw(logfloat(1e-3, 1e3)))


@sub('C12', 'linear', c12_lin, 1800, 15000, rule='two nonzero load vectors', nontrivial=lambda c: any(c['N']) and any(c['N2']))
def c12_linear(c, note):
    lnote(c, note)
    lam = build_lam(c['lam'])
    n = len(c['lam']['angles'])
    N1, N2 = np.array(c['N'], float), np.array(c['N2'], float)
    p, q = c['p'], c['q']
    a = collect(strength(c, N1.tolist(), lam), n)
    b = collect(strength(c, N2.tolist(), lam), n)
    s = collect(strength(c, (p * N1 + q * N2).tolist(), lam), n)
    r1, r2 = model(c, N1), model(c, N2)
    es = abs(p) * r1['es'] + q * r2['es']
    qm = max(r1['qs'])
    h = r1['h']
    tol = r1['tol']
    d = np.array([1, 1, 1, h, h, h])
    close(s[0] * d, (p * a[0] + q * b[0]) * d, tol * es, 'superposed midplane strains')
    for k, (nme, sc) in enumerate([('plate strains', es), ('material strains', es), ('plate stresses', qm * es), ('material stresses', qm * es)]):
        close(s[k + 1], p * a[k + 1] + q * b[k + 1], tol * sc, 'superposed ' + nme)


@st.composite
def c12_frame(draw):
    c = draw(case(max_plies=6, big=False))
    return dict(c, ang=draw(angle()), mode=draw(st.sampled_from(['rotate', 'rotate', 'flip', 'both'])))


def turn_load(N, theta):
    """Load components in plate axes when the load is turned with the layup by theta."""
    return np.concatenate([ref.rotate_stress(N[:3], -theta), ref.rotate_stress(N[3:], -theta)])


@sub('C12', 'frame', c12_frame, 2400, 20000, rule='loaded unsymmetric laminate', nontrivial=lambda c: any(c['N']) and unsym(c['lam']),
     explicit=[dict(lam=L, N=[10, -5, 3, 1, 2, -3], omit=False, ang=30, mode=m) for L in MIX for m in ('rotate', 'flip', 'both')])
def c12_fr(c, note):
    lnote(c, note)
    note(c['mode'])
    L = c['lam']
    n = len(L['angles'])
    a = collect(strength(c), n)
    R = copy.deepcopy(L)
    N = np.array(c['N'], float)
    if c['mode'] in ('rotate', 'both'):
        R['angles'] = [t + c['ang'] for t in R['angles']]
        N = turn_load(N, c['ang'])
    flip = c['mode'] in ('flip', 'both')
    if flip:
        R['angles'], R['ply'] = R['angles'][::-1], R['ply'][::-1]
        N = np.concatenate([N[:3], -N[3:]])
    b = collect(strength(dict(c, omit=False), N.tolist(), build_lam(R)), n)
    r = model(c)
    qm = max(r['qs'])
    tol = r['tol'] * (1 + abs(c['ang']) / 100)
    o = slice(None, None, -1) if flip else slice(None)
    close(b[2][o], a[2], tol * r['es'], 'material strains after %s' % c['mode'])
    close(b[4][o], a[4], tol * qm * r['es'], 'material stresses after %s' % c['mode'])
    if c['mode'] == 'flip':
        close(b[1][o], a[1], tol * r['es'], 'plate strains after flip')
        close(b[3][o], a[3], tol * qm * r['es'], 'plate stresses after flip')
        z1 = strength(c).calculate_stress()['z'].to_numpy()
        close(strength(dict(c, omit=False), N.tolist(), build_lam(R)).calculate_stress()['z'].to_numpy()[o], -z1, 1e-12 * r['h'], 'z after flip')


# ---------------------------------------------------------------- C13

MODES = ['margin_t1', 'margin_c1', 'margin_t2', 'margin_c2', 'margin_s']
C13_EX = [dict(lam=dict(angles=L['angles'], mats=[dict(gen.TYPICAL[i], t1=100. * (i + 1), c1=200. * (i + 2), t2=30. + i, c2=17. + i, s=5. + i) for i in (0, 4)],
                        ply=[i % 2 for i in range(len(L['angles']))], scalar=False), N=N, omit=False)
          for L in MIX for N in ([100, -50, 25, 3, -2, 1], [-100, 50, 0, 0, 0, 0], [0, 0, 0, 5, 0, 0], [0, 0, 0, 0, 0, 0])]


@sub('C13', 'margins', lambda: case(allow=True, max_plies=8), 3600, 30000,
     rule='loaded laminate of at least two plies',
     nontrivial=lambda c: any(c['N']) and len(c['lam']['angles']) > 1, explicit=C13_EX)
def c13(c, note):
    lnote(c, note)
    S = strength(c)
    df = S.calculate_maxstressmargin()
    st_ = S.calculate_stress()
    r = model(c)
    ms = plies_of(c['lam'])
    n = len(ms)
    if len(df) != 2 * n:
        fail('margin table has %d rows for %d plies', len(df), n)
    g = table(df, MODES, n, 'margin table')
    s1 = table(st_, S1, n, 'stress table')
    for i, row in enumerate(r['rows']):
        if int(df['ply'].iloc[i]) != row['ply'] or df['position'].iloc[i] != row['position'] or df['angle'].iloc[i] != row['angle']:
            fail('margin row %d is ply %s %s at %s degrees instead of ply %s %s at %s', i, df['ply'].iloc[i], df['position'].iloc[i],
                 df['angle'].iloc[i], row['ply'], row['position'], row['angle'])
        m = ms[i // 2]
        allowed = [m[k] for k in (('t', 'c', 't', 'c', 's') if m['kind'] == 'iso' else ('t1', 'c1', 't2', 'c2', 's'))]
        sg = s1[i]
        # the stress used is that of this face: also by the reference
        close(sg, row['s1'], r['tol'] * r['qs'][i // 2] * r['es'], 'material stresses of row %d' % i)
        comp = [sg[0], -sg[0], sg[1], -sg[1], abs(sg[2])]
        d = 1e-12 * r['qs'][i // 2] * r['es']
        for j, (mode, allow, sv) in enumerate(zip(MODES, allowed, comp)):
            v = g[i, j]
            # a stress of the size of the rounding errors may be read with another rounding error, or as zero
            with np.errstate(over='ignore', divide='ignore'):
                lo, w, hi = [np.float64(allow) / max(sv + x, 0) - 1 if sv + x > 0 else np.inf for x in (d, 0, -d)]
            if not ((lo > 1e280 and v > 1e270 or lo - 1e-9 * (1 + abs(lo)) <= v) and (v <= hi + 1e-9 * (1 + abs(hi)) or hi > 1e280)):
                fail('%s of row %d is %r instead of %r (allowable %r, stress %r)', mode, i, v, w, allow, sv)
            note('%s %s' % (mode, 'infinite' if np.isinf(w) else 'positive' if w > 0 else 'negative'))
        crit = df['critical'].iloc[i]
        if crit not in MODES:
            fail('critical mode of row %d is %r', i, crit)
        low = np.min(g[i])
        if not g[i, MODES.index(crit)] <= low + 1e-12 * (1 + abs(low)):
            fail('critical mode of row %d is %s, margins %s', i, crit, g[i])
        note('critical ' + crit)
