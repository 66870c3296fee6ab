"""Strategies (all draw plain JSON data) and builders of composipy objects from them."""
import math
import numpy as np
from hypothesis import strategies as st

from composipy import OrthotropicMaterial, IsotropicMaterial, LaminateProperty, LaminateStrength, PlateStructure
from . import ref
from .core import Violation, Skip


def sig(x, n=6):
    return float('%.*g' % (n, x))


def logfloat(lo, hi):
    """Positive floats, log-uniform, few digits; sometimes round numbers."""
    a, b = math.log10(lo), math.log10(hi)
    return st.one_of(
        st.floats(a, b).map(lambda e: min(hi, max(lo, sig(10 ** e, 4)))),
        st.floats(a, b).map(lambda e: min(hi, max(lo, sig(10 ** e, 1)))),
        st.floats(a, b).map(lambda e: min(hi, max(lo, 10 ** e))))


def nice(lo, hi, digits=3):
    return st.floats(lo, hi).map(lambda x: round(x, digits) + 0.0)


TYPICAL = [
    dict(kind='ortho', e1=129500., e2=9370., v12=0.38, g12=5240., thickness=0.2),
    dict(kind='ortho', e1=60800., e2=58250., v12=0.07, g12=4550., thickness=0.21),
    dict(kind='ortho', e1=60000., e2=7000., v12=0.3, g12=400., thickness=0.01),
    dict(kind='ortho', e1=19500000., e2=1480000., v12=0.3, g12=800000., thickness=0.005),
    dict(kind='ortho', e1=54000., e2=18000., v12=0.25, g12=9000., thickness=0.3),
    dict(kind='ortho', e1=9000., e2=135000., v12=0.02, g12=5000., thickness=0.125),
    dict(kind='ortho', e1=30000., e2=30000., v12=-0.4, g12=25000., thickness=0.5),
]


@st.composite
def ortho(draw, wide=False, allow=False, unit=None):
    if draw(st.integers(0, 3)) == 0:
        m = dict(draw(st.sampled_from(TYPICAL)))
    else:
        lo, hi = (1e-3, 1e12) if wide else (1e2, 1e7)
        e1 = draw(logfloat(lo, hi))
        r = draw(logfloat(0.01, 20))
        e2 = sig(e1 * r, 6)
        vmax = min(0.5, 0.97 * math.sqrt(e1 / e2))
        v = draw(st.one_of(st.sampled_from([0.0, 0.3, 0.25]), nice(-0.5, 0.5), st.sampled_from([0.5, -0.5])))
        v = max(-vmax, min(vmax, v))
        g = sig(e1 * draw(logfloat(0.005, 2)), 6)
        m = dict(kind='ortho', e1=e1, e2=e2, v12=v, g12=g,
                 thickness=draw(logfloat(1e-6, 1e3) if wide else logfloat(0.01, 2)))
    if allow:
        for k in ('t1', 'c1', 't2', 'c2', 's'):
            m[k] = draw(logfloat(1, 5000))
    return m


@st.composite
def iso(draw, wide=False, allow=False):
    e = draw(logfloat(1e-3, 1e12) if wide else logfloat(1e2, 1e7))
    v = draw(st.one_of(st.sampled_from([0.3, 0.0, 0.33, -0.5, 0.5]), nice(-0.5, 0.5)))
    g = draw(st.one_of(st.just(sig(e / (2 * (1 + v)), 8)), logfloat(0.01, 2).map(lambda r: sig(e * r, 6))))
    m = dict(kind='iso', e=e, v=v, g=g, thickness=draw(logfloat(1e-6, 1e3) if wide else logfloat(0.01, 2)))
    if allow:
        for k in ('t', 'c', 's'):
            m[k] = draw(logfloat(1, 5000))
    return m


def material(mixed=True, **kw):
    return st.one_of(ortho(**kw), ortho(**kw), ortho(**kw), iso(wide=kw.get('wide', False), allow=kw.get('allow', False))) if mixed else ortho(**kw)


ANGLES = [0, 90, 45, -45, 30, -30, 60, -60, 15, 75, -90, 180, 135, 22.5]


def angle(big=True):
    opts = [st.sampled_from(ANGLES), st.integers(-90, 90), nice(-180, 180, 2), nice(-90, 90, 6)]
    if big:
        opts.append(st.integers(-720, 720))
    return st.one_of(*opts)


# (moduli, lengths): mostly as drawn (MPa and mm), but also Pa and m, GPa and mm, GPa and m, psi and in
UNITS = [(1, 1)] * 7 + [(1e6, 1e-3), (1e-3, 1), (1e-3, 1e-3), (145.0, 0.04)]
NAMED = [None] * 4 + ['ply']  # one name for all materials of a laminate: names are no keys


@st.composite
def laminate(draw, max_plies=12, min_plies=1, mixed=True, one_material=False, symmetric=None, allow=False, big=True,
             scalar=None, long=False):
    """{'angles', 'mats', 'ply' (index per ply), 'scalar' (one material object handed over instead of a list)}"""
    mode = draw(st.integers(0, 5))
    n = draw(st.integers(min_plies, max_plies))
    if long and draw(st.integers(0, 7)) == 0:
        n = draw(st.integers(max_plies, 6 * max_plies))
    ang = angle(big)
    if mode == 0:
        angles = [draw(ang)] * n
    elif mode == 1:
        unit = draw(st.lists(ang, min_size=1, max_size=3))
        angles = (unit * (n // len(unit) + 1))[:n]
    else:
        angles = draw(st.lists(ang, min_size=n, max_size=n))
    if symmetric is None:
        symm = draw(st.integers(0, 3)) == 0
    else:
        symm = symmetric
    if one_material:
        mats = [draw(material(mixed=mixed, allow=allow))]
    else:
        k = draw(st.sampled_from([1, 1, 2, 2, 3]))
        mats = [draw(material(mixed=mixed, allow=allow)) for _ in range(k)]
        how = draw(st.integers(0, 3))
        if len(mats) > 1 and how <= 1:
            # same moduli scale for the plies of one laminate
            f = {'ortho': 'e1', 'iso': 'e'}
            e0 = mats[0][f[mats[0]['kind']]]
            for m in mats[1:]:
                c = sig(e0 / m[f[m['kind']]], 3)
                for key in ('e1', 'e2', 'g12', 'e', 'g'):
                    if key in m:
                        m[key] = m[key] * c
        elif len(mats) > 1 and how == 2:
            # materials that differ in one constant only
            for i in range(1, len(mats)):
                mats[i] = dict(mats[0])
                key = draw(st.sampled_from(sorted(x for x in mats[0] if x not in ('kind', 'name'))))
                mats[i][key] = (1.5 if key == 'e1' else 0.75) * mats[0][key] or 0.1
    units = draw(st.sampled_from(UNITS))
    label = draw(st.sampled_from(NAMED))
    for m in mats:
        for key in ('e1', 'e2', 'g12', 'e', 'g', 't1', 'c1', 't2', 'c2', 's', 't', 'c'):
            if key in m:
                m[key] = m[key] * units[0]
        m['thickness'] *= units[1]
        if label:
            m['name'] = label
    ply = draw(st.lists(st.integers(0, len(mats) - 1), min_size=n, max_size=n)) if len(mats) > 1 else [0] * n
    if symm:
        k = draw(st.integers(0, 1))
        angles = angles + angles[::-1][k:]
        ply = ply + ply[::-1][k:]
        if symmetric is None and draw(st.integers(0, 2)) == 0:  # symmetric but for one ply
            i = draw(st.integers(0, len(angles) - 1))
            angles = angles[:i] + [draw(st.sampled_from([-angles[i], angles[i] + 90, 45]))] + angles[i + 1:]
    sc = len(set(ply)) == 1 and (draw(st.booleans()) if scalar is None else scalar)
    L = dict(angles=angles, mats=mats, ply=ply, scalar=bool(sc))
    if draw(st.integers(0, 7)) == 0:
        L['container'] = draw(st.sampled_from(['tuple', 'array']))
    return L


def build_mat(m):
    if m['kind'] == 'iso':
        k = dict(e=m['e'], v=m['v'], g=m['g'], thickness=m['thickness'])
        k.update({x: m[x] for x in ('t', 'c', 's', 'name') if x in m})
        return IsotropicMaterial(**k)
    k = {x: m[x] for x in ('e1', 'e2', 'v12', 'g12', 'thickness')}
    k.update({x: m[x] for x in ('t1', 'c1', 't2', 'c2', 's', 'name') if x in m})
    return OrthotropicMaterial(**k)


def build_lam(L):
    if 'xiD' in L:
        d = {k: L[k] for k in ('xiA', 'xiB', 'xiD', 'T') if k in L}
        return LaminateProperty(d, build_mat(L['mats'][0]))
    ms = [build_mat(m) for m in L['mats']]
    c = L.get('container', 'list')
    # an array of whole angles holds integers, as numpy makes it
    ang = np.array(L['angles']) if c == 'array' else tuple(L['angles']) if c == 'tuple' else list(L['angles'])
    if L.get('scalar'):
        return LaminateProperty(ang, ms[L['ply'][0]])
    p = [ms[i] for i in L['ply']]
    return LaminateProperty(ang, tuple(p) if c == 'tuple' else p)


def plies_of(L):
    return [L['mats'][i] for i in L['ply']]


def ref_ABD(L):
    """Reference A, B, D of a laminate case (layup or lamination parameters)."""
    if 'xiD' in L:
        T = L['T']
        A = T * ref.Q_from_lp(L['mats'][0], L['xiA']) if L.get('xiA') is not None else np.zeros((3, 3))
        return A, np.zeros((3, 3)), T ** 3 / 12 * ref.Q_from_lp(L['mats'][0], L['xiD'])
    return ref.ABD(L['angles'], plies_of(L))


def height(L):
    return L['T'] if 'xiD' in L else float(sum(m['thickness'] for m in plies_of(L)))


@st.composite
def lp_laminate(draw, with_A=None):
    """A feasible laminate by lamination parameters: those of a random layup."""
    m = draw(material())
    k = draw(st.integers(1, 6))
    ang = draw(st.lists(angle(False), min_size=k, max_size=k))
    w = draw(st.lists(nice(0.1, 1, 2), min_size=k, max_size=k))
    xa, xd = ref.lamination_parameters(ang + ang[::-1], w + w[::-1])
    L = dict(mats=[m], xiD=[float(x) for x in xd], T=draw(logfloat(0.05, 20)))
    if with_A or (with_A is None and draw(st.booleans())):
        L['xiA'] = [float(x) for x in xa]
    return L


def loads6():
    comp = st.one_of(st.just(0.0), st.just(0.0), nice(-1000, 1000, 3), st.integers(-5000, 5000),
                     logfloat(1e-3, 1e6), logfloat(1e-3, 1e6).map(lambda x: -x))
    return st.lists(comp, min_size=6, max_size=6)


# ------------------------------------------------------------------ plates

FREE6 = ['TX', 'TY', 'TZ', 'RX', 'RY', 'RZ']


@st.composite
def edge_list(draw):
    s = draw(st.lists(st.sampled_from(FREE6), max_size=6, unique=True))
    return s


@st.composite
def supports(draw, kinds=None):
    """Any way to give the supports of the four edges."""
    k = draw(st.integers(0, 8)) if kinds is None else draw(st.sampled_from(kinds))
    if k == 0:
        return draw(st.sampled_from([None, 'PINNED', 'CLAMPED']))
    if k <= 4:
        names = list(ref.NAMES)
        c = {e: draw(st.sampled_from(names)) for e in ref.EDGES}
        for e in ref.EDGES:
            t = draw(st.integers(0, 9))
            if t == 0:
                c[e] = c[e].upper()
            elif t == 1:
                c[e] = c[e].capitalize()
        return c
    if k == 7:  # some edges by name and some by list
        return {e: draw(st.one_of(st.sampled_from(list(ref.NAMES)), edge_list())) for e in ref.EDGES}
    return {e: draw(edge_list()) for e in ref.EDGES}


def make_supported(cons):
    """The smallest addition to the supports that leaves no rigid-body deflection."""
    if ref.supported(cons):
        return cons
    cons = dict(cons)
    for e in ref.EDGES:
        if isinstance(cons[e], str):
            cons[e] = 'pinned' if cons[e].lower() == 'free' else cons[e]
        elif 'TZ' not in cons[e]:
            cons[e] = cons[e] + ['TZ']
        if ref.supported(cons):
            return cons
    return cons


def supported_supports(kinds=None):
    return supports(kinds).map(make_supported)


def side():
    return st.one_of(st.sampled_from([1.0, 100.0, 200.0, 360.0, 500.0]), logfloat(0.5, 5000))


@st.composite
def sides(draw):
    a = draw(side())
    if draw(st.integers(0, 4)) == 0:
        return a, a
    return a, sig(a * draw(logfloat(0.15, 8)), 4)


@st.composite
def plane_loads(draw, compressive=False):
    """Nxx, Nyy, Nxy; with compression or shear if asked for."""
    def comp():
        return st.one_of(st.sampled_from([0, 0, -1, 1]), nice(-1, 1, 2), nice(-1, 1, 3), st.integers(-3000, 3000))
    v = [draw(comp()) for _ in range(3)]
    if compressive:
        if not (v[0] < 0 or v[1] < 0 or v[2] != 0):
            i = draw(st.integers(0, 2))
            v[i] = draw(st.sampled_from([-1, -0.5, -1000, -0.001]))
    return v


@st.composite
def plate(draw, max_m=4, mixed=True, lam=None, compressive=False, kinds=None, proper=True, min_m=1):
    L = draw(lam if lam is not None else st.one_of(laminate(6, mixed=mixed), laminate(6, mixed=mixed), lp_laminate()))
    a, b = draw(sides())
    cons = draw(supported_supports(kinds) if proper else supports(kinds))
    N = draw(plane_loads(compressive))
    m, n = draw(st.integers(min_m, max_m)), draw(st.integers(min_m, max_m))
    return dict(lam=L, a=a, b=b, cons=cons, N=N, m=m, n=n)


def build_plate(P, lam=None, **over):
    k = dict(a=P['a'], b=P['b'], Nxx=P['N'][0], Nyy=P['N'][1], Nxy=P['N'][2], m=P['m'], n=P['n'])
    if P['cons'] is not None:
        k['constraints'] = P['cons']
    k.update(over)
    return PlateStructure(lam if lam is not None else build_lam(P['lam']), **k)


# ------------------------------------------------------------------ comparison


def fail(fmt, *a):
    raise Violation(fmt % a if a else fmt)


def arr(x):
    return np.asarray(x, dtype=float)


def close(got, want, tol, what):
    """|got - want| <= tol elementwise (tol: array or number); shapes must agree."""
    got, want = arr(got), arr(want)
    if got.shape != want.shape:
        fail('%s: shape %s instead of %s', what, got.shape, want.shape)
    bad = ~(np.abs(got - want) <= tol)
    if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0]) if got.ndim else ()
        t = np.broadcast_to(np.asarray(tol, float), got.shape)
        fail('%s: element %s is %r instead of %r (tolerance %.3g)', what, i, float(got[i]), float(want[i]), float(t[i]))


def close_rel(got, want, rtol, what):
    want = arr(want)
    close(got, want, rtol * (np.max(np.abs(want)) if want.size else 0) + 1e-300, what)
