"""C01 ply stiffness, C02 invariants, C03 constructors, C04 equality."""
import copy
import numpy as np
from hypothesis import strategies as st

from .core import sub, Violation
from .gen import *
from . import ref, gen

# ---------------------------------------------------------------- C01


@sub('C01', 'compliance', lambda: material(wide=True), 7500, 60000,
     rule='a material with Poisson ratio other than 0', nontrivial=lambda m: m.get('v12', m.get('v')) != 0,
     explicit=[dict(kind='iso', e=70000.0, v=0.33, g=26000.0, thickness=1.0),
               dict(kind='ortho', e1=1.0, e2=4.0, v12=0.49, g12=1.0, thickness=1.0),
               dict(kind='ortho', e1=10.0, e2=10.0, v12=0.5, g12=1.0, thickness=1.0),
               dict(kind='iso', e=10.0, v=-0.5, g=1.0, thickness=1.0),
               dict(kind='iso', e=10.0, v=0.5, g=1.0, thickness=1.0)] + gen.TYPICAL)
def c01(m, note):
    M = build_mat(m)
    Q = arr(M.Q_0)
    if Q.shape != (3, 3):
        fail('Q_0 has shape %s', Q.shape)
    o = ref.iso_as_ortho(m)
    E1, E2, v, G = o['e1'], o['e2'], o['v12'], o['g12']
    d = np.sqrt([E1, E2, G])
    close(Q / np.outer(d, d), Q.T / np.outer(d, d), 1e-12, 'symmetry of Q_0')
    S = np.diag([1 / E1, 1 / E2, 1 / G])
    S[0, 1] = S[1, 0] = -v / E1
    cond = 1 / (1 - v * v * E2 / E1)
    close((Q @ S) / np.outer(d, 1 / d), np.eye(3), 1e-12 * cond, 'Q_0 times the compliance')
    close(Q / np.outer(d, d), ref.Q_ply(m) / np.outer(d, d), 1e-12 * cond ** 2, 'Q_0')
    for i, j in ((0, 2), (1, 2), (2, 0), (2, 1)):
        if Q[i, j] != 0:
            fail('Q_0 couples shear with extension: %r', Q[i, j])
    if not np.linalg.eigvalsh(Q / np.outer(d, d)).min() > 0:
        fail('Q_0 is not positive definite')
    if m['kind'] == 'ortho':
        close(M.v21 / E2, v / E1, 1e-13 * abs(v / E1), 'v21/E2 against v12/E1')
    else:
        note('isotropic')
        o = OrthotropicMaterial(m['e'], m['e'], m['v'], m['g'], m['thickness'])
        close(Q, o.Q_0, 1e-13 * np.abs(Q).max(), 'isotropic against orthotropic Q_0')
    close(M.Q_0, Q, 0, 'second reading of Q_0')
    if E2 > E1:
        note('E2 > E1')
    if v < 0:
        note('auxetic')


# ---------------------------------------------------------------- C02

@sub('C02', 'expansion', lambda: st.fixed_dictionaries(dict(m=material(wide=True), theta=st.one_of(angle(), nice(-1000, 1000, 3)))),
     7500, 60000, rule='an angle that is no multiple of 90', nontrivial=lambda c: c['theta'] % 90 != 0,
     explicit=[dict(m=m, theta=t) for m in gen.TYPICAL + [dict(kind='iso', e=70000., v=0.3, g=27000., thickness=1.), dict(kind='iso', e=70000., v=0.3, g=9000., thickness=1.)] for t in (0, 90, 45, -30, 22.5)])
def c02(c, note):
    M = build_mat(c['m'])
    U = arr(M.Invariants())
    if U.shape != (5,):
        fail('Invariants has shape %s', U.shape)
    U1, U2, U3, U4, U5 = U
    t = np.deg2rad(c['theta'])
    c2, s2, c4, s4 = np.cos(2 * t), np.sin(2 * t), np.cos(4 * t), np.sin(4 * t)
    got = np.array([
        [U1 + U2 * c2 + U3 * c4, U4 - U3 * c4, U2 * s2 / 2 + U3 * s4],
        [U4 - U3 * c4, U1 - U2 * c2 + U3 * c4, U2 * s2 / 2 - U3 * s4],
        [U2 * s2 / 2 + U3 * s4, U2 * s2 / 2 - U3 * s4, U5 - U3 * c4]])
    want = ref.rotate_stiffness(ref.Q_ply(c['m']), c['theta'])
    close_rel(got, want, 1e-11, 'stiffness at %s degrees from the invariants' % c['theta'])
    close(U5, (U1 - U4) / 2, 1e-12 * np.abs(U).max(), 'U5 against (U1-U4)/2')
    # and the library's own rotated ply
    close_rel(got, build_lam(dict(angles=[c['theta']], mats=[c['m']], ply=[0], scalar=True)).Q_layup[0], 1e-11,
              'invariants against Q_layup')


# ---------------------------------------------------------------- C03

ARGS = {
    'ortho': [('e1', 'pos'), ('e2', 'pos'), ('v12', 'nu'), ('g12', 'pos'), ('thickness', 'pos'), ('t1', 'allow'),
              ('c1', 'allow'), ('t2', 'allow'), ('c2', 'allow'), ('s', 'allow')],
    'iso': [('e', 'pos'), ('v', 'nu'), ('g', 'pos'), ('thickness', 'pos'), ('t', 'allow'), ('c', 'allow'), ('s', 'allow')],
    'plate': [('a', 'pos'), ('b', 'pos'), ('Nxx', 'any'), ('Nyy', 'any'), ('Nxy', 'any'), ('m', 'int'), ('n', 'int')],
}
CLS = {'ortho': OrthotropicMaterial, 'iso': IsotropicMaterial}
REQUIRED = {'ortho': 5, 'iso': 4, 'plate': 2}


@st.composite
def number_of(draw, kind):
    """A valid number and a way to write it: [value, form]."""
    if kind == 'int':
        v = draw(st.one_of(st.integers(1, 12), st.integers(1, 46)))  # of the 50 functions at most four are removed by the supports
        return [v, draw(st.sampled_from(['int', 'float', 'str', 'npint']))]
    if kind == 'nu':
        v = draw(st.one_of(nice(-0.5, 0.5, 4), st.sampled_from([0.5, -0.5, 0.0])))
    elif kind == 'any':
        v = draw(st.one_of(nice(-1000, 1000, 4), st.integers(-10 ** 6, 10 ** 6).map(float), logfloat(1e-9, 1e9), st.just(0.0)))
    elif kind == 'allow':
        v = draw(st.one_of(logfloat(1e-6, 1e9), st.just(0.0), st.integers(1, 5000).map(float)))
    else:
        v = draw(st.one_of(logfloat(1e-6, 1e12), st.integers(1, 10 ** 6).map(float)))
    forms = ['float', 'str', 'npfloat']
    if v == int(v):
        forms += ['int', 'intstr']
    return [v, draw(st.sampled_from(forms))]


def form(vf):
    v, f = vf
    return {'int': lambda: int(v), 'float': lambda: float(v), 'str': lambda: repr(v), 'npint': lambda: np.int64(v),
            'npfloat': lambda: np.float64(v), 'intstr': lambda: str(int(v))}[f]()


BAD = {
    'pos': [-1e-9, -1, -200000.0, '-3', 'abc', '', None, [1.0], {}, '1,5', 'nan'],
    'allow': [-1e-9, -1, -1500.0, '-3', 'abc', [1.0], {}, 'nan'],
    'nu': [0.5000001, -0.5000001, 0.51, 1, -1, 2.5, '0.6', 'nu', [0.3], None, 'nan'],
    'any': ['abc', '', [1.0], {}, None, '1 2', 'nan'],
    'int': [0, -1, -5, 0.5, 1.5, 2.000001, '0', '1.5', 'three', [3], None, 9.99, 'nan', 'inf'],
}


@st.composite
def ctor_case(draw):
    kind = draw(st.sampled_from(['ortho', 'ortho', 'iso', 'plate', 'plate']))
    args = ARGS[kind]
    given = REQUIRED[kind] + draw(st.integers(0, len(args) - REQUIRED[kind]))
    vals = [draw(number_of(k)) for _, k in args[:given]]
    bad = None
    if draw(st.booleans()):
        i = draw(st.integers(0, given - 1))
        bad = [i, draw(st.sampled_from(BAD[args[i][1]]))]
        if args[i][1] in ('pos', 'allow') and draw(st.booleans()):
            bad[1] = -draw(logfloat(1e-12, 1e9))
        if args[i][1] == 'nu' and draw(st.booleans()):
            bad[1] = draw(st.sampled_from([1, -1])) * (0.5 + draw(logfloat(1e-9, 1e3)))
        if args[i][1] == 'int' and draw(st.booleans()):
            bad[1] = draw(st.integers(1, 30)) + draw(st.sampled_from([0.5, 0.25, 0.01, 1e-6]))
    return dict(kind=kind, vals=vals, bad=bad, keywords=draw(st.booleans()))


_LAM = LaminateProperty([0, 90, 0], OrthotropicMaterial(129500, 9370, 0.38, 5240, 0.2))


def make(kind, names, vals, keywords):
    if kind == 'plate':
        req = 2
        pos = [_LAM] + ([] if keywords else vals[:2])
        kw = dict(zip(names, vals)) if keywords else dict(zip(names[2:], vals[2:]))
        return PlateStructure(*pos, **kw)
    if keywords:
        return CLS[kind](**dict(zip(names, vals)))
    return CLS[kind](*vals)


@sub('C03', 'numbers', ctor_case, 6000, 60000, rule='one invalid argument, or an argument given as string or numpy number',
     nontrivial=lambda c: c['bad'] is not None or any(f not in ('float', 'int') for _, f in c['vals']),
     explicit=[dict(kind='iso', vals=[[70000.0, 'float'], [0.3, 'float'], [26000.0, 'float'], [1.0, 'float']], bad=None, keywords=False)]
     + [dict(kind=k, vals=[[2.0 if t == 'int' else 0.25, 'float'] for _, t in ARGS[k]], bad=[i, b], keywords=kw)
        for k in ARGS for i, (_, t) in enumerate(ARGS[k]) for b in BAD[t] for kw in (False, True)])
def c03(c, note):
    kind = c['kind']
    names = [n for n, _ in ARGS[kind]][:len(c['vals'])]
    types = [t for _, t in ARGS[kind]]
    vals = [form(v) for v in c['vals']]
    if c['bad'] is not None:
        i, b = c['bad']
        vals[i] = b
        note('invalid ' + types[i])
        try:
            make(kind, names, vals, c['keywords'])
        except ValueError:
            return
        except Exception as e:
            fail('%s with %s=%r raised %s instead of ValueError', kind, names[i], b, type(e).__name__)
        fail('%s accepted %s=%r', kind, names[i], b)
    note('valid ' + kind)
    try:
        o = make(kind, names, vals, c['keywords'])
    except Exception as e:
        fail('%s rejected valid arguments %s: %s: %s', kind, dict(zip(names, vals)), type(e).__name__, e)
    for nme, (v, f) in zip(names, c['vals']):
        g = getattr(o, nme)
        if isinstance(g, str) or not (g == v):
            fail('%s(%s=%r) reports %s = %r', kind, nme, form([v, f]), nme, g)
    if kind == 'plate' and o.dproperty is not _LAM:
        fail('the plate reports another laminate')
    if kind != 'plate' and len(c['vals']) > REQUIRED[kind]:
        note('allowables given')
    if kind == 'plate':
        for nme, default in (('Nxx', 0), ('Nyy', 0), ('Nxy', 0), ('m', 10), ('n', 10)):
            if nme not in names and getattr(o, nme) != default:
                fail('default of %s is %r', nme, getattr(o, nme))
    else:
        # a working object, for constants that a material can have
        v = [float(x) for x, _ in c['vals']]
        if (abs(v[1]) < 1 if kind == 'iso' else v[0] > 0 and v[2] ** 2 * v[1] / v[0] < 1 - 1e-9):
            arr(o.Q_0)


@sub('C03', 'names', lambda: st.lists(st.tuples(st.sampled_from(['ortho', 'iso']),
                                               st.one_of(st.none(), st.none(), st.text(max_size=8))).map(list),
                                     min_size=2, max_size=12), 600, 5000,
     rule='at least two unnamed materials of one kind',
     nontrivial=lambda c: max(sum(1 for k, n in c if k == q and n is None) for q in ('ortho', 'iso')) > 1,
     explicit=[[['ortho', None], ['iso', None]] * 1500])
def c03_names(c, note):
    seen = {'ortho': set(), 'iso': set()}
    objs = []
    for k, n in c:
        kw = {} if n is None else {'name': n}
        o = OrthotropicMaterial(1000, 900, 0.2, 300, 0.1, **kw) if k == 'ortho' else IsotropicMaterial(1000, 0.2, 300, 0.1, **kw)
        objs.append((k, n, o))
    for _ in range(2):
        names = {}
        for k, n, o in objs:
            if n is not None:
                if o.name != n:
                    fail('name %r became %r', n, o.name)
            else:
                if not isinstance(o.name, str) or not o.name:
                    fail('generated name is %r', o.name)
                if names.get((k, o.name)) is not None:
                    fail('two unnamed %s materials are called %r', k, o.name)
                names[(k, o.name)] = o
                if getattr(o, '_seen_name', o.name) != o.name:
                    fail('a generated name changed')


@st.composite
def lam_len(draw):
    n = draw(st.integers(1, 8))
    k = draw(st.integers(0, 10))
    return dict(n=n, k=k, m=draw(material()), tup=draw(st.booleans()))


@sub('C03', 'plies', lam_len, 600, 5000, rule='number of plies other than number of angles', nontrivial=lambda c: c['n'] != c['k'],
     explicit=[dict(n=n, k=k, m=gen.TYPICAL[0], tup=False) for n in range(1, 5) for k in range(0, 6)])
def c03_plies(c, note):
    m = build_mat(c['m'])
    plies = [m] * c['k']
    plies = tuple(plies) if c['tup'] else plies
    ang = [10 * i for i in range(c['n'])]
    try:
        L = LaminateProperty(ang, plies)
    except ValueError:
        if c['n'] == c['k']:
            fail('%d angles with %d plies rejected', c['n'], c['k'])
        return
    if c['n'] != c['k']:
        fail('%d angles accepted with %d plies', c['n'], c['k'])
    if list(L.stacking) != ang or len(L.z_position) != c['n'] + 1:
        fail('stacking not kept')


@sub('C03', 'dproperty', lambda: st.sampled_from(['none', 'material', 'matrix', 'dict', 'string', 'class', 'laminate', 'list']), 40, 40,
     rule='anything but a laminate', nontrivial=lambda c: c != 'laminate',
     explicit=['none', 'material', 'matrix', 'dict', 'string', 'class', 'laminate', 'list'])
def c03_dprop(c, note):
    v = dict(none=None, material=OrthotropicMaterial(1, 1, 0, 1, 1), matrix=np.eye(3), dict={'xiD': [0] * 4, 'T': 1},
             string='laminate', laminate=_LAM, list=[0, 90])
    v['class'] = LaminateProperty
    try:
        p = PlateStructure(v[c], 10, 20, m=2, n=2)
    except ValueError:
        if c == 'laminate':
            fail('a laminate was rejected')
        return
    except Exception as e:
        fail('property %s raised %s', c, type(e).__name__)
    if c != 'laminate':
        fail('a plate accepted %s as its property', c)


# ---------------------------------------------------------------- C04

def fields(m):
    return (['e', 'v', 'g', 'thickness', 't', 'c', 's'] if m['kind'] == 'iso' else
            ['e1', 'e2', 'v12', 'g12', 'thickness', 't1', 'c1', 't2', 'c2', 's'])


@st.composite
def full_material(draw, kind=None):
    kind = kind or draw(st.sampled_from(['ortho', 'iso']))
    m = draw(iso()) if kind == 'iso' else draw(ortho())
    for f in fields(m):
        if f not in m:
            m[f] = draw(st.one_of(st.just(0.0), logfloat(1, 3000)))
    return m


@st.composite
def tweak(draw, m):
    """One datum changed, by a little or by much."""
    f = draw(st.sampled_from(fields(m)))
    m = dict(m)
    how = draw(st.integers(0, 3))
    if f in ('v12', 'v'):
        v = m[f]
        m[f] = float(np.nextafter(v, 0 if v else 1)) if how == 0 else (v + 0.01 if v < 0.4 else v - 0.01)
    elif how == 0 and m[f]:
        m[f] = float(np.nextafter(m[f], np.inf))
    elif how == 1 and f in ('t1', 'c1', 't2', 'c2', 's', 't', 'c'):
        m[f] = 0.0 if m[f] else 1.0
    else:
        m[f] = m[f] * 1.01 + (1.0 if m[f] == 0 else 0)
    return m, f


@st.composite
def material_pair(draw):
    m = draw(full_material())
    other, f = (dict(m), None) if draw(st.integers(0, 2)) == 0 else draw(tweak(m))
    if f is not None and draw(st.integers(0, 3)) == 0:  # two data exchanged
        f, g = draw(st.sampled_from([('t', 'c'), ('t', 's'), ('c', 's'), ('e', 'g')] if m['kind'] == 'iso' else
                                    [('t1', 'c1'), ('t2', 'c2'), ('t1', 't2'), ('c1', 'c2'), ('e1', 'e2'), ('e2', 'g12'), ('c2', 's')]))
        other = dict(m, **{f: m[g], g: m[f]})
        f = None if m[f] == m[g] else f
    return dict(a=m, b=other, f=f, names=[draw(st.sampled_from([None, 'p', 'q'])) for _ in range(2)], ints=draw(st.booleans()))


def eq_checks(x, y, want, what):
    if bool(x == y) != want or bool(y == x) != want:
        fail('%s: == gives %s and %s instead of %s', what, x == y, y == x, want)
    if bool(x != y) == want or bool(y != x) == want:
        fail('%s: != gives %s', what, x != y)
    if not (x == x) or not (y == y) or x != x:
        fail('%s: not equal to itself', what)


@sub('C04', 'materials', material_pair, 5000, 40000, rule='the two materials differ in one datum', nontrivial=lambda c: c['f'] is not None,
     explicit=lambda: [dict(a=dict(m, **{k: 5.0 for k in fields(m) if k not in m}),
                            b=dict(dict(m, **{k: 5.0 for k in fields(m) if k not in m}), **{f: (0.11 if f in ('v12', 'v') else 4.0)}), f=f,
                            names=['p', 'p'], ints=False)
                       for m in (gen.TYPICAL[0], dict(kind='iso', e=10.0, v=0.3, g=4.0001, thickness=1.0)) for f in fields(m)])
def c04_mat(c, note):
    a, b = dict(c['a']), dict(c['b'])
    for m, n in zip((a, b), c['names']):
        if n:
            m['name'] = n
    want = all(a[f] == b[f] for f in fields(a))
    note('equal' if want else 'differ in %s' % c['f'])
    if c['ints']:  # the same numbers written as strings
        b2 = {k: (repr(v) if isinstance(v, float) else v) for k, v in b.items()}
        eq_checks(build_mat(a), build_mat(b2), want, 'materials')
    eq_checks(build_mat(a), build_mat(b), want, 'materials differing in %s, names %s' % (c['f'], c['names']))


@st.composite
def lam_pair(draw):
    kind = draw(st.sampled_from(['ortho', 'ortho', 'iso']))
    n = draw(st.integers(1, 8))
    mats = [draw(full_material(kind)) for _ in range(draw(st.integers(1, 2)))]
    L = dict(angles=draw(st.lists(angle(), min_size=n, max_size=n)), mats=mats,
             ply=draw(st.lists(st.integers(0, len(mats) - 1), min_size=n, max_size=n)))
    R = copy.deepcopy(L)
    how = draw(st.sampled_from(['same', 'same', 'angle', 'angle', 'order', 'material', 'ply', 'drop', 'add', 'first', 'last', 'end']))
    if how in ('angle', 'first', 'last'):
        i = {'first': 0, 'last': n - 1}.get(how, draw(st.integers(0, n - 1)))
        R['angles'][i] = R['angles'][i] + draw(st.sampled_from([1, -1, 180, 0.001, 90]))
    elif how == 'order':
        R['angles'] = R['angles'][::-1]
        R['ply'] = R['ply'][::-1]
    elif how == 'material':
        i = draw(st.integers(0, len(mats) - 1))
        R['mats'][i] = draw(tweak(R['mats'][i]))[0]
    elif how == 'ply':
        m, _ = draw(tweak(mats[0]))
        R['mats'].append(m)
        R['ply'][draw(st.integers(0, n - 1))] = len(R['mats']) - 1
    elif how == 'drop' and n > 1:
        R['angles'].pop()
        R['ply'].pop()
    elif how == 'add':
        R['angles'].append(draw(angle()))
        R['ply'].append(0)
    return dict(a=L, b=R, how=how, shared=draw(st.booleans()), scalar=draw(st.booleans()))


def lam_data(L):
    return [(t, [L['mats'][i][f] for f in fields(L['mats'][i])]) for t, i in zip(L['angles'], L['ply'])]


@sub('C04', 'laminates', lam_pair, 4000, 30000, rule='pair that differs in a datum', nontrivial=lambda c: lam_data(c['a']) != lam_data(c['b']))
def c04_lam(c, note):
    want = lam_data(c['a']) == lam_data(c['b'])
    note(c['how'])
    a = build_lam(c['a'])
    b = build_lam(dict(c['b'], scalar=c['scalar'] and len(set(c['b']['ply'])) == 1))
    eq_checks(a, b, want, 'laminates (%s)' % c['how'])
    a.ABD, a.xiD  # reading results does not change what a laminate is
    eq_checks(a, b, want, 'laminates (%s) after reading results' % c['how'])
    eq_checks(a, build_lam(c['a']), True, 'laminate and its copy')


@st.composite
def lp_pair(draw):
    L = draw(lp_laminate())
    for f in fields(L['mats'][0]):
        L['mats'][0].setdefault(f, 10.0)
    R = copy.deepcopy(L)
    how = draw(st.sampled_from(['same', 'xiD', 'xiA', 'T', 'material', 'layup']))
    if how == 'xiD':
        R['xiD'][draw(st.integers(0, 3))] += draw(st.sampled_from([1e-9, 0.01, -0.1]))
    elif how == 'xiA' and 'xiA' in L:
        R['xiA'][draw(st.integers(0, 3))] += draw(st.sampled_from([1e-9, 0.01, -0.1]))
    elif how == 'T':
        R['T'] = R['T'] * draw(st.sampled_from([1.01, 0.5, 1 + 1e-12]))
    elif how == 'material':
        R['mats'][0] = draw(tweak(R['mats'][0]))[0]
    return dict(a=L, b=R, how=how)


@sub('C04', 'parameters', lp_pair, 1600, 20000, rule='pair that differs in a datum', nontrivial=lambda c: c['a'] != c['b'],
     explicit=[dict(a=dict(mats=[gen.TYPICAL[0]], xiD=[0.1, 0.0, 0.2, 0.0], T=1.0), b=dict(mats=[gen.TYPICAL[0]], xiD=[0.2, 0.0, 0.2, 0.0], T=2.0), how='x')])
def c04_lp(c, note):
    a, b = build_lam(c['a']), build_lam(c['b'])
    note(c['how'])
    want = c['a'] == c['b']
    eq_checks(a, b, want, 'laminates by lamination parameters (%s)' % c['how'])
    if c['how'] == 'layup':
        eq_checks(a, build_lam(dict(angles=[0, 90, 0], mats=c['a']['mats'], ply=[0, 0, 0])), False, 'parameters and layup')
