"""C30: arguments by position or by keyword, optional arguments left out or given as documented."""
import contextlib, io
import scipy.linalg
import numpy as np
from hypothesis import strategies as st

from composipy.optimize import maximize_buckling_load, minimize_panel_weight
from composipy.nastranapi.pcomp_generator import build_pcomp
from .core import sub, Skip
from .gen import *
from . import ref, gen
from .props_plate import surface
from .props_optimize import Contours, Panel, PAPER, normalised
from .props_strength import LOADS

REQ = object()
# the documented arguments in their order, with the documented defaults
API = {
    'ortho': [('e1', REQ), ('e2', REQ), ('v12', REQ), ('g12', REQ), ('thickness', REQ), ('t1', 0), ('c1', 0), ('t2', 0), ('c2', 0), ('s', 0), ('name', None)],
    'iso': [('e', REQ), ('v', REQ), ('g', REQ), ('thickness', REQ), ('t', 0), ('c', 0), ('s', 0), ('name', None)],
    'laminate': [('stacking', REQ), ('plies', REQ)],
    'strength': [('dproperty', REQ)] + [(x, 0) for x in LOADS],
    'plate': [('dproperty', REQ), ('a', REQ), ('b', REQ), ('constraints', 'PINNED'), ('Nxx', 0), ('Nyy', 0), ('Nxy', 0), ('m', 10), ('n', 10)],
    'buckling': [('silent', True), ('num_eigvalues', 5)],
    'plot': [('nth', 0), ('ngridx', 20), ('ngridy', 20)],
    'pcomp': [('sequence', REQ), ('midi', REQ), ('ti', REQ), ('pid', 1), ('z0', ''), ('sout', 'FIBER')],
    'max': [('a', REQ), ('b', REQ), ('T', REQ), ('E1', REQ), ('E2', REQ), ('v12', REQ), ('G12', REQ), ('Nxx', 0), ('Nyy', 0), ('Nxy', 0), ('m', 7), ('n', 7),
            ('panel_constraint', 'PINNED'), ('options', None), ('tol', None), ('plot', False), ('points_to_plot', 30), ('penalty', True)],
    'min': [('a', REQ), ('b', REQ), ('E1', REQ), ('E2', REQ), ('v12', REQ), ('G12', REQ), ('Nxx', 0), ('Nyy', 0), ('Nxy', 0), ('m', 7), ('n', 7),
            ('x0', [0.1, 0.0, 0.0]), ('panel_constraint', 'PINNED'), ('options', None), ('tol', None)],
}


def spread(api, values, out, npos, over=()):
    """The same call twice: (positional, keywords) as the case has it, and keywords for every argument."""
    over = dict(over)
    full = {k: over.get(k, values.get(k, d)) for k, d in API[api]}
    pos, kw = [], {}
    stopped = False
    for i, (k, d) in enumerate(API[api]):
        if k in out and d is not REQ:
            stopped = True
            continue
        if i < npos and not stopped:
            pos.append(full[k])
        else:
            kw[k] = full[k]
    return pos, kw, full


@st.composite
def split(draw, api, keep=()):
    """Which arguments are left out (they then have the documented default) and how many go by position."""
    opt = [k for k, d in API[api] if d is not REQ and k not in keep]
    out = draw(st.lists(st.sampled_from(opt), unique=True, max_size=len(opt))) if opt else []
    return out, draw(st.integers(0, len(API[api])))


def same(x, y, what):
    x, y = np.asarray(x), np.asarray(y)
    if x.shape != y.shape or not (np.array_equal(x, y) if x.dtype.kind not in 'fc' else np.array_equal(x, y, equal_nan=True)):
        fail('%s: %s instead of %s', what, x.tolist(), y.tolist())


def inote(c, note):
    note('%s: %s, %s' % (c['api'], 'arguments left out' if c['out'] else 'all given', 'by keyword' if not c['npos'] else 'by position'))


# ---------------------------------------------------------------- constructors, strength, PCOMP

@st.composite
def small_case(draw):
    api = draw(st.sampled_from(['ortho', 'iso', 'laminate', 'strength', 'pcomp']))
    out, npos = draw(split(api))
    c = dict(api=api, out=out, npos=npos)
    if api == 'ortho':
        c['v'] = {k: v for k, v in draw(ortho(allow=True)).items() if k != 'kind'}
        c['v']['name'] = draw(st.sampled_from(['a', 'ply', '']))
    elif api == 'iso':
        c['v'] = {k: v for k, v in draw(iso()).items() if k != 'kind'}
        c['v'].update({k: draw(logfloat(1, 5000)) for k in ('t', 'c', 's')}, name=draw(st.sampled_from(['a', 'ply', ''])))
    elif api == 'laminate':
        c['lam'] = draw(st.one_of(laminate(6), lp_laminate()))
    elif api == 'strength':
        c['lam'] = draw(laminate(6))
        c['v'] = dict(zip(LOADS, draw(loads6())))
    else:
        n = draw(st.integers(1, 9))
        c['v'] = dict(sequence=draw(st.lists(st.sampled_from([0, 45.0, -45.0, 90]), min_size=n, max_size=n)), midi=draw(st.integers(1, 9)),
                      ti=draw(logfloat(0.01, 2)), pid=draw(st.integers(1, 99)), z0=draw(st.sampled_from(['', 0.0, -1.5])), sout=draw(st.sampled_from(['YES', 'NO', 'FIBER'])))
    return c


@sub('C30', 'small', small_case, 4000, 30000, rule='an argument left out or given by position', nontrivial=lambda c: bool(c['out'] or c['npos']),
     explicit=[dict(api='pcomp', out=o, npos=k, v=dict(sequence=[0, 45.0, 90], midi=1, ti=0.2, pid=7, z0=-0.3, sout='NO')) for o in ([], ['pid'], ['z0'], ['sout'], ['pid', 'z0', 'sout']) for k in (0, 6)])
def c30_small(c, note):
    inote(c, note)
    api = c['api']
    v = {k: x for k, x in c.get('v', {}).items() if k not in c['out']}
    if api in ('ortho', 'iso'):
        cls = OrthotropicMaterial if api == 'ortho' else IsotropicMaterial
        pos, kw, full = spread(api, v, c['out'], c['npos'])
        o, w = cls(*pos, **kw), cls(**full)
        if not (o == w):
            fail('%s given by %s and %s is not the one with all keywords', cls.__name__, pos, kw)
        for k, d in API[api]:
            if k == 'name' and 'name' in c['out']:
                continue
            if getattr(o, k) != full[k]:
                fail('%s of %s(*%s, **%s) is %r', k, cls.__name__, pos, kw, getattr(o, k))
        return
    if api == 'pcomp':
        pos, kw, full = spread(api, v, c['out'], c['npos'])
        x, y = build_pcomp(*pos, **kw), build_pcomp(**full)
        if x != y:
            fail('the card with the arguments %s %s is\n%sand with all of them\n%s', pos, kw, x, y)
        return
    if api == 'laminate':
        l = build_lam(c['lam'])
        pos, kw, full = spread(api, dict(stacking=l.stacking, plies=l.plies), [], c['npos'])
        o, w = LaminateProperty(*pos, **kw), LaminateProperty(**full)
        for k in ('A', 'B', 'D'):
            same(getattr(o, k), getattr(w, k), k)
        return
    lam = build_lam(c['lam'])
    pos, kw, full = spread(api, v, c['out'], c['npos'], dict(dproperty=lam))
    o, w = LaminateStrength(*pos, **kw), LaminateStrength(**full)
    same(o.epsilon0(), w.epsilon0(), 'midplane strains')
    x, y = o.calculate_stress(), w.calculate_stress()
    for k in y.columns:
        same(x[k].to_numpy(), y[k].to_numpy(), 'column %s of the stress table' % k)


# ---------------------------------------------------------------- plates

@st.composite
def plate_case(draw):
    P = draw(plate(3, compressive=True, lam=st.one_of(laminate(4, mixed=False), lp_laminate())))
    keep = draw(st.sampled_from([('m', 'n'), ('m', 'n'), ('m',), ('n',)]))
    out, npos = draw(split('plate', keep))
    b, p = draw(split('buckling')), draw(split('plot'))
    return dict(api='plate', P=P, out=out, npos=npos, b=dict(out=b[0], npos=b[1], silent=draw(st.booleans()), num=draw(st.integers(1, 4))),
                p=dict(out=p[0], npos=p[1], nth=draw(st.integers(0, 1)), gx=draw(st.integers(2, 25)), gy=draw(st.integers(2, 25))))


BASE = dict(lam=dict(angles=[30, -45, 0], mats=[gen.TYPICAL[0]], ply=[0] * 3, scalar=True), a=200., b=130., N=[-1., -0.5, 0.3], m=3, n=3, cons='CLAMPED')


@sub('C30', 'plates', plate_case, 260, 3000, rule='an argument left out or given by position',
     nontrivial=lambda c: bool(c['out'] or c['npos']), budget=60,
     explicit=[dict(api='plate', P=BASE, out=o, npos=k, b=dict(out=bo, npos=0, silent=False, num=3), p=dict(out=po, npos=0, nth=1, gx=7, gy=9))
               for o, k, bo, po in ((['m', 'n'], 0, ['num_eigvalues', 'silent'], ['nth', 'ngridx', 'ngridy']), (['constraints'], 0, [], ['ngridx']), ([], 9, ['silent'], ['nth']),
                                    (['Nyy', 'Nxy'], 3, ['num_eigvalues'], ['ngridy']))])
def c30_plates(c, note):
    inote(c, note)
    P = c['P']
    lam = build_lam(P['lam'])
    v = dict(dproperty=lam, a=P['a'], b=P['b'], Nxx=P['N'][0], Nyy=P['N'][1], Nxy=P['N'][2], m=P['m'], n=P['n'])
    v['constraints'] = P['cons'] if P['cons'] is not None else 'PINNED'
    v = {k: x for k, x in v.items() if k not in c['out']}
    if 'm' in c['out'] and 'n' not in c['out'] or 'n' in c['out'] and 'm' not in c['out']:
        v.update({k: 1 for k in ('m', 'n') if k in v})
    pos, kw, full = spread('plate', v, c['out'], c['npos'])
    o, w = PlateStructure(*pos, **kw), PlateStructure(**full)
    for k in ('a', 'b', 'Nxx', 'Nyy', 'Nxy', 'm', 'n'):
        if getattr(o, k) != full[k]:
            fail('%s is %r instead of %r', k, getattr(o, k), full[k])
    (K1, G1), (K2, G2) = o.calc_K_KG_D(), w.calc_K_KG_D()
    same(K1, K2, 'stiffness with the arguments %s left out and %d by position' % (c['out'], c['npos']))
    same(G1, G2, 'geometric stiffness with the arguments %s left out and %d by position' % (c['out'], c['npos']))
    # the analysis and the plot of the plate with everything given; at least three terms under a load that buckles
    if full['m'] * full['n'] < 3 or not (full['Nxx'] < 0 or full['Nyy'] < 0 or full['Nxy']) or not np.any(G2):
        return
    if not ref.supported(full['constraints']):
        return
    if np.abs(G2).max() <= 1e-9 * max(abs(full['Nxx']) * full['b'] / full['a'], abs(full['Nyy']) * full['a'] / full['b'], abs(full['Nxy'])):
        return  # the load does no work in the model
    try:
        s = np.abs(scipy.linalg.eigh(arr(G2), arr(K2), eigvals_only=True)).max()
    except np.linalg.LinAlgError:
        raise Skip('nearly singular stiffness')
    B = c['b']
    k = {x: B[y] for x, y in (('silent', 'silent'), ('num_eigvalues', 'num')) if x not in B['out']}
    pos, kw, full_b = spread('buckling', k, B['out'], B['npos'])
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        e1 = arr(o.buckling_analysis(*pos, **kw)[0])
    if full_b['silent'] and buf.getvalue():
        fail('the analysis was to be silent and printed %r', buf.getvalue()[:100])
    e2 = arr(w.buckling_analysis(**full_b)[0])
    n = min(full_b['num_eigvalues'], full['m'] * full['n'] - 2)
    if len(e1) != n or len(e2) != n:
        fail('%d and %d factors instead of %d', len(e1), len(e2), n)
    close(-1 / e1, -1 / e2, 1e-7 * s, 'inverse buckling factors')
    Q = c['p']
    k = {x: Q[y] for x, y in (('nth', 'nth'), ('ngridx', 'gx'), ('ngridy', 'gy')) if x not in Q['out']}
    if k.get('nth', 0) >= n:
        k['nth'] = 0
    if 'ngridx' in Q['out'] and 'ngridy' in Q['out'] and full['m'] * full['n'] > 20:
        note('default grid of a default plate')
    pos, kw, full_p = spread('plot', k, Q['out'], Q['npos'])
    x1, y1, Z1 = surface(o, *pos, **kw)
    if Z1.shape != (full_p['ngridy'], full_p['ngridx']):
        fail('the plotted surface has the shape %s instead of %s', Z1.shape, (full_p['ngridy'], full_p['ngridx']))
    o.eigenvalue = np.asarray(o.eigenvalue)
    x2, y2, Z2 = surface(o, **full_p)
    same(Z1, Z2, 'heights of the plot')
    same(x1, x2, 'x of the plot')
    same(y1, y2, 'y of the plot')


# ---------------------------------------------------------------- optimisation

@st.composite
def opt_case(draw):
    api = draw(st.sampled_from(['max', 'min']))
    out, npos = draw(split(api, ('m', 'n')))
    N = draw(plane_loads(True))
    return dict(api=api, out=out, npos=npos, N=N, m=draw(st.integers(2, 3)), n=draw(st.integers(2, 3)), T=draw(logfloat(0.1, 10)),
                cons=draw(st.sampled_from(['PINNED', 'CLAMPED', dict(x0='clamped', xa='pinned', y0='free', yb='pinned')])), x0=[1.0, 0.1, 0.2],
                options=draw(st.sampled_from([None, dict(maxiter=60)])), tol=draw(st.sampled_from([None, 1e-7])), plot=draw(st.sampled_from([False, False, True])),
                points=draw(st.integers(3, 6)), penalty=draw(st.booleans()))


OPT = dict(N=[-1., -0.5, 0.3], m=2, n=3, T=2.0, cons='CLAMPED', x0=[1.0, 0.1, 0.2], options=dict(maxiter=60), tol=1e-7, plot=False, points=4, penalty=False)


@sub('C30', 'optimisation', opt_case, 60, 1000, rule='an argument left out or given by position', nontrivial=lambda c: bool(c['out'] or c['npos']), budget=60,
     explicit=[dict(OPT, api='max', out=['n'], npos=0), dict(OPT, api='max', out=['m'], npos=0, n=2, N=[-1, -0.5, 0]), dict(OPT, api='max', out=['points_to_plot'], npos=0, plot=True, n=2),
               dict(OPT, api='max', out=['plot'], npos=8), dict(OPT, api='max', out=['penalty', 'panel_constraint'], npos=0), dict(OPT, api='max', out=[], npos=18),
               dict(OPT, api='min', out=['m'], npos=0, n=2, N=[-1, -0.5, 0]), dict(OPT, api='min', out=['n'], npos=0), dict(OPT, api='min', out=['x0'], npos=0), dict(OPT, api='min', out=[], npos=15),
               dict(OPT, api='min', out=['Nxx', 'panel_constraint'], npos=4), dict(OPT, api='max', out=['Nyy', 'Nxy'], npos=0)])
def c30_opt(c, note):
    inote(c, note)
    m = PAPER['mat']
    v = dict(a=PAPER['a'], b=PAPER['b'], T=c['T'], E1=m['e1'], E2=m['e2'], v12=m['v12'], G12=m['g12'], Nxx=c['N'][0], Nyy=c['N'][1], Nxy=c['N'][2], m=c['m'], n=c['n'],
             panel_constraint=c['cons'], options=c['options'], tol=c['tol'], plot=c['plot'], points_to_plot=c['points'], penalty=c['penalty'], x0=list(c['x0']))
    names = [k for k, d in API[c['api']]]
    v = {k: x for k, x in v.items() if k in names and k not in c['out']}
    f = maximize_buckling_load if c['api'] == 'max' else minimize_panel_weight
    pos, kw, full = spread(c['api'], v, c['out'], c['npos'])
    N = [full[k] for k in ('Nxx', 'Nyy', 'Nxy')]
    if not any(N):
        raise Skip('no load left')
    q = dict(PAPER, m=full['m'], n=full['n'], cons=full['panel_constraint'])
    p = Panel(q, full.get('T', 1.0), normalised(N)[0])
    p.check_domain()
    with Contours() as rec:
        r1 = f(*pos, **kw)
        calls = [np.shape(a[2]) for ax, a in rec.calls if len(a) > 2]
    if c['api'] == 'max':
        if bool(calls) != full['plot']:
            fail('%d contour plots were drawn with plot = %s', len(calls), full['plot'])
        if calls and calls[0] != (full['points_to_plot'],) * 2:
            fail('the plot has %s points instead of %d x %d', calls[0], full['points_to_plot'], full['points_to_plot'])
    with Contours():
        r2 = f(**full)
    x1, x2 = arr(r1.x), arr(r2.x)
    l1, l2 = p.load(x1[-2:]), p.load(x2[-2:])
    kink = p.kink(x1[-2:]) or p.kink(x2[-2:])
    if c['api'] == 'max':
        # the model is the one with the documented numbers of terms
        close(-float(np.asarray(r1.fun).reshape(())), l1, 1e-6 * abs(l1), 'minus the objective at the optimum %s' % x1.tolist())
        if abs(l1 / l2 - 1) > (1e-3 if not kink else 0.15):
            fail('the optimum is %s with the arguments %s left out and %d by position, and %s with all given', x1.tolist(), c['out'], c['npos'], x2.tolist())
    elif bool(r1.success) != bool(r2.success):
        note('success of one of the two')
    elif r1.success:
        fac = x1[0] ** 3 * l1 / normalised(N)[1]
        if not fac >= 1 - 1e-4:
            fail('the panel %s buckles at %r times the loads', x1.tolist(), fac)
        if abs(x1[0] / x2[0] - 1) > (5e-3 if not kink else 0.05):
            fail('the thickness is %r with the arguments %s left out and %d by position, and %r with all given', x1[0], c['out'], c['npos'], x2[0])
    else:
        note('trivial')


@sub('C30', 'solver', lambda: st.fixed_dictionaries(dict(api=st.sampled_from(['max', 'min']), N=plane_loads(True), m=st.integers(2, 3), n=st.integers(2, 3), T=logfloat(0.1, 10),
                                                         maxiter=st.sampled_from([None, 1, 2, 3]), coarse=st.booleans(), penalty=st.booleans(), pos=st.booleans())),
     40, 600, rule='options or a tolerance are given', nontrivial=lambda c: bool(c['maxiter'] or c['coarse']), budget=40,
     explicit=[dict(api=a, N=[-1.0, 0.2, 0.4], m=3, n=3, T=1.0, maxiter=i, coarse=t, penalty=True, pos=p) for a in ('max', 'min') for i, t in ((1, False), (2, False), (None, True)) for p in (False, True)])
def c30_solver(c, note):
    """Options and tolerance reach the solver: it stops at the given number of iterations, and at once with a coarse tolerance."""
    m = PAPER['mat']
    k = dict(a=PAPER['a'], b=PAPER['b'], T=c['T'], E1=m['e1'], E2=m['e2'], v12=m['v12'], G12=m['g12'], Nxx=c['N'][0], Nyy=c['N'][1], Nxy=c['N'][2], m=c['m'], n=c['n'], penalty=c['penalty'],
             options=dict(maxiter=c['maxiter']) if c['maxiter'] else None, tol=1e6 if c['coarse'] else None, panel_constraint='PINNED', x0=[c['T'], 0.0, 0.0])
    names = [x for x, d in API[c['api']]]
    k = {x: k[x] for x in names if x in k}
    Panel(dict(PAPER, m=c['m'], n=c['n'], cons='PINNED'), 1.0, normalised(c['N'])[0]).check_domain()
    f = maximize_buckling_load if c['api'] == 'max' else minimize_panel_weight
    if c['pos']:
        first = names[:names.index('tol') + 1]
        r = f(*[k[x] for x in first], **{x: v for x, v in k.items() if x not in first})
    else:
        r = f(**k)
    note('%d iterations' % min(int(r.nit), 6))
    if c['maxiter'] and r.nit > c['maxiter']:
        fail('%d iterations with the option maxiter = %d', r.nit, c['maxiter'])
    if c['coarse'] and r.nit > 2:
        fail('%d iterations with a tolerance of 1e6', r.nit)
