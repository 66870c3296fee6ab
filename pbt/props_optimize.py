"""C22 maximisation, C23 weight minimisation, C27 load magnitude and warnings, C29 the plot of the optimisation."""
import functools, warnings
import numpy as np
import scipy.linalg
import matplotlib
import matplotlib.pyplot as plt
import matplotlib.axes
import matplotlib.collections
from hypothesis import strategies as st

from composipy.optimize import maximize_buckling_load, minimize_panel_weight
from .core import sub, Skip
from .gen import *
from . import ref, gen

# The search is a gradient method on a concave but not everywhere differentiable function: where two modes buckle at
# the same load it may stop at the kink. 'Notably' higher therefore means: 0.5 % where the optimum found has one lowest
# mode (0.09 % seen), and 15 % at a kink (the largest seen in 3000 random panels on the unchanged tree was 5.8 %).
SMOOTH, KINK = 0.005, 0.15


def lower(x1, pen):
    return 2 * abs(x1) - 1 if pen else 2 * x1 * x1 - 1


class Panel:
    """Reference buckling load of the laminates (xi1, xi3) of one panel, of thickness T, for loads N."""

    def __init__(self, c, T, N):
        bas = ref.basis(c['cons'], c['m'], c['n'])
        K = [ref.K_bending(bas, T ** 3 / 12 * ref.Q_from_lp(c['mat'], xi), c['a'], c['b'])[0]
             for xi in ([0, 0, 0, 0], [1, 0, 0, 0], [0, 0, 1, 0])]
        self.K0, self.K1, self.K3 = K[0], K[1] - K[0], K[2] - K[0]
        self.G = ref.KG(bas, *N, c['a'], c['b'])[0]

    def mus(self, x):
        return scipy.linalg.eigh(self.G, self.K0 + x[0] * self.K1 + x[1] * self.K3, eigvals_only=True)

    def load(self, x):
        try:
            mu = scipy.linalg.eigh(self.G, self.K0 + x[0] * self.K1 + x[1] * self.K3, eigvals_only=True,
                                   subset_by_index=[0, 0])[0]
        except np.linalg.LinAlgError:
            return -np.inf
        return -1 / mu if mu < 0 else np.inf

    def kink(self, x, gap=0.1):
        mu = self.mus(x)
        return len(mu) > 1 and mu[1] < (1 - gap) * mu[0]

    def check_domain(self):
        for x in ((0, 0), (-1, 1), (1, 1), (0, -1)):
            mu = self.mus(x)
            if not -mu[0] > 1e-3 * np.abs(mu).max():
                raise Skip('no or hardly any positive buckling factor')

    def best(self, pen):
        """The load of some feasible laminate, close to the highest (the load is a concave function)."""
        g = (5 ** .5 - 1) / 2

        def gold(f, a, b, n):
            lo, hi = f(a), f(b)
            c, d = b - g * (b - a), a + g * (b - a)
            fc, fd = f(c), f(d)
            top = max(lo, hi, fc, fd)
            for _ in range(n):
                if fc[0] > fd[0]:
                    b, d, fd = d, c, fc
                    c = b - g * (b - a)
                    fc = f(c)
                else:
                    a, c, fc = c, d, fd
                    d = a + g * (b - a)
                    fd = f(d)
                top = max(top, fc, fd)
            return top
        return gold(lambda x1: gold(lambda x3: (self.load((x1, x3)), x1, x3), lower(x1, pen), 1., 18), -1., 1., 20)


@st.composite
def panel(draw, max_m=4, lo=2):
    mat = draw(ortho())
    mat['thickness'] = 1.0
    a, b = draw(sides())
    cons = draw(st.one_of(st.sampled_from(['PINNED', 'PINNED', 'CLAMPED']), supported_supports([1, 2, 3, 4, 6])))
    N = draw(plane_loads(True))
    m, n = draw(st.integers(lo, max_m)), draw(st.integers(lo, max_m))
    return dict(mat=mat, a=a, b=b, cons=cons, N=N, m=m, n=n)


@st.composite
def c22_case(draw, **kw):
    c = draw(panel(**kw))
    c['T'] = sig(min(c['a'], c['b']) * draw(logfloat(1e-3, 0.1)), 4)
    c['pen'] = draw(st.booleans())
    return c


def kwargs(c, **over):
    m = c['mat']
    k = dict(a=c['a'], b=c['b'], E1=m['e1'], E2=m['e2'], v12=m['v12'], G12=m['g12'], Nxx=c['N'][0], Nyy=c['N'][1],
             Nxy=c['N'][2], m=c['m'], n=c['n'], panel_constraint=c['cons'])
    if 'T' in c:
        k['T'] = c['T']
    k.update(over)
    return k


def normalised(N):
    s = max(abs(x) for x in N)
    return [x / s for x in N], s


def onote(c, note):
    note('supports: %s' % (c['cons'] if isinstance(c['cons'], str) else 'per edge'))
    note('loads: %s' % ''.join('0' if x == 0 else '-' if x < 0 else '+' for x in c['N']))
    note('largest load %s 1' % ('above' if max(map(abs, c['N'])) > 1 else 'up to'))


def check_feasible(x, pen, what):
    x1, x3 = float(x[0]), float(x[1])
    if not (-1 - 1e-9 <= x1 <= 1 + 1e-9 and -1 - 1e-9 <= x3 <= 1 + 1e-9):
        fail('%s (%r, %r) is out of the bounds', what, x1, x3)
    if not x3 - lower(x1, pen) >= -2.5e-4:
        fail('%s (%r, %r) is outside of the %s by %r', what, x1, x3, 'triangle' if pen else 'parabola', lower(x1, pen) - x3)


def check_max(c, res, p, note, what='the maximisation'):
    x = arr(res.x)
    if x.shape != (2,):
        fail('%s returned x of shape %s', what, x.shape)
    check_feasible(x, c['pen'], 'the optimum of ' + what)
    l = p.load(x)
    fun = float(np.asarray(res.fun).reshape(()))
    close(-fun, l, 1e-6 * abs(l), 'minus the objective reported by %s at %s' % (what, x.tolist()))
    best, b1, b3 = p.best(c['pen'])
    d = 1 - l / best
    kink = p.kink(x, 0.05)
    note('one lowest mode' if not kink else 'several lowest modes')
    note('deficit %s' % ('< 1e-4' if d < 1e-4 else '< 1 %' if d < 0.01 else '< 5 %' if d < 0.05 else '>= 5 %'))
    e = x[1] - lower(x[0], c['pen'])
    note('optimum %s' % ('at the start' if np.abs(x).max() < 1e-6 else 'on the boundary' if e < 1e-3 or x[1] > 0.999 or abs(x[0]) > 0.999 else 'inside'))
    if d > (KINK if kink else SMOOTH):
        fail('%s found the load %r at %s; the feasible laminate (%r, %r) has %r', what, l, x.tolist(), b1, b3, best)


PAPER = dict(mat=dict(kind='ortho', e1=128e3, e2=13e3, v12=0.3, g12=6.4e3, thickness=1.0), a=508., b=254., cons='PINNED', m=4, n=4,
             N=[-1., 0, 0], T=3.048, pen=True)
C22_EX = [dict(PAPER, N=N, pen=p, m=3, n=3) for N in ([-1., 0, 0], [0, -1., 0], [-1., -1., 0], [0, 0, 1.], [-0.5, 0.2, -0.7]) for p in (True, False)]
C22_EX += [dict(PAPER, T=0.003, m=3, n=3, N=[-1, -0.5, 0.2]), dict(PAPER, T=60.0, m=3, n=2, N=[-5, -3000, 20], pen=False),
           dict(PAPER, cons=dict(x0='clamped', xa='pinned', y0='free', yb='pinned'), m=4, n=3, N=[-1, 0, 0.3], pen=False)]
C22_DEEP = [dict(PAPER, N=N, pen=p, m=7, n=7) for N in ([-1., 0, 0], [-1., -0.5, 0], [-1., -1., 0], [0, 0, 1.], [-1, 0, 0.5]) for p in (True, False)]


@sub('C22', 'optimum', c22_case, 200, 4000, rule='shear, unequal supports or m != n', budget=60,
     nontrivial=lambda c: c['N'][2] != 0 or not isinstance(c['cons'], str) or c['m'] != c['n'], explicit=C22_EX, explicit_thorough=C22_DEEP)
def c22(c, note):
    onote(c, note)
    note('triangle' if c['pen'] else 'parabola')
    p = Panel(c, c['T'], normalised(c['N'])[0])
    p.check_domain()
    k = kwargs(c)
    if not c['pen'] or c['m'] % 2:
        k['penalty'] = c['pen']
    check_max(c, maximize_buckling_load(**k), p, note)


# ---------------------------------------------------------------- C23

@st.composite
def c23_case(draw, **kw):
    c = draw(panel(**kw))
    c['T0'] = draw(logfloat(0.005, 50))
    c['x0'] = draw(st.one_of(st.none(), st.tuples(logfloat(0.001, 100), nice(-0.9, 0.9, 2), nice(-0.9, 0.9, 2)).map(list)))
    return c


def scaled_loads(c):
    """The direction N with the magnitude for which the thinnest panel has about the thickness T0."""
    N, s = normalised(c['N'])
    p = Panel(c, 1.0, N)
    p.check_domain()
    best = p.best(True)
    f = sig(best[0] * c['T0'] ** 3, 4)
    return p, best, [x * f for x in N], f


C23_EX = [dict(PAPER, N=N, m=3, n=3, T0=T, x0=x) for N, T, x in (([-1, 0, 0], 3.0, None), ([-1, -1, 0], 0.3, None), ([0, 0, 1], 20.0, [1.0, 0.2, 0.5]),
          ([-0.3, 0.2, 1], 0.05, None), ([0, -1, 0.4], 1.0, [0.1, -0.3, 0.1]),
          ([-1, -0.4, 0.5], 0.02, [15.0, 0.0, 0.0]), ([-1, -0.4, 0.5], 0.02, [15.0, 0.0, -0.9]), ([-1, 0, 0], 0.01, [1000.0, 0.5, 0.0]))]
C23_DEEP = [dict(PAPER, N=N, m=7, n=7, T0=2.0, x0=None) for N in ([-1., 0, 0], [0, 0, 1.])]


@sub('C23', 'thinnest', c23_case, 100, 2000, rule='shear, unequal supports or m != n', budget=60,
     nontrivial=lambda c: c['N'][2] != 0 or not isinstance(c['cons'], str) or c['m'] != c['n'], explicit=C23_EX, explicit_thorough=C23_DEEP)
def c23(c, note):
    onote(c, note)
    p, best, N, f = scaled_loads(c)
    k = kwargs(dict(c, N=N))
    k.pop('T', None)
    if c['x0'] is not None:
        k['x0'] = list(c['x0'])
    res = minimize_panel_weight(**k)
    if not res.success:
        note('no success reported')
        note('trivial')
        return
    note('success')
    x = arr(res.x)
    if x.shape != (3,):
        fail('x has the shape %s', x.shape)
    T = float(x[0])
    check_feasible(x[1:], True, 'the laminate')
    close(float(np.asarray(res.fun).reshape(())), T ** 3, 1e-9 * T ** 3, 'the objective reported for the thickness %r' % T)
    l = p.load(x[1:])
    fac = T ** 3 * l / f
    if not fac >= 1 - 1e-4:
        fail('the panel of thickness %r and laminate %s buckles at %r times the loads', T, x[1:].tolist(), fac)
    want = max((f / best[0]) ** (1 / 3), 0.001)
    d = T / want - 1
    kink = p.kink(x[1:], 0.05)
    note('one lowest mode' if not kink else 'several lowest modes')
    note('excess %s' % ('< 1e-4' if d < 1e-4 else '< 1 %' if d < 0.01 else '>= 1 %'))
    if d > (0.003 if not kink else 0.03):
        fail('the thickness is %r at %s; %r holds with the laminate (%r, %r)', T, x[1:].tolist(), want, best[1], best[2])


@sub('C23', 'agrees_with_maximisation', c23_case, 40, 800, rule='every case', budget=60)
def c23_max(c, note):
    """The thickness found is the one at which the laminate of the maximisation carries the loads."""
    p, best, N, f = scaled_loads(c)
    k = kwargs(dict(c, N=N))
    k.pop('T', None)
    res = minimize_panel_weight(**k)
    if not res.success:
        note('no success reported')
        note('trivial')
        return
    T = float(res.x[0])
    r = maximize_buckling_load(T=1.0, **k)
    want = max((f / -float(np.asarray(r.fun).reshape(()))) ** (1 / 3), 0.001)
    kink = p.kink(arr(r.x)) or p.kink(arr(res.x)[1:])
    note('one lowest mode' if not kink else 'several lowest modes')
    if abs(T / want - 1) > (0.004 if not kink else 0.06):
        fail('the thickness is %r; the laminate of the maximisation %s carries the loads at %r', T, arr(r.x).tolist(), want)


# ---------------------------------------------------------------- C27

@st.composite
def c27_case(draw):
    c = draw(c22_case(max_m=3))
    c['c'] = draw(st.one_of(st.integers(-40, 40).map(lambda e: 2.0 ** e), logfloat(1e-12, 1e12)))
    return c


@sub('C27', 'maximisation', c27_case, 120, 2400, rule='factor other than 1', nontrivial=lambda c: c['c'] != 1, budget=60,
     explicit=[dict(PAPER, m=3, n=3, N=N, c=f, pen=p) for N in ([-1, 0, 0], [-0.3, -1, 0.5], [0, 0, -1]) for f, p in ((4096.0, True), (0.001, False), (1e-10, True))])
def c27_max(c, note):
    onote(c, note)
    p = Panel(c, c['T'], normalised(c['N'])[0])
    p.check_domain()
    N2 = [x * c['c'] for x in c['N']]
    exact = normalised(N2)[0] == normalised(c['N'])[0]
    note('loads normalised to the same bits' if exact else 'normalised loads rounded differently')
    r1 = maximize_buckling_load(**kwargs(c, penalty=c['pen']))
    r2 = maximize_buckling_load(**kwargs(dict(c, N=N2), penalty=c['pen']))
    l1, l2 = p.load(arr(r1.x)), p.load(arr(r2.x))
    for r, l in ((r1, l1), (r2, l2)):
        f = float(np.asarray(r.fun).reshape(()))
        close(-f, l, 1e-6 * abs(l), 'minus the objective, for loads divided by the largest magnitude')
    kink = p.kink(arr(r1.x)) or p.kink(arr(r2.x))
    note('one lowest mode' if not kink else 'several lowest modes')
    if abs(l1 / l2 - 1) > (1e-3 if not kink else KINK):
        fail('the laminates %s and %s, with loads %r times as large, have the buckling loads %r and %r', arr(r1.x).tolist(), arr(r2.x).tolist(), c['c'], l1, l2)


@st.composite
def c27_min_case(draw):
    c = draw(c23_case(max_m=3))
    c['c'] = draw(logfloat(1e-3, 1e3))
    c['T0'] = draw(logfloat(0.05, 5))
    return c


@sub('C27', 'minimisation', c27_min_case, 40, 800, rule='factor other than 1', nontrivial=lambda c: c['c'] != 1, budget=60,
     explicit=[dict(PAPER, m=3, n=3, N=[-1, -0.3, 0.2], T0=0.7, x0=None, c=200.0)])
def c27_min(c, note):
    onote(c, note)
    p, best, N, f = scaled_loads(c)
    k = kwargs(c)
    k.pop('T', None)
    T, kink = [], False
    for s in (1.0, c['c']):
        k.update(zip(('Nxx', 'Nyy', 'Nxy'), [x * s for x in N]))
        r = minimize_panel_weight(**k)
        if not r.success:
            note('no success reported')
            note('trivial')
            return
        T.append(float(r.x[0]))
        kink = kink or p.kink(arr(r.x)[1:])
    q = T[1] / T[0] / c['c'] ** (1 / 3)
    if abs(q - 1) > (5e-3 if not kink else 0.05):
        fail('the thickness is %r, and %r for loads %r times as large', T[0], T[1], c['c'])


W_LOADS = [0, 0.0, -0.0, 1, -1, 1.0, -1.0, 0.5, -0.5, 1.0000001, -1.0000001, 0.9999999, -0.9999999, 1e-9, -1e-9, 2, -2, -1000, 500]


def w_case():
    x = st.one_of(st.sampled_from(W_LOADS), nice(-1, 1), nice(-3, 3, 2))
    return st.fixed_dictionaries(dict(N=st.tuples(x, x, x).map(list).filter(any), which=st.sampled_from(['max', 'max', 'min'])))


@sub('C27', 'warnings', w_case, 500, 5000, rule='every case', budget=60,
     explicit=[dict(N=N, which=w) for w in ('max', 'min') for N in ([0, 0, 0.5], [0, 0, -1], [-1, 0, 0], [0, -1, 0], [1, 1, 0], [1, -1, 0], [0.3, 0, 0], [0, 0, 2],
               [2, 0, 0], [-2, 0, 0], [0, -2, 0], [-1.5, 0.1, 0], [0.1, -1.5, 0], [0, 0, -1.0001], [1, 1, 1])])
def c27_warn(c, note):
    """The warnings of one run; the search is cut short, and what follows them is of no interest here."""
    N = c['N']
    p = dict(PAPER, m=2, n=2)
    k = kwargs(p, options=dict(maxiter=1), Nxx=N[0], Nyy=N[1], Nxy=N[2])
    if c['which'] == 'min':
        k.pop('T')
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            (maximize_buckling_load if c['which'] == 'max' else minimize_panel_weight)(**k)
        except Exception:
            if N[2] != 0 or min(N) < 0:
                raise
    # those about the loads, told apart by what they say
    big = [x for x in w if 'normaliz' in str(x.message).lower()]
    idle = [x for x in w if 'negative' in str(x.message).lower()]
    want_big = max(map(abs, N)) > 1
    want_idle = N[0] >= 0 and N[1] >= 0 and N[2] == 0
    note('%s, %s' % ('above 1' if want_big else 'up to 1', 'nothing that buckles' if want_idle else 'compression or shear'))
    texts = [str(x.message)[:80] for x in w]
    if want_big and want_idle and len(w) < 2 or (want_big or want_idle) and not w:
        fail('loads %s were not warned about (warnings: %s)', N, texts)
    if bool(big) != want_big and any('oad' in t for t in texts) or bool(idle) != want_idle and any('oad' in t for t in texts):
        fail('loads %s: warnings %s', N, texts)
    if not want_big and not want_idle and (big or idle):
        fail('loads %s were warned about: %s', N, texts)


# ---------------------------------------------------------------- C29

class Contours:
    """Records the arguments of every contour plot."""

    def __enter__(self):
        self.calls, self.saved = [], {}
        plt.close('all')
        for name in ('contour', 'contourf'):
            f = getattr(matplotlib.axes.Axes, name)
            self.saved[name] = f

            @functools.wraps(f)
            def g(ax, *a, _f=f, **k):
                self.calls.append((ax, a))
                return _f(ax, *a, **k)
            setattr(matplotlib.axes.Axes, name, g)
        return self

    def __exit__(self, *e):
        for name, f in self.saved.items():
            setattr(matplotlib.axes.Axes, name, f)
        plt.close('all')


@st.composite
def c29_case(draw):
    c = draw(c22_case(max_m=3))
    c['p'] = draw(st.one_of(st.integers(3, 9), st.integers(3, 9), st.integers(3, 9), st.integers(10, 31)))
    if c['p'] > 9:
        c['m'] = c['n'] = 2
    return c


C29_EX = [dict(PAPER, m=2, n=3, N=N, pen=pen, p=p) for N, p in (([-1, 0, 0], 5), ([-1, -0.4, 0.3], 8), ([0, 0, 1], 4), ([0, -1, 0], 14), ([-1, 0.2, 0], 30)) for pen in (True, False)]
C29_DEEP = [dict(PAPER, m=3, n=3, N=[-1, -0.4, 0.3], pen=pen, p=30) for pen in (True, False)]


@sub('C29', 'plot', c29_case, 120, 1200, rule='every case', budget=60, explicit=C29_EX, explicit_thorough=C29_DEEP)
def c29(c, note):
    onote(c, note)
    note('triangle' if c['pen'] else 'parabola')
    N, s = normalised(c['N'])
    p = Panel(c, c['T'], N)
    p.check_domain()
    q = c['p']
    note('%d points per axis' % q)
    with Contours() as rec:
        plain = maximize_buckling_load(**kwargs(c, penalty=c['pen']))
        if rec.calls or plt.get_fignums():
            fail('a plot was drawn without being asked for')
    with Contours() as rec:
        res = maximize_buckling_load(**kwargs(c, penalty=c['pen'], plot=True, points_to_plot=q))
        if len(rec.calls) < 1:
            fail('no contours were drawn')
        ax, a = rec.calls[0]
        lines = [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)) for l in ax.get_lines()]
        lines += [(np.array([x]), np.array([y])) for q_ in ax.collections if isinstance(q_, matplotlib.collections.PathCollection)
                  for x, y in np.asarray(q_.get_offsets(), float)]
    check_max(c, res, p, note, 'the maximisation with a plot')
    l1, l2 = p.load(arr(plain.x)), p.load(arr(res.x))
    if abs(l1 / l2 - 1) > (1e-3 if not (p.kink(arr(plain.x)) or p.kink(arr(res.x))) else KINK):
        fail('the optimum is %s with a plot and %s without one', arr(res.x).tolist(), arr(plain.x).tolist())

    # the grid
    if len(a) < 3:
        fail('the contours were drawn without the lamination parameters')
    X, Y, Z = [np.ma.filled(np.ma.asarray(v, dtype=float), np.nan) for v in a[:3]]
    if X.ndim == 1:
        X, Y = np.meshgrid(X, Y)
    if Z.shape != (q, q) or X.shape != Z.shape or Y.shape != Z.shape:
        fail('the grid has the shapes %s, %s, %s for %d points', X.shape, Y.shape, Z.shape, q)
    want = np.linspace(-1, 1, q)
    i, j = np.rint((X + 1) / 2 * (q - 1)).astype(int), np.rint((Y + 1) / 2 * (q - 1)).astype(int)
    if min(i.min(), j.min()) < 0 or max(i.max(), j.max()) >= q or np.abs(want[i] - X).max() > 1e-9 or np.abs(want[j] - Y).max() > 1e-9 \
            or len(set(zip(i.ravel().tolist(), j.ravel().tolist()))) != q * q:
        fail('the points of the plot are not the even grid of %d x %d points from -1 to 1: %s %s', q, q, X.tolist(), Y.tolist())
    # the values: of one load scale, the given loads or the normalised ones
    vals = []
    for x, y, z in zip(X.ravel(), Y.ravel(), Z.ravel()):
        g = y - lower(x, c['pen'])
        if g < -1e-9 and not np.isnan(z):
            fail('the infeasible point (%r, %r) has the value %r', float(x), float(y), float(z))
        exact = q in (3, 5, 9, 17, 33) and g == 0  # binary fractions: on the boundary, without rounding
        if (g > 1e-9 or exact) and np.isnan(z):
            fail('the feasible point (%r, %r) has no value', float(x), float(y))
        if not np.isnan(z):
            vals.append((float(x), float(y), float(z), p.load((x, y))))
    note('points: %s' % ('< 10' if len(vals) < 10 else '10-29' if len(vals) < 30 else '>= 30'))
    v = np.array(vals)
    ok = [np.abs(v[:, 2] - v[:, 3] / k) <= 1e-6 * np.abs(v[:, 3] / k) for k in (s, 1.0)]
    if not any(o.all() for o in ok):
        k = int(np.argmin(ok[0]))
        fail('at (%r, %r) the plot shows %r instead of the buckling load %r', v[k, 0], v[k, 1], v[k, 2], v[k, 3] / s)
    # the boundary and the optimum
    pts = [(x[0], y[0]) for x, y in lines if len(x) == 1]
    if not any(abs(x - res.x[0]) < 1e-9 and abs(y - res.x[1]) < 1e-9 for x, y in pts):
        fail('the optimum %s is not shown (points %s)', arr(res.x).tolist(), pts)
    bx = np.concatenate([x for x, y in lines if len(x) > 1] or [np.zeros(0)])
    by = np.concatenate([y for x, y in lines if len(x) > 1] or [np.zeros(0)])
    if len(bx) == 0 or abs(bx.min() + 1) > 1e-9 or abs(bx.max() - 1) > 1e-9 or np.abs(bx).min() > 1 / (q - 1):
        fail('the boundary of the region does not run from xi1 = -1 to 1')
    low = np.array([lower(x, c['pen']) for x in bx])
    top = np.abs(by - 1) < 1e-9
    if np.any((np.abs(by - low) > 1e-9) & ~top):
        k = int(np.argmax(np.abs(by - low) * ~top))
        fail('the boundary passes through (%r, %r) instead of (%r, %r)', bx[k], by[k], bx[k], low[k])
