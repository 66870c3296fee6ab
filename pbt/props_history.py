"""C26: histories of readings on shared objects against each reading made once on fresh objects in a process of its own."""
import copy, gc, os, pickle, random, struct, contextlib, io, warnings
import numpy as np
from hypothesis import strategies as st

from composipy.optimize import maximize_buckling_load, minimize_panel_weight
from composipy.nastranapi.pcomp_generator import build_sequence, build_pcomp
from .core import sub, Skip
from .gen import *
from . import ref, gen
from .props_plate import surface

# ---------------------------------------------------------------- the world: inputs and objects built on demand


class World:
    """Objects of a case, built on demand, each once, from shared input objects."""

    def __init__(self, spec):
        self.s = spec
        self.made = {}

    def get(self, kind, i):
        k = (kind, i)
        if k not in self.made:
            self.made[k] = getattr(self, 'make_' + kind)(self.s[kind][i])
        return self.made[k]

    def make_mats(self, m):
        return build_mat(m)

    def make_angles(self, a):
        return np.array(a['v'], dtype=float) if a['box'] == 'array' else tuple(a['v']) if a['box'] == 'tuple' else list(a['v'])

    def make_plies(self, p):
        return [self.get('mats', i) for i in p]

    def make_xis(self, d):
        return {k: (list(v) if isinstance(v, list) else v) for k, v in d.items()}

    def make_lams(self, L):
        if 'xi' in L:
            return LaminateProperty(self.get('xis', L['xi']), self.get('mats', L['mat']))
        return LaminateProperty(self.get('angles', L['a']), self.get('plies', L['p']) if 'p' in L else self.get('mats', L['mat']))

    def make_strengths(self, S):
        return LaminateStrength(self.get('lams', S['lam']), *S['N'])

    def make_cons(self, c):
        return copy.deepcopy(c)

    def make_plates(self, P):
        k = dict(a=P['a'], b=P['b'], Nxx=P['N'][0], Nyy=P['N'][1], Nxy=P['N'][2], m=P['m'], n=P['n'])
        if self.s['cons'][P['cons']] is not None:
            k['constraints'] = self.get('cons', P['cons'])
        return PlateStructure(self.get('lams', P['lam']), **k)

    def make_lists(self, l):
        return list(l)

    def make_options(self, d):
        return dict(d)

    def make_starts(self, x):
        return np.array(x) if x[0] == 1 else list(x)

    # every input handed over, as plain data
    def inputs(self):
        out = {}
        for (kind, i), o in self.made.items():
            if kind in ('angles', 'xis', 'cons', 'lists', 'options', 'starts'):
                out['%s %d' % (kind, i)] = (type(o).__name__, o.tolist() if isinstance(o, np.ndarray) else copy.deepcopy(o))
            elif kind == 'plies':
                out['plies %d' % i] = [id(x) for x in o]
            elif kind == 'mats':
                names = ('e1', 'e2', 'v12', 'g12', 'thickness', 't1', 'c1', 't2', 'c2', 's') if 'e1' in self.s['mats'][i] else ('e', 'v', 'g', 'thickness', 't', 'c', 's')
                out['material %d' % i] = [getattr(o, n) for n in names]
        return out


def frame(df):
    return {c: df[c].tolist() for c in df.columns}


def mode(ev, vec, nth):
    """The nth mode, up to its amplitude, if its factor is well apart from the others."""
    mu = -1 / np.asarray(ev, float)
    if nth >= len(mu) - 1:
        return None
    gap = min(abs(mu[nth] - x) for i, x in enumerate(mu) if i != nth)
    if gap < 1e-3 * np.abs(mu).max():
        return None
    v = np.asarray(vec, float)
    v = v / np.abs(v).max()
    k = np.argmax(np.abs(v) > 0.5)
    return v * np.sign(v.flat[k])


def run_op(w, op):
    """Executes one reading and returns plain data (numbers, strings, arrays)."""
    kind, i, what = op[:3]
    if kind == 'mats':
        o = w.get('mats', i)
        return {'Q_0': lambda: o.Q_0, 'invariants': lambda: o.Invariants() if hasattr(o, 'Invariants') else 0, 'v21': lambda: getattr(o, 'v21', 0)}[what]()
    if kind == 'lams':
        o = w.get('lams', i)
        if what == 'equal':
            return bool(o == w.get('lams', op[3]))
        if what == 'repr':
            return repr(o)
        return getattr(o, what)
    if kind == 'strengths':
        o = w.get('strengths', i)
        r = getattr(o, what)()
        return r if what == 'epsilon0' else frame(r)
    if kind == 'plates':
        o = w.get('plates', i)
        if what == 'KD':
            return list(o.calc_K_KG_D())
        if what == 'KABD':
            return list(o.calc_K_KG_ABD())
        if what == 'factors':
            k = op[3]
            ev, vec = o.buckling_analysis() if k is None else o.buckling_analysis(num_eigvalues=k)
            return dict(_raw=(ev, vec), inverse_factors=-1 / np.asarray(ev), mode=mode(ev, np.asarray(vec)[:, 0], 0), kept=bool(np.array_equal(o.eigenvalue, ev) and np.array_equal(o.eigenvector, vec)))
        if what == 'plot':
            nth, gx, gy = op[3:]
            x, y, Z = surface(o, nth, gx, gy)
            ev = o.eigenvalue
            return dict(x=x, y=y, height=mode(ev, Z, nth) if np.abs(Z).max() > 0 else 0)
    if kind == 'optimise':
        P = w.s['plates'][i]
        m = dict(w.s['mats'][0])
        m = m if 'e1' in m else dict(e1=m['e'], e2=m['e'] / 2, v12=0.2, g12=m['g'])
        # panels whose optimum is well defined: supported all around, and compressed
        c = w.s['cons'][P['cons']]
        whole = isinstance(c, dict) and len(c) == 4 and all('TZ' in v if isinstance(v, list) else v in ('pinned', 'clamped') for v in c.values())
        Nx, Ny, Nxy = (x / (max(map(abs, P['N'])) or 1) for x in P['N'])
        k = dict(a=P['a'], b=P['b'], E1=m['e1'], E2=m['e2'], v12=m['v12'], G12=m['g12'], Nxx=-1, Nyy=-abs(Ny), Nxy=Nxy / 2, m=3, n=3,
                 panel_constraint=w.get('cons', P['cons']) if whole else 'PINNED')
        if op[4] is not None:  # options of the solver, which the caller may use again
            k['options'] = w.get('options', op[4])
        if what == 'max':
            return dict(rough=float(np.asarray(maximize_buckling_load(T=1.0, penalty=op[3], **k).fun).reshape(())))
        if op[3]:
            k['x0'] = w.get('starts', op[5])
        r = minimize_panel_weight(**k)
        return dict(rough=float(r.x[0]) if r.success else 0.0)
    if kind == 'nastran':
        if what == 'sequence':
            return build_sequence(op[3])
        n = len(w.s['lists'][1])
        return build_pcomp(w.get('lists', 1), w.get('lists', 2), w.get('lists', 3), sout=w.get('lists', 4) if op[3] else 'FIBER')
    raise AssertionError(op)


def alive(r):
    """The arrays, lists and tables that make up a result, as handed to the caller."""
    if isinstance(r, dict):
        r = r.get('_raw', list(r.values()))
    if isinstance(r, (list, tuple)):
        return [r] * isinstance(r, list) + [y for x in r for y in alive(x)]
    return [r] if isinstance(r, np.ndarray) else []


def result(w, op, keep=None):
    """The reading as plain data, an exception being a result too."""
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('ignore')
            r = run_op(w, op)
        if keep is not None:
            keep += [(op, x, pickle.dumps(x)) for x in alive(r) if isinstance(x, np.ndarray)]
        if isinstance(r, dict):
            r.pop('_raw', None)
        return pickle.loads(pickle.dumps(r))  # a copy: later readings cannot change it
    except Exception as e:
        return ('raised', type(e).__name__)


# ---------------------------------------------------------------- fresh objects in a process without a past

class Zygote:
    """A process in which no analysis ever ran; it forks a child for every reading."""

    def __init__(self):
        r0, w0 = os.pipe()
        r1, w1 = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(w0)
                os.close(r1)
                self.serve(r0, w1)
            finally:
                os._exit(0)
        os.close(r0)
        os.close(w1)
        self.w, self.r, self.pid = w0, r1, pid

    @staticmethod
    def _read(fd, n):
        b = b''
        while len(b) < n:
            c = os.read(fd, n - len(b))
            if not c:
                return None
            b += c
        return b

    @classmethod
    def _msg(cls, fd):
        h = cls._read(fd, 8)
        return None if h is None else pickle.loads(cls._read(fd, struct.unpack('>Q', h)[0]))

    @staticmethod
    def _send(fd, o):
        d = pickle.dumps(o)
        d = struct.pack('>Q', len(d)) + d
        while d:
            d = d[os.write(fd, d):]

    def serve(self, r, w):
        while True:
            q = self._msg(r)
            if q is None:
                return
            pid = os.fork()
            if pid == 0:
                spec, op = q
                try:
                    self._send(w, [result(World(spec), op)])
                    os._exit(0)
                finally:
                    os._exit(1)
            if os.waitpid(pid, 0)[1] != 0:
                self._send(w, None)

    def ask(self, spec, op):
        self._send(self.w, (spec, op))
        a = self._msg(self.r)
        if a is None:
            raise RuntimeError('the process for fresh objects died')
        return a[0]


_Z = {}


def fresh(spec, op):
    if os.getpid() not in _Z:
        _Z.clear()
        _Z[os.getpid()] = Zygote()
    return _Z[os.getpid()].ask(spec, op)


# ---------------------------------------------------------------- comparison

def same_value(a, b, what):
    if isinstance(a, tuple) and a and a[0] == 'raised' or isinstance(b, tuple) and b and b[0] == 'raised':
        if a != b:
            fail('%s: %s instead of %s', what, a if isinstance(a, tuple) else 'a value', b if isinstance(b, tuple) else 'a value')
    elif isinstance(a, dict):
        if set(a) != set(b):
            fail('%s: entries %s instead of %s', what, sorted(a), sorted(b))
        for k in a:
            if k == 'mode' or k == 'height':
                if a[k] is None or b[k] is None:
                    continue
                close(a[k], b[k], 1e-4, '%s, %s' % (what, k))
            elif k == 'rough':
                # an optimiser without success (it may stall where modes coincide) gives 0: nothing to compare
                if a[k] and b[k] and abs(a[k] - b[k]) > 0.15 * abs(b[k]):
                    fail('%s: %r instead of %r', what, a[k], b[k])
            elif k == 'inverse_factors':
                close(a[k], b[k], 1e-6 * np.abs(b[k]).max(), '%s: inverse factors' % what)
            else:
                same_value(a[k], b[k], '%s, %s' % (what, k))
    elif a is None or b is None or isinstance(a, (str, bool)):
        if a is not b and a != b:
            fail('%s: %r instead of %r', what, a, b)
    else:
        if isinstance(a, list) and a and isinstance(a[0], str):
            if list(a) != list(b):
                fail('%s: %s instead of %s', what, a, b)
            return
        if isinstance(a, list) and a and not np.isscalar(a[0]):
            if len(a) != len(b):
                fail('%s: %d entries instead of %d', what, len(a), len(b))
            for i, (x, y) in enumerate(zip(a, b)):
                same_value(x, y, '%s, entry %d' % (what, i))
            return
        x, y = arr(a), arr(b)
        if x.shape != y.shape:
            fail('%s: shape %s instead of %s', what, x.shape, y.shape)
        fin = np.isfinite(x) & np.isfinite(y)
        if not np.array_equal(x[~fin], y[~fin], equal_nan=True):
            fail('%s: %s instead of %s', what, x.tolist(), y.tolist())
        s = np.abs(y[fin]).max() if fin.any() else 0
        close(x[fin], y[fin], 1e-11 * s, what)


# ---------------------------------------------------------------- cases

OPTIONS = [{}, dict(maxiter=100), dict(ftol=1e-6), dict(maxiter=60, disp=False)]


@st.composite
def related(draw, N):
    """Loads that share much with the given ones: permuted, one changed or negated, one added to another, halved."""
    N = list(N)
    n = len(N)
    i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
    how = draw(st.sampled_from(['swap', 'sign', 'change', 'move', 'scale', 'all signs', 'turn']))
    if how == 'swap':
        N[i], N[j] = N[j], N[i]
    elif how == 'sign':
        N[i] = -N[i]
    elif how == 'change':
        N[i] = draw(st.sampled_from([0.0, 1.0, -1.0, 10.0, N[i] + 1, N[i] / 2]))
    elif how == 'move':
        N[i], N[j] = N[i] + 2, N[j] - 2
    elif how == 'scale':
        N = [x / 2 for x in N]
    elif how == 'all signs':
        N = [-x for x in N]
    else:
        N = N[1:] + N[:1]
    return N


@st.composite
def spec(draw):
    mats = [draw(ortho(allow=True))]
    # materials that differ in one constant only
    for _ in range(draw(st.integers(0, 2))):
        if draw(st.integers(0, 3)) == 0:
            mats.append(draw(material(allow=False)))
            continue
        m = dict(mats[0])
        k = draw(st.sampled_from(['e1', 'e2', 'g12', 'thickness', 'v12', 't1', 's']))
        m[k] = m[k] + 0.01 if k == 'v12' and m[k] < 0.3 else m[k] * 0.9 if k == 'v12' else m[k] * 1.5
        if m['v12'] ** 2 * m['e2'] < 0.9 * m['e1']:  # still an admissible material
            mats.append(m)
    n = draw(st.integers(2, 4))
    angles = [dict(v=draw(st.lists(angle(), min_size=n, max_size=n)), box=draw(st.sampled_from(['list', 'list', 'tuple', 'array'])))]
    for _ in range(draw(st.integers(0, 2))):
        v = list(angles[0]['v'])
        how = draw(st.sampled_from(['change', 'negate', 'reverse', 'turn', 'permute']))
        if how == 'change':
            v[draw(st.integers(0, n - 1))] = draw(angle())
        elif how == 'permute':
            v = list(draw(st.permutations(v)))
        else:
            v = [-x for x in v] if how == 'negate' else v[::-1] if how == 'reverse' else [x + 90 for x in v]
        angles.append(dict(v=v, box='list'))
    im = st.integers(0, len(mats) - 1)
    plies = [draw(st.lists(im, min_size=n, max_size=n)) for _ in range(draw(st.integers(1, 2)))]
    xis = [dict(xiD=[0.3, 0.1, -0.2, 0.05], T=1.5, xiA=[0.2, 0.1, 0.0, 0.1])]
    xis[0]['T'] = draw(logfloat(0.1, 5))
    if draw(st.booleans()):
        del xis[0]['xiA']
    lams = []
    om = st.sampled_from([i for i, m in enumerate(mats) if m['kind'] == 'ortho'])
    for _ in range(draw(st.integers(1, 4))):
        t = draw(st.integers(0, 5))
        if t == 0:
            lams.append(dict(xi=0, mat=draw(om)))
        elif t <= 2:
            lams.append(dict(a=draw(st.integers(0, len(angles) - 1)), mat=draw(im)))
        else:
            lams.append(dict(a=draw(st.integers(0, len(angles) - 1)), p=draw(st.integers(0, len(plies) - 1))))
    cons = [draw(st.one_of(st.none(), supported_supports([1, 2, 5, 6])))]
    for _ in range(draw(st.integers(0, 1))):
        cons.append(draw(supported_supports()))
    il = st.integers(0, len(lams) - 1)
    a, b = draw(sides())
    P = dict(lam=draw(il), a=a, b=b, N=draw(plane_loads(True)), cons=draw(st.integers(0, len(cons) - 1)), m=draw(st.integers(2, 3)), n=draw(st.integers(2, 3)))
    plates = [P]
    # plates that differ from the first in one thing
    for _ in range(draw(st.integers(0, 2))):
        Q = dict(P)
        k = draw(st.sampled_from(['lam', 'lam', 'a', 'b', 'N', 'cons', 'm', 'n', 'all']))
        if k == 'lam':
            Q[k] = draw(il)
        elif k in 'ab':
            Q[k] = sig(P[k] * 1.3, 4)
        elif k == 'N':
            Q[k] = draw(st.one_of(plane_loads(True), related(P['N']).filter(lambda N: N[0] < 0 or N[1] < 0 or N[2] != 0)))
        elif k == 'cons':
            Q[k] = draw(st.integers(0, len(cons) - 1))
        elif k in 'mn':
            Q[k] = P[k] + 1
        plates.append(Q)
    S = dict(lam=draw(il), N=draw(loads6()))
    strengths = [S]
    # load cases related to the first one, mostly on the same laminate
    for _ in range(draw(st.integers(0, 3))):
        N = draw(related(S['N']))
        strengths.append(dict(lam=draw(st.sampled_from([S['lam'], S['lam'], draw(il)])), N=N))
    nl = draw(st.integers(1, 5))
    lists = [[1.0, 0.1, 0.2], draw(st.lists(st.integers(-90, 90), min_size=nl, max_size=nl)), list(range(1, nl + 1)),
             [0.1 * (i + 1) for i in range(nl)], ['YES', 'NO', 'NO', 'YES', 'NO'][:nl]]
    return dict(mats=mats, angles=angles, plies=plies, xis=xis, lams=lams, cons=cons, plates=plates, strengths=strengths, lists=lists,
                options=OPTIONS, starts=draw(st.tuples(*[st.tuples(st.sampled_from([1, 0.2, 3.0]), nice(-0.9, 0.9, 2), nice(-0.9, 0.9, 2)).map(list)] * 2).map(list)))


@st.composite
def c26_case(draw):
    s = draw(spec())
    ops = []
    il, ip, istr, im = (st.integers(0, len(s[k]) - 1) for k in ('lams', 'plates', 'strengths', 'mats'))
    one = st.one_of(
        st.tuples(st.just('lams'), il, st.sampled_from(['A', 'B', 'D', 'ABD', 'z_position', 'Q_layup', 'T_layup', 'xiA', 'xiD', 'repr'])),
        st.tuples(st.just('lams'), il, st.sampled_from(['A', 'B', 'D', 'ABD', 'xiA', 'xiD'])),
        st.tuples(st.just('lams'), il, st.just('equal'), il),
        st.tuples(st.just('strengths'), istr, st.sampled_from(['epsilon0', 'calculate_strain', 'calculate_stress', 'calculate_strain', 'calculate_stress', 'calculate_maxstressmargin'])),
        st.tuples(st.just('plates'), ip, st.sampled_from(['KD', 'KABD'])),
        st.tuples(st.just('plates'), ip, st.just('factors'), st.sampled_from([None, 3, 4])),
        st.tuples(st.just('plates'), ip, st.just('plot'), st.integers(0, 1), st.integers(2, 5), st.integers(2, 5)),
        st.tuples(st.just('mats'), im, st.sampled_from(['Q_0', 'invariants', 'v21'])),
        st.tuples(st.just('nastran'), st.just(0), st.just('sequence'), st.sampled_from(['[0/45_2/(90/\\pm30_2)_2]s', '[0/90]', '[\\pm45_3]S'])),
        st.tuples(st.just('nastran'), st.just(0), st.just('pcomp'), st.booleans()),
        st.one_of(st.tuples(st.just('nastran'), st.just(0), st.just('pcomp'), st.booleans()), st.tuples(st.just('optimise'), ip, st.sampled_from(['max', 'min']), st.booleans(), st.sampled_from([None, 0, 1, 2, 3]), st.integers(0, 1)),
                  st.tuples(st.just('plates'), ip, st.just('factors'), st.just(None))),
    ).map(list)
    ops = draw(st.lists(one, min_size=2, max_size=10))
    if draw(st.booleans()):  # the same again, in another order
        ops = ops + draw(st.permutations(ops))[:6]
    return dict(spec=s, ops=ops)


BASE = dict(mats=[dict(gen.TYPICAL[0], t1=1000., c1=900., t2=50., c2=200., s=70.), dict(gen.TYPICAL[0], e1=90000., t1=500., c1=900., t2=50., c2=200., s=70.)],
            angles=[dict(v=[30, -45, 80], box='list'), dict(v=[30, -45, 10], box='list')], plies=[[0, 1, 0]], xis=[dict(xiD=[0.3, 0.1, -0.2, 0.05], T=0.6, xiA=[0.2, 0.1, 0.0, 0.1])],
            lams=[dict(a=0, p=0), dict(a=0, mat=1), dict(xi=0, mat=0), dict(a=1, p=0)],
            cons=[dict(x0=['TZ'], xa=['TZ', 'RZ'], y0=[], yb=['TX', 'TY', 'TZ']), dict(x0=['TZ'], xa=['TZ', 'RZ'], y0=['RX', 'TZ'], yb=['TX', 'TY', 'TZ']), dict(x0='clamped', xa='free', y0='pinned', yb='free')],
            plates=[dict(lam=0, a=100.0, b=60.0, N=[-1, 0, 0.4], cons=0, m=3, n=2), dict(lam=1, a=100.0, b=60.0, N=[-1, 0, 0.4], cons=0, m=3, n=2),
                    dict(lam=0, a=100.0, b=60.0, N=[-1, 0, 0.4], cons=2, m=3, n=2), dict(lam=2, a=100.0, b=60.0, N=[-2, 1, 0], cons=1, m=2, n=3)],
            strengths=[dict(lam=0, N=[100, -20, 30, 4, -5, 6]), dict(lam=3, N=[100, -20, 30, 4, -5, 6])],
            lists=[[1.0, 0.1, 0.2], [0, 45, 90], [1, 2, 3], [0.1, 0.2, 0.3], ['YES', 'NO', 'NO']],
            options=OPTIONS, starts=[[1, 0.8, 0.7], [2.0, -0.7, 0.1]])
BASE['strengths'] += [dict(lam=0, N=N) for N in ([0, 0, 0, 4, 0, 0], [0, 0, 0, 0, 4, 0], [0, 0, 0, 0, 0, 4], [4, 0, 0, 0, 0, 0], [0, 4, 0, 0, 0, 0], [0, 0, 4, 0, 0, 0], [2, 2, 0, 0, 0, 0], [-4, 0, 0, 0, 0, 0])]
BASE['angles'] += [dict(v=[-30, 45, -80], box='list'), dict(v=[80, -45, 30], box='list'), dict(v=[120, 45, 170], box='list')]
BASE['lams'] += [dict(a=i, mat=0) for i in (0, 2, 3, 4)] + [dict(a=0, p=1)]
BASE['plies'].append([1, 0, 0])
BASE['plates'] += [dict(BASE['plates'][0], lam=i) for i in (4, 5, 6, 7, 8)]
_L2 = [['lams', i, w] for w in ('ABD', 'D', 'A', 'B', 'xiD', 'xiA', 'Q_layup', 'T_layup', 'z_position') for i in range(4, 9)]
_P2 = [['plates', i, w] for w in ('KD', 'KABD') for i in range(4, 9)] + [['plates', i, 'factors', 4] for i in range(4, 9)]
_S2 = [['strengths', i, w] for w in ('epsilon0', 'calculate_strain', 'calculate_stress', 'calculate_maxstressmargin') for i in range(2, 10)]
_SR = [['strengths', i, w] for w in ('calculate_strain', 'calculate_stress', 'calculate_maxstressmargin', 'epsilon0') for i in (0, 1)]
_LR = [['lams', i, w] for i in (0, 1, 2, 3) for w in ('B', 'A', 'xiD', 'D', 'xiA', 'ABD', 'z_position')]
_PR = [['plates', i, w] for i in (0, 1, 2, 3) for w in ('KABD', 'KD')] + [['plates', i, 'factors', k] for i in (0, 1, 2, 3) for k in (4, None)] \
    + [['plates', i, 'plot', 1, 4, 3] for i in (0, 1, 2, 3)]
C26_EX = [dict(spec=BASE, ops=o) for o in (_L2, _P2, _L2[::-1] + _P2[::-1], _S2, _S2[::-1], _SR + _SR, _LR + _LR, _PR + _PR[::-1], _PR[::-1] + _LR + _SR + _LR[::-1] + _SR[::-1],
          [['optimise', 3, 'max', True, 0, 0], ['optimise', 3, 'min', True, 0, 1], ['plates', 3, 'KD'], ['optimise', 3, 'min', True, 1, 1], ['optimise', 0, 'max', False, 2, 0], ['optimise', 0, 'min', True, 3, 0], ['nastran', 0, 'pcomp', True], ['nastran', 0, 'pcomp', True], ['nastran', 0, 'pcomp', False]])]
C26_EX += [dict(spec=dict(BASE, angles=[dict(v=[30, -45, 80], box=b), dict(v=[30, -45, 10], box=b)]), ops=_LR + _SR + _LR[::-1]) for b in ('array', 'tuple')]


@sub('C26', 'histories', c26_case, 280, 8000, rule='a reading made after another one of the same or a sharing object',
     nontrivial=lambda c: len(c['ops']) > len({(o[0], o[1]) for o in c['ops']}), explicit=C26_EX, budget=80)
def c26(c, note):
    s = c['spec']
    want = {}
    for op in c['ops']:
        k = repr(op)
        if k not in want:
            want[k] = fresh(s, op)
    w = World(s)
    seen = {}
    before = {}
    keep = []
    for i, op in enumerate(c['ops']):
        k = repr(op)
        note('%s %s' % (op[0], op[2]))
        if isinstance(want[k], tuple):
            note('raises')
        got = result(w, op, keep)
        for o, x, p in keep:
            if not np.array_equal(x, pickle.loads(p), equal_nan=True):
                fail('reading %d, %s, changed the result of the earlier reading %s', i + 1, op, o)
        try:
            same_value(got, want[k], 'reading %d, %s' % (i + 1, op))
        except ValueError as e:  # shapes that do not compare
            fail('reading %d, %s: %s', i + 1, op, e)
        now = w.inputs()
        clean = World(s)
        for (kind, j) in list(w.made):
            clean.get(kind, j) if kind in ('angles', 'xis', 'cons', 'lists', 'mats', 'options', 'starts') else None
        first = clean.inputs()
        for q, v in now.items():
            if q in first and v != first[q]:
                fail('reading %d, %s, changed the input %s from %s to %s', i + 1, op, q, first[q], v)
            if q.startswith('plies') and q in before and before[q] != v:
                fail('reading %d, %s, changed the list of plies', i + 1, op)
        before = now
        if k in seen:
            note('repeated')
        seen[k] = 1
    n = len(w.made)
    note('%d-%d objects' % (n // 5 * 5, n // 5 * 5 + 4))


@sub('C26', 'creation', lambda: st.fixed_dictionaries(dict(spec=spec(), order=st.permutations(range(12)))), 60, 1000, rule='every case', budget=60)
def c26_create(c, note):
    """Creating the objects in another order, all before the first reading, changes no reading."""
    s = c['spec']
    w = World(s)
    things = [(k, i) for k in ('plates', 'strengths', 'lams', 'mats') for i in range(len(s[k]))]
    ops = {'plates': [['KD'], ['factors', None]], 'strengths': [['calculate_stress']], 'lams': [['ABD'], ['xiD']], 'mats': [['Q_0']]}
    todo = [[k, i] + o for k, i in things for o in ops[k]]
    want = [fresh(s, o) for o in todo]
    for j in c['order']:
        if j < len(things):
            w.get(*things[j])
    for k, i in things:
        w.get(k, i)
    for j in c['order'] + list(range(12, len(todo))):
        if j < len(todo):
            same_value(result(w, todo[j]), want[j], 'reading %s' % (todo[j],))
    note('%d readings' % len(todo))


@sub('C26', 'sessions', lambda: st.fixed_dictionaries(dict(spec=spec(), scale=st.lists(nice(0.5, 2, 3), min_size=2, max_size=12, unique=True), seed=st.integers(0, 999))), 40, 800,
     rule='every case', budget=60, explicit=[dict(spec=BASE, scale=[1 + 0.01 * i for i in range(40)], seed=0)])
def c26_sessions(c, note):
    """Objects that are used and dropped leave nothing behind for the ones created after them."""
    s = c['spec']
    specs = []
    for i, f in enumerate(c['scale']):  # the same objects with stiffer or thicker plies, other angles and other loads
        t = pickle.loads(pickle.dumps(s))
        for m in t['mats']:
            for k in ('e1', 'e', 'e2'):
                if k in m:
                    m[k] *= f
            if i % 3 == 1:
                m['thickness'] *= f
        specs.append(t)
    todo = [['lams', i, k] for i in range(len(s['lams'])) for k in ('ABD', 'xiD')] + [['strengths', i, 'calculate_stress'] for i in range(min(len(s['strengths']), 2))] \
        + [['plates', i, k] for i in range(min(len(s['plates']), 2)) for k in ('KD',)] + [['mats', i, 'Q_0'] for i in range(len(s['mats']))]
    worlds = [World(t) for t in specs]
    want = [[result(w, o) for o in todo] for w in worlds]
    del worlds
    gc.collect()
    rnd = random.Random(c['seed'])
    order = list(range(len(specs))) * 2
    rnd.shuffle(order)
    for j in order:
        w = World(specs[j])
        for o, v in zip(todo, want[j]):
            same_value(result(w, o), v, 'material %d, reading %s' % (j, o))
        del w
        gc.collect()
    note('%d objects dropped' % len(order))


@st.composite
def owners_case(draw):
    s = draw(spec())
    return dict(spec=s, early=draw(st.booleans()), what=draw(st.sampled_from(['angles', 'plies', 'xis', 'cons', 'all'])))


@sub('C26', 'owners', owners_case, 80, 1500, rule='an object was made from a list or dictionary that changed later', budget=60,
     nontrivial=lambda c: c['what'] in ('all', 'angles', 'cons'),
     explicit=[dict(spec=BASE, early=e, what=k) for e in (False, True) for k in ('angles', 'plies', 'xis', 'cons', 'all')]
     + [dict(spec=dict(BASE, angles=[dict(a, box='array') for a in BASE['angles']]), early=e, what='angles') for e in (False, True)])
def c26_owners(c, note):
    """Lists and dictionaries that their owner uses for something else later do not change the objects made from them."""
    s = c['spec']
    todo = [['lams', i, k] for i in range(len(s['lams'])) for k in ('xiD', 'xiA', 'ABD', 'z_position', 'Q_layup', 'T_layup', 'repr')] \
        + [['strengths', i, k] for i in range(min(len(s['strengths']), 2)) for k in ('calculate_strain', 'calculate_stress', 'calculate_maxstressmargin')] \
        + [['plates', i, 'KD'] for i in range(min(len(s['plates']), 2))] + [['plates', 0, 'factors', None]]
    want = [fresh(s, o) for o in todo]
    w = World(s)
    for k in ('lams', 'strengths', 'plates'):
        for i in range(len(s[k])):
            w.get(k, i)
    if c['early']:
        for o in todo[::2]:
            result(w, o)
    n = 0
    for (k, i), o in w.made.items():
        if k not in ('angles', 'plies', 'xis', 'cons') or c['what'] not in (k, 'all'):
            continue
        if isinstance(o, np.ndarray):
            o += 17
        elif k == 'angles' and isinstance(o, list):
            o[:] = [x + 17 for x in o]
        elif k == 'plies':
            o[:] = o[::-1][:-1]
        elif k == 'xis':
            for x in o.values():
                if isinstance(x, list):
                    x[0] += 0.25
            o['T'] *= 2
        elif k == 'cons' and isinstance(o, dict):
            for e, f in o.items():
                if isinstance(f, list):
                    f.append('RZ') if 'RZ' not in f else f.remove('RZ')
                else:
                    o[e] = 'clamped' if f != 'clamped' else 'pinned'
        else:
            continue
        n += 1
    note('%d inputs changed' % min(n, 5))
    for o, v in zip(todo, want):
        same_value(result(w, o), v, 'after its input was changed, reading %s' % (o,))
