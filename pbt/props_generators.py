"""C31: the programs that write the tables of shape functions and integrals."""
import ast, fcntl, functools, hashlib, os, subprocess, sys, tempfile
from fractions import Fraction as F
from hypothesis import strategies as st

from . import core, ref
from .core import sub, Skip
from .gen import fail

SHAPES, INTEGRALS = 'write_shape_function.py', 'write_pre_integrated_terms.py'
FLAGGED = 'write_bardell_terms.py'
FOLDER = {FLAGGED: 'theoretical'}
LIMIT = (250, 3000)  # seconds
TABLES = {'ii_FF': (0, 0), 'ii_FXI_F': (1, 0), 'ii_FXI_FXI': (1, 1), 'ii_FXIXI_F': (2, 0), 'ii_FXIXI_FXI': (2, 1), 'ii_FXIXI_FXIXI': (2, 2)}


@functools.lru_cache(None)
def generate(script, terms, fast):
    """What the program writes, as a namespace. It runs once per check, in a folder of its own."""
    root = os.environ.get('VERIF_SCRATCH') or tempfile.gettempdir()
    src = os.path.join(core.REPO, 'composipy', FOLDER.get(script, 'pre_integrated_component'), script)
    d = os.path.join(root, 'gen-%s-%d-%d' % (script, terms, fast))
    os.makedirs(d, exist_ok=True)
    with open(d + '.lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        done = os.path.join(d, 'rc')
        if not os.path.exists(done):
            run = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'run_generator.py')
            with open(os.path.join(d, 'out'), 'w') as out, open(os.path.join(d, 'err'), 'w') as err:
                try:
                    code = subprocess.run([sys.executable, '-B', run, src, str(terms), str(int(fast))], cwd=d, stdout=out, stderr=err,
                                          timeout=LIMIT[terms > 30]).returncode
                except subprocess.TimeoutExpired:
                    code = 78
            with open(done, 'w') as f:
                f.write(str(code))
        rc = int(open(done).read())
    if rc == 77:
        raise Skip('the number of terms of the program cannot be set')
    if rc == 78:
        raise Skip('the program did not end in time')
    if rc != 0:
        fail('%s ended with %d: %s', script, rc, open(os.path.join(d, 'err')).read()[-300:])
    if script == FLAGGED:
        return open(os.path.join(d, 'out')).read()
    files = [f for f in os.listdir(d) if f.endswith('.py')]
    want = '_S.py' if script == SHAPES else '_ii_F.py'
    if files != [want]:
        fail('%s wrote %s instead of %s', script, files, want)
    ns = {}
    exec(compile(open(os.path.join(d, want)).read(), want, 'exec'), ns)
    return ns


def number(node, x):
    """The exact value of an arithmetic expression in the names of x."""
    if isinstance(node, ast.Expression):
        return number(node.body, x)
    if isinstance(node, ast.BinOp):
        a, b = number(node.left, x), number(node.right, x)
        if isinstance(node.op, ast.Add):
            return a + b
        if isinstance(node.op, ast.Sub):
            return a - b
        if isinstance(node.op, ast.Mult):
            return a * b
        if isinstance(node.op, ast.Div):
            return a / b
        if isinstance(node.op, ast.Pow) and b.denominator == 1:
            return a ** int(b)
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.UAdd)):
        v = number(node.operand, x)
        return -v if isinstance(node.op, ast.USub) else v
    if isinstance(node, ast.Constant) and isinstance(node.value, (int, float)):
        return F(repr(node.value))
    if isinstance(node, ast.Name) and node.id in x:
        return x[node.id]
    raise SyntaxError('not a number: %s' % ast.dump(node)[:100])


def value(text, **x):
    try:
        return number(ast.parse(str(text), mode='eval'), x)
    except SyntaxError as e:
        fail('the entry %r is no number: %s', str(text)[:100], e)


@functools.lru_cache(None)
def legendre_at(n, x):
    a, b = F(1), x
    if n == 0:
        return a
    for k in range(1, n):
        a, b = b, ((2 * k + 1) * x * b - k * a) / (k + 1)
    return b


def bardell_exact(i, x):
    return sum((c * legendre_at(n, x) for n, c in ref._legendre(i, 0).items()), F(0))


@functools.lru_cache(None)
def integral_exact(p, q, i, k):
    P, Q = ref._legendre(i, p), ref._legendre(k, q)
    return sum((c * Q[n] * F(2, 2 * n + 1) for n, c in P.items() if n in Q), F(0))


def same(v, w, *ij):
    """Equal but for decimals in the last places of a function of ordinary size."""
    tol = F(1, 10 ** 11)
    for i in ij:
        tol *= F(float(ref.norms(0)[i]))
    return abs(v - w) <= tol


def shape_case():
    i = st.integers(0, 49)
    x = st.integers(-1000, 1000)
    return st.fixed_dictionaries(dict(i=i, j=i, xi=x, eta=x))


@sub('C31', 'functions', shape_case, 4000, 30000, rule='a pair of functions of index >= 4, inside of the plate', budget=60, limit=(0, 0),
     nontrivial=lambda c: min(c['i'], c['j']) >= 4 and max(abs(c['xi']), abs(c['eta'])) < 1000,
     explicit=lambda: [dict(i=i, j=j, xi=830, eta=-910) for i in range(50) for j in range(50)])
def c31_functions(c, note):
    ns = generate(SHAPES, 0, False)
    fx, s = ns['FXI'], ns['S']
    n = len(fx)
    if n < 30 or sorted(fx) != list(range(n)):
        fail('the functions written are %s', sorted(fx))
    if len(s) != n * n:
        fail('%d products of %d functions were written', len(s), n)
    i, j = c['i'] % n, c['j'] % n
    xi, eta = F(c['xi'], 1000), F(c['eta'], 1000)
    note('terms: %d-%d' % (max(i, j) // 10 * 10, max(i, j) // 10 * 10 + 9))
    if not same(value(fx[i], xi=xi), bardell_exact(i, xi), i):
        fail('function %d at %s is %s instead of %s', i, xi, float(value(fx[i], xi=xi)), float(bardell_exact(i, xi)))
    if (i, j) not in s:
        fail('the product of the functions %d and %d was not written', i, j)
    w = bardell_exact(i, xi) * bardell_exact(j, eta)
    if not same(value(s[i, j], xi=xi, eta=eta), w, i, j):
        fail('the product of function %d at xi = %s and %d at eta = %s is %s instead of %s', i, xi, j, eta, float(value(s[i, j], xi=xi, eta=eta)), float(w))


RUNS = [(8, False), (30, True)]


def integral_case():
    return st.fixed_dictionaries(dict(run=st.just(1), table=st.sampled_from(sorted(TABLES)), i=st.integers(0, 29), k=st.integers(0, 29)))


def all_pairs(run, n):
    return [dict(run=run, table=t, i=i, k=k) for t in sorted(TABLES) for i in range(n) for k in range(n)]


@sub('C31', 'integrals', integral_case, 1000, 10000, rule='an integral other than zero', budget=200, limit=(0, 0),
     nontrivial=lambda c: integral_exact(*TABLES[c['table']], c['i'], c['k']) != 0,
     explicit=lambda: all_pairs(0, 8) + all_pairs(1, 30), explicit_thorough=lambda: all_pairs(2, 50))
def c31_integrals(c, note):
    n, fast = (RUNS + [(50, True)])[c['run']]
    ns = generate(INTEGRALS, n, fast)
    t = ns[c['table']]
    if len(t) != n * n:
        fail('%s has %d entries for %d functions', c['table'], len(t), n)
    i, k = c['i'], c['k']
    if (i, k) not in t:
        fail('%s of the functions %d and %d was not written', c['table'], i, k)
    v, w = value(t[i, k]), integral_exact(*TABLES[c['table']], i, k)
    p, q = TABLES[c['table']]
    note('terms: %d-%d' % (max(i, k) // 10 * 10, max(i, k) // 10 * 10 + 9))
    if abs(v - w) > F(1, 10 ** 11) * F(float(ref.norms(p)[i] * ref.norms(q)[k])):
        fail('%s of the functions %d and %d is %s instead of %s', c['table'], i, k, float(v), float(w))


@sub('C31', 'flagged', lambda: st.fixed_dictionaries(dict(i=st.integers(0, 9), xi=st.integers(-1000, 1000), flags=st.lists(st.integers(0, 1), min_size=4, max_size=4))),
     1000, 5000, rule='one of the flagged functions', budget=60, limit=(0, 0), nontrivial=lambda c: c['i'] < 4)
def c31_flagged(c, note):
    """The functions printed with one flag for each end condition."""
    text = generate(FLAGGED, 0, False)
    try:
        d = ast.parse(text.strip(), mode='eval').body
        f = {ast.literal_eval(k): v for k, v in zip(d.keys, d.values)}
    except (SyntaxError, AttributeError, ValueError) as e:
        fail('what was printed is no dictionary: %s', e)
    if sorted(f) != list(range(len(f))) or len(f) < 10:
        fail('the functions printed are %s', sorted(f))
    i, xi = c['i'], F(c['xi'], 1000)
    x = dict(zip(('t1', 'r1', 't2', 'r2'), map(F, c['flags'])), xi=xi)
    w = bardell_exact(i, xi) * (c['flags'][i] if i < 4 else 1)
    try:
        v = number(f[i], x)
    except SyntaxError as e:
        fail('function %d is no number: %s', i, e)
    if not same(v, w, i):
        fail('function %d at xi = %s with the flags %s is %s instead of %s', i, xi, c['flags'], float(v), float(w))
