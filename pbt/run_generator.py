"""Runs a table generator of composipy as a program in the current folder: run_generator.py SCRIPT TERMS FAST

TERMS: the number of terms to write instead of 50 (0: as it is). FAST: integrals of polynomials term by term, in the
arithmetic of their coefficients, instead of sympy's general search for an antiderivative."""
import ast, sys

script, terms, fast = sys.argv[1], int(sys.argv[2]), sys.argv[3] == '1'
try:
    import sympy as sp
except ImportError:
    sys.path.append('/opt/veriftools/pyvenv/lib/python%d.%d/site-packages' % sys.version_info[:2])
    import sympy as sp
tree = ast.parse(open(script).read())
if terms:
    found = [n for n in ast.walk(tree) if isinstance(n, ast.Constant) and n.value == 50 and type(n.value) is int]
    for n in found:
        n.value = terms
    if not found:
        sys.exit(77)  # its size cannot be told
if fast:
    import sympy.integrals.integrals as si
    general = sp.integrate

    def integrate(f, *limits, **k):
        try:
            (x, a, b), = limits
            p = sp.Poly(f, x)
            q = p.integrate()
            return q.eval(b) - q.eval(a)
        except Exception:
            return general(f, *limits, **k)
    for module in (sp, sp.integrals, si):  # the last is what the method of the expressions calls
        module.integrate = integrate
sys.argv = [script]
exec(compile(tree, script, 'exec'), {'__name__': '__main__', '__file__': script})
