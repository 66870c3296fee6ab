"""C24 stacking notation, C25 PCOMP card."""
import numpy as np
from hypothesis import strategies as st

from composipy.nastranapi.pcomp_generator import build_sequence, build_pcomp
from .core import sub, Skip
from .gen import *

# ---------------------------------------------------------------- C24
# A case is a list of items; a unit is {'a': text of the angle, 'pm': bool, 'n': repetitions or None}, a group is
# {'units': [...], 'n': multiplier}; 'fmt' holds the choices of spaces and braces, used up in order.


def number_text():
    i = st.one_of(st.sampled_from(['0', '90', '45', '-45', '30', '-30', '60', '-90']), st.integers(-180, 180).map(str))
    d = st.one_of(st.sampled_from(['22.5', '-67.5', '0.5', '-0.25', '45.0', '12.75', '+15', '+7.5', '-0.0', '.5', '30.']),
                  st.tuples(st.integers(-90, 90), st.integers(0, 999)).map(lambda t: '%d.%03d' % t))
    return st.one_of(i, i, d)


def unit():
    rep = st.one_of(st.none(), st.none(), st.integers(1, 4), st.integers(1, 13))
    return st.fixed_dictionaries(dict(a=number_text(), pm=st.booleans() | st.just(False), n=rep))


def item():
    group = st.fixed_dictionaries(dict(units=st.lists(unit(), min_size=1, max_size=4), n=st.one_of(st.integers(1, 4), st.integers(1, 12))))
    return st.one_of(unit(), unit(), group)


def c24_case():
    return st.fixed_dictionaries(dict(items=st.lists(item(), min_size=1, max_size=6), suffix=st.sampled_from(['', '', 's', 'S']),
                                      fmt=st.one_of(st.just([]), st.lists(st.integers(0, 3), max_size=30))))


class Choices:
    def __init__(self, fmt):
        self.f, self.i = fmt, 0

    def space(self):
        if not self.f:
            return ''
        self.i += 1
        return ['', '', ' ', '  '][self.f[self.i % len(self.f)]]

    def brace(self, n):
        if not self.f:
            return str(n)
        self.i += 1
        return ['%d', '{%d}', '%d', '{ %d }'][self.f[self.i % len(self.f)]] % n


def show_unit(u, c):
    s = c.space()
    if u['pm']:
        s += '\\pm' + c.space()
    s += u['a']
    if u['n'] is not None:
        s += '_' + c.brace(u['n'])
    return s + c.space()


def show(case):
    c = Choices(case['fmt'])
    parts = []
    for it in case['items']:
        if 'units' in it:
            parts.append(c.space() + '(' + '/'.join(show_unit(u, c) for u in it['units']) + ')_' + c.brace(it['n']) + c.space())
        else:
            parts.append(show_unit(it, c))
    return c.space() + '[' + '/'.join(parts) + ']' + case['suffix'] + c.space()


def denote(case):
    def of_unit(u):
        a = float(u['a'])
        n = 1 if u['n'] is None else u['n']
        return [(-a if k % 2 else a) if u['pm'] else a for k in range(n)]
    out = []
    for it in case['items']:
        if 'units' in it:
            out += sum([of_unit(u) for u in it['units']], []) * it['n']
        else:
            out += of_unit(it)
    return out + out[::-1] if case['suffix'] else out


def U(a, n=None, pm=False):
    return dict(a=a, n=n, pm=pm)


C24_EX = [dict(items=i, suffix=s, fmt=f) for s in ('', 's', 'S') for f in ([], [2, 1, 3]) for i in
          ([U('45', 2, True), U('0', 2), U('90'), dict(units=[U('0'), U('90')], n=1)],
           [dict(units=[U('-45', 3, True), U('22.5')], n=2), dict(units=[U('10')], n=11)],
           [dict(units=[U('0', 2)], n=2), U('90'), dict(units=[U('30'), U('-30', 12)], n=1), U('-60', 5, True)],
           [U('0')], [U('-45', 1, True)], [U('30', 12, True)])]


@sub('C24', 'notation', c24_case, 16000, 100000, rule='a group, a repetition or an alternating sign',
     nontrivial=lambda c: any('units' in i or i['n'] or i['pm'] for i in c['items']), explicit=C24_EX)
def c24(c, note):
    s = show(c)
    want = denote(c)
    for it in c['items']:
        note('group' if 'units' in it else 'ply')
        if 'units' in it and it['n'] > 1:
            note('group repeated')
        for u in it.get('units', [it]):
            if u['pm']:
                note('alternating' + (' in a group' if 'units' in it else '') + (', negative first' if u['a'][0] == '-' else ''))
            if u['n'] is not None and u['n'] > 9:
                note('two-digit repetition')
    kinds = ['g' if 'units' in i else 'p' for i in c['items']]
    if 'gg' in ''.join(kinds):
        note('group after group')
    if 'gp' in ''.join(kinds):
        note('ply after group')
    note('suffix %r' % c['suffix'])
    note('spaces or braces' if c['fmt'] else 'compact')
    got = build_sequence(s)
    if len(got) != len(want):
        fail('%r expands to %d plies instead of %d: %s instead of %s', s, len(got), len(want), list(got), want)
    if [float(x) for x in got] != want:
        fail('%r expands to %s instead of %s', s, list(got), want)
    if [float(x) for x in build_sequence(s)] != want:
        fail('%r expands differently the second time', s)


# ---------------------------------------------------------------- C25

def plain(lo, hi):
    return st.one_of(st.floats(lo, hi).map(lambda x: round(x, 3)), st.integers(int(lo) + 1, int(hi)), logfloat(1e-4, 10))


@st.composite
def c25_case(draw):
    n = draw(st.one_of(st.integers(1, 9), st.integers(1, 40)))
    seq = draw(st.lists(st.one_of(st.sampled_from([0.0, 90.0, 45.0, -45.0]), st.integers(-90, 90), nice(-90, 90)), min_size=n, max_size=n))
    return dict(seq=seq,
                mid=draw(st.one_of(st.integers(1, 99999999), st.lists(st.integers(1, 99999), min_size=n, max_size=n))),
                ti=draw(st.one_of(plain(0, 5), st.lists(plain(0, 5), min_size=n, max_size=n))),
                sout=draw(st.one_of(st.sampled_from([None, 'FIBER', 'YES', 'NO']), st.lists(st.sampled_from(['YES', 'NO']), min_size=n, max_size=n))),
                pid=draw(st.one_of(st.none(), st.integers(1, 99999999))),
                z0=draw(st.one_of(st.none(), st.sampled_from([0.0, '']), nice(-10, 10))),
                box=draw(st.sampled_from(['list', 'list', 'tuple', 'array'])))


def read_card(text):
    """Strict reader of a free-field bulk data card with continuations."""
    lines = text.split('\n')
    if lines and lines[-1] == '':
        lines = lines[:-1]
    fields = []
    for k, line in enumerate(lines):
        f = [x.strip() for x in line.split(',')]
        if len(f) > 10:
            fail('line %d has %d fields: %r', k + 1, len(f), line)
        if k == 0:
            if f[0] != 'PCOMP':
                fail('the first field is %r', f[0])
        elif f[0] != '+':
            fail('line %d does not begin with a continuation: %r', k + 1, line)
        if k < len(lines) - 1 and (len(f) != 10 or f[9] != '+'):
            fail('line %d is continued without a marker in field 10: %r', k + 1, line)
        if k == len(lines) - 1 and len(f) == 10 and f[9] not in ('', '+'):
            fail('field 10 of the last line is %r', f[9])
        fields.append(f[1:9] + [''] * (8 - len(f[1:9])))
    return fields


def same(text, value):
    try:
        return float(text) == float(value)
    except ValueError:
        return False


C25_EX = [dict(seq=[45, -45.0, 0, 90][:n] * k, mid=m(n * k), ti=t(n * k), sout=s(n * k), pid=p, z0=z, box='list')
          for n, k in ((1, 1), (2, 1), (3, 1), (4, 3)) for m, t, s, p, z in
          ((lambda q: 7, lambda q: 0.127, lambda q: None, None, None), (lambda q: list(range(1, q + 1)), lambda q: [0.1 * i for i in range(1, q + 1)], lambda q: (['YES', 'NO', 'NO'] * q)[:q], 12, -1.5),
           (lambda q: 7, lambda q: 1, lambda q: 'YES', 3, 0.0), (lambda q: list(range(q, 0, -1)), lambda q: 0.2, lambda q: 'NO', 3, 2.25), (lambda q: 9, lambda q: 0.2, lambda q: 'FIBER', 5, None))]


@sub('C25', 'card', c25_case, 9000, 60000, rule='at least three plies', nontrivial=lambda c: len(c['seq']) >= 3, explicit=C25_EX)
def c25(c, note):
    n = len(c['seq'])
    box = {'list': list, 'tuple': tuple, 'array': np.array}[c['box']]
    k = {}
    if c['sout'] is not None:
        k['sout'] = list(c['sout']) if isinstance(c['sout'], list) else c['sout']
    if c['pid'] is not None:
        k['pid'] = c['pid']
    if c['z0'] is not None:
        k['z0'] = c['z0']
    ti = box(c['ti']) if isinstance(c['ti'], list) else c['ti']
    mid = box(c['mid']) if isinstance(c['mid'], list) else c['mid']
    text = build_pcomp(box(c['seq']), mid, ti, **k)
    note('%s plies' % ('odd' if n % 2 else 'even'))
    note('sout %s' % (c['sout'] if not isinstance(c['sout'], list) else 'list'))
    note('mid %s, t %s' % ('list' if isinstance(c['mid'], list) else 'single', 'list' if isinstance(c['ti'], list) else 'single'))
    card = read_card(text)
    head, body = card[0], card[1:]
    if not same(head[0], 1 if c['pid'] is None else c['pid']):
        fail('the property id reads %r', head[0])
    z0 = '' if c['z0'] is None else c['z0']
    if not (head[1] == '' if z0 == '' else same(head[1], z0)):
        fail('the offset reads %r', head[1])
    if any(head[2:]):
        fail('the first line has other entries: %s', head)
    if len(body) != (n + 1) // 2:
        fail('%d lines for %d plies', len(body), n)
    plies = sum([[b[:4], b[4:]] for b in body], [])
    if n % 2:
        if any(plies[-1]):
            fail('an entry follows the last ply: %s', plies[-1])
        plies = plies[:-1]
    sout = c['sout']
    for i, p in enumerate(plies):
        m = c['mid'][i] if isinstance(c['mid'], list) else c['mid']
        t = c['ti'][i] if isinstance(c['ti'], list) else c['ti']
        o = sout[i] if isinstance(sout, list) else ('YES' if i in (0, n - 1) else 'NO') if sout in (None, 'FIBER') else sout
        if not (same(p[0], m) and same(p[1], t) and same(p[2], c['seq'][i]) and p[3] == o):
            fail('ply %d reads %s instead of %s', i + 1, p, [m, t, c['seq'][i], o])


@st.composite
def c25_bad(draw):
    n = draw(st.integers(1, 12))
    what = draw(st.sampled_from(['mid', 'ti', 'sout', 'word', 'word', 'thing']))
    c = dict(n=n, what=what, other=draw(st.booleans()))
    if what == 'word':
        c['word'] = draw(st.one_of(st.sampled_from(['', 'Yes', 'yes', 'no', 'fiber', 'ALL', 'NONE', 'Y', 'N', 'YESNO', 'YES ', 'FIBERS', 'TRUE']),
                                   st.text('YESNOFIBER', min_size=1, max_size=8), st.text('ABXY', min_size=n, max_size=n)).filter(lambda w: w not in ('YES', 'NO', 'FIBER')))
    elif what == 'thing':
        c['thing'] = draw(st.sampled_from([1, 0, 2.5, None, True]))
    else:
        c['k'] = draw(st.one_of(st.integers(0, 14), st.sampled_from([max(n - 1, 0), n + 1, 2 * n])).filter(lambda k: k != n))
    return c


@sub('C25', 'rejected', c25_bad, 4500, 20000, rule='every case',
     explicit=[dict(n=n, what=w, k=n + d, other=True) for n in (1, 2, 5) for w in ('mid', 'ti', 'sout') for d in (-1, 1, 7)]
     + [dict(n=n, what='word', word=w, other=False) for n in (1, 2, 3, 5) for w in ('XX', 'ALL', 'X', 'fiber', 'FIBRE')])
def c25_reject(c, note):
    n = c['n']
    a = dict(mid=3, ti=0.2, sout='FIBER')
    if c['other']:
        a = dict(mid=[3] * n, ti=[0.2] * n, sout=['YES'] * n)
    w = c['what']
    note(w)
    if w == 'word':
        a['sout'] = c['word']
    elif w == 'thing':
        a['sout'] = c['thing']
    else:
        a[w] = {'mid': [3], 'ti': [0.2], 'sout': ['NO']}[w] * c['k']
    try:
        text = build_pcomp([0.0] * n, a['mid'], a['ti'], sout=a['sout'])
    except ValueError:
        return
    except Exception as e:
        fail('%s for %d plies raises %s instead of ValueError: %s', {k: v for k, v in a.items() if k == w or w in ('word', 'thing') and k == 'sout'}, n, type(e).__name__, e)
    fail('%s for %d plies gives a card: %r', {k: v for k, v in a.items() if k == w or w in ('word', 'thing') and k == 'sout'}, n, text)


@sub('C25', 'notation_to_card', c24_case, 1800, 10000, rule='at least three plies', nontrivial=lambda c: len(denote(c)) >= 3, explicit=C24_EX)
def c25_notation(c, note):
    """The card of a laminate given by its notation holds the plies that the notation denotes."""
    want = denote(c)
    plies = sum([[b[:4], b[4:]] for b in read_card(build_pcomp(build_sequence(show(c)), 4, 0.125))[1:]], [])
    got = [p for p in plies if any(p)]
    note('%d-%d plies' % (len(want) // 20 * 20, len(want) // 20 * 20 + 19))
    if len(got) != len(want) or not all(same(p[2], a) for p, a in zip(got, want)):
        fail('%r: the card holds the angles %s instead of %s', show(c), [p[2] for p in got], want)
