"""C17: texts of spec/Typed.tla read by the real extraction operators."""
from fractions import Fraction

from . import replay as R
from .replay import Model


def to_lines(i, c):
    return [f'text\t{i}\t{c["t"]}\t{c["s"]}']


PREC = {'float': 24, 'double': 53, 'ldouble': 64}


def num(s):
    m, _, e = s.partition('e')
    return Fraction(m) * Fraction(10) ** int(e or 0)


def same(t, e, g):
    """Floats are compared as numbers, within the rounding of the type."""
    if t in PREC:
        try:
            a, b = num(e), num(g)
        except ValueError:
            return e == g
        return a == b or abs(a - b) <= abs(a) * Fraction(1, 2 ** (PREC[t] - 1))
    if t == 'vdouble':
        a, b = e[1:-1].split(','), g[1:-1].split(',')
        return len(a) == len(b) and all(same('double', x, y) if x or y else True for x, y in zip(a, b))
    return e == g


def compare(c, d):
    if c['ok'] != d['ok']:
        return [f'expected {"a value" if c["ok"] else "a failure"}, got {d}']
    if not c['ok']:
        return []
    b = []
    t, _, v = d['v'].partition('\t')
    want = 'string' if c['t'] == 'char*' else c['t']
    if t != want or not same(c['t'], c['v'], v):
        b.append(f'value: expected {want} {c["v"]!r}, got {t} {v!r}')
    if c['read'] != d['read']:
        b.append(f'characters taken: expected {c["read"]}, got {d["read"]}')
    if c['back']:
        t2, _, v2 = d['back'].partition('\t')
        if c['t'] in PREC and same(c['t'], c['v'], v2) and t2 == t:
            return b
        if d['back'] != d['v']:
            b.append(f'printed and read back: {d["v"]!r} became {d["back"]!r}')
    return b


def models(deep):
    m = lambda cs, n, s=0, **kw: Model('MC_Typed', {'Cases': cs, 'MaxTokens': n, 'Sample': s}, invariants='Canonical Emit', **kw)
    return [m('mcCases', 5 if deep else 3, name=f'MC_Typed/all texts of {5 if deep else 3} tokens', timeout=800),
            m('bCases', 3 if deep else 2, name='MC_Typed/boundaries'),
            m('mcCases', 7, 1, simulate=20000 if deep else 800, depth=9, name='MC_Typed/sim')]


def check(v, deep):
    R.check(v, models(deep), R.Build('typed', ['typed.cc'], flags=['-O1']), to_lines, compare,
            describe=lambda c: f'text {c["s"]!r} as {c["t"]}')
