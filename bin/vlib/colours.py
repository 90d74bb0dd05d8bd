"""C33: coloured text of spec/Colour.tla; the bytes of the real colorizers are shown on a terminal (ECMA-48 SGR) and compared cell by cell."""
import re

from . import replay as R
from .replay import Model

ATTRS = ['', 'bold', 'dim', 'italic', 'underline', 'blink', 'rblink', 'reverse', 'hidden', 'crossed']


class Terminal:
    def __init__(self):
        self.attrs, self.fg, self.bg, self.cells, self.bad = set(), ['none'], ['none'], [], []

    def style(self):
        return {'attrs': sorted(self.attrs), 'fg': self.fg, 'bg': self.bg}

    def sgr(self, ps):
        while ps:
            n = ps.pop(0)
            if n == 0:
                self.attrs, self.fg, self.bg = set(), ['none'], ['none']
            elif n <= 9:
                self.attrs.add(ATTRS[n])
            elif n == 21:
                self.attrs.add('doubly underlined')
            elif n == 22:
                self.attrs -= {'bold', 'dim'}
            elif n == 25:
                self.attrs -= {'blink', 'rblink'}
            elif n in (23, 24, 27, 28, 29):
                self.attrs -= {ATTRS[n - 20]}
            elif n in (38, 48):
                if len(ps) >= 2 and ps[0] == 5 and ps[1] < 256:
                    c, ps = ['idx', ps[1]], ps[2:]
                elif len(ps) >= 4 and ps[0] == 2 and max(ps[1:4]) < 256:
                    c, ps = ['rgb'] + ps[1:4], ps[4:]
                else:
                    self.bad.append(f'bad colour {n};{ps}')
                    return
                if n == 38:
                    self.fg = c
                else:
                    self.bg = c
            elif 30 <= n <= 37 or 90 <= n <= 97:
                self.fg = ['idx', n - 30 if n < 40 else n - 82]
            elif 40 <= n <= 47 or 100 <= n <= 107:
                self.bg = ['idx', n - 40 if n < 50 else n - 92]
            elif n == 39:
                self.fg = ['none']
            elif n == 49:
                self.bg = ['none']
            else:
                self.bad.append(f'unknown code {n}')

    def write(self, text):
        for part in re.split('(\x1b\\[[0-9;]*m)', text):
            if part.startswith('\x1b['):
                self.sgr([int(x or 0) for x in part[2:-1].split(';')])
            elif part:
                if '\x1b' in part:
                    self.bad.append(f'an unfinished code: {part!r}')
                self.cells.append((part, self.style()))
        return self


def merged(cells):
    out = []
    for t, s in cells:
        if out and out[-1][1] == s:
            out[-1] = (out[-1][0] + t, s)
        elif t:
            out.append((t, s))
    return out


def norm(s):
    return {'attrs': sorted(s['attrs']), 'fg': s['fg'], 'bg': s['bg']}


def lines(i, c):
    flat = lambda o: [str(y) for x in o for y in (x if isinstance(x, list) else [x])]
    return [f'case\t{i}'] + ['\t'.join(flat(o)) for o in c['ops']] + ['end']


def compare(c, d):
    t = Terminal().write(d['out'])
    bad = list(t.bad)
    exp = merged([(x['text'], norm(x['style'])) for x in c['cells']])
    got = merged(t.cells)
    if exp != got:
        k = next((k for k, (e, g) in enumerate(zip(exp + [None], got + [None])) if e != g), 0)
        bad.append(f'text {k + 1}: expected {(exp + [None])[k]}, got {(got + [None])[k]}')
    elif norm(c['term']) != t.style():
        bad.append(f'the terminal is left as {t.style()}, expected {norm(c["term"])}')
    return [b + f' (written: {d["out"]!r})' for b in bad]


def describe(c):
    return ' ; '.join(' '.join(str(x) for x in o) for o in c['ops'])


def check(v, deep):
    few = {'Colorizers': 1, 'Terms': 'mcFewTerms', 'Colours': 'mcFewColours', 'Modifiers': 'mcFewMods', 'Names': 'FewNames', 'Texts': 'mcFewTexts',
           'MaxPrints': 9, 'Sample': 0}
    every = dict(few, Terms='mcTerms', Colours='mcAllColours', Modifiers='AllModifiers', Names='AllNames', Texts='mcTexts', Sample=1)
    none = dict(few, Modifiers='none', Names='none')

    def m(name, ops, constants, sim=0, **kw):
        return Model('MC_Colour', dict(constants, MaxOps=ops), simulate=sim, depth=ops + 1, name=f'MC_Colour/{name}', timeout=600, **kw)
    R.check(v, [m('all', 5 if deep else 4, few),
                m('named', 5, dict(none, Colours='mcNamed'), extra='CONSTRAINT OneColour\n', invariants='Invariants EmitNamed'),
                m('one', 7 if deep else 6, dict(none, Modifiers='mcOneMod', Colours='mcOneColour'), extra='CONSTRAINT OneLong\n', invariants='Invariants EmitLong'),
                m('long', 16, dict(every, Colorizers=2), sim=20000 if deep else 1500),
                m('short', 8, every, sim=20000 if deep else 2000)],
            R.Build('colour', ['colour.cc'], flags=['-O1', '-DUSE_DEBUG=0', '-DNDEBUG']), lines, compare, describe)
