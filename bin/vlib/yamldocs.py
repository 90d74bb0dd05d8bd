"""C30: documents of spec/Yaml.tla, written out as YAML text and loaded by the real loader."""
from . import common as C
from . import replay as R
from .replay import Model, diff, obj


def dq(t):
    return '"' + t.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n').replace('\t', '\\t') + '"'


class Writer:
    """Writes the tree of one document in a style: block, flow, or flow collections within a block map."""

    def __init__(self, style):
        self.style, self.anchors, self.out = style, {}, []

    def scalar(self, s, ind, flow):
        t, f = s['text'], s['form']
        if f == 'plain':
            return t
        if f == 'single':
            return "'" + t.replace("'", "''") + "'"
        if f == 'str':
            return '!!str ' + t
        if f == 'literal' and not flow:
            return '|\n' + ''.join('  ' * ind + l + '\n' for l in t.split('\n')[:-1]).rstrip('\n')
        if f == 'alias':
            if t in self.anchors:
                return '*' + self.anchors[t]
            self.anchors[t] = f'a{len(self.anchors)}'
            return f'&{self.anchors[t]} {dq(t)}'
        return dq(t)

    @staticmethod
    def key(k):
        return k

    def flow(self, n):
        if n[0] == 'scalar':
            return self.scalar(n[1], 0, True)
        if n[0] == 'list':
            return '[' + ', '.join(self.scalar(s, 0, True) for s in n[1]) + ']'
        return '{' + ', '.join(f'{self.key(k)}: {self.flow(x)}' for k, x in n[1]) + '}'

    def block(self, pairs, ind):
        pad = '  ' * ind
        for i, (k, n) in enumerate(pairs):
            if n[0] == 'scalar':
                self.out.append(f'{pad}{self.key(k)}: {self.scalar(n[1], ind + 1, False)}' + (' # comment' if i % 3 == 2 and n[1]['form'] == 'quoted' else ''))
            elif n[0] == 'list' and n[1] and not (self.style == 'mixed' and i % 2):
                self.out.append(f'{pad}{self.key(k)}:')
                for s in n[1]:
                    self.out.append(f'{pad}  - {self.scalar(s, ind + 2, False)}')
            elif n[0] == 'map' and n[1] and not (self.style == 'mixed' and i % 2):
                self.out.append(f'{pad}{self.key(k)}:')
                self.block(n[1], ind + 1)
            else:
                self.out.append(f'{pad}{self.key(k)}: {self.flow(n)}')

    def text(self, pairs):
        if self.style == 'flow':
            return self.flow(('map', pairs)) + '\n'
        self.block(pairs, 0)
        return ('---\n' if self.style == 'mixed' else '# a document\n') + '\n'.join(self.out) + '\n'


def documents(ops):
    """[(place, text)] of a history."""
    docs, cur, stack = [], None, []
    for o in ops:
        if o['op'] == 'begin':
            cur, stack = (o['n'], o['style'], []), []
        elif o['op'] == 'end':
            docs.append((cur[0], Writer(cur[1]).text(cur[2])))
        elif o['op'] != 'preset':
            here = stack[-1] if stack else cur[2]
            if o['op'] == 'scalar':
                here.append((o['key'], ('scalar', o['items'][0])))
            elif o['op'] == 'list':
                here.append((o['key'], ('list', o['items'])))
            elif o['op'] == 'open':
                here.append((o['key'], ('map', [])))
                stack.append(here[-1][1][1])
            elif o['op'] == 'close':
                stack.pop()
    return docs


TRUTH = {x for w in ('y', 'yes', 'true', 'on') for x in (w, w.capitalize(), w.upper())}
FALSE = {x for w in ('n', 'no', 'false', 'off') for x in (w, w.capitalize(), w.upper())}


def hexed(s):
    return s.encode().hex()


def to_lines(mode):
    def lines(i, c):
        m = mode if mode == 'load' else ('run', 'dirs')[i % 2]
        out = [f'case\t{i}\t{m}']
        for o in c['ops']:
            if o['op'] == 'preset':
                s = o['items'][0]
                b = s['form'] == 'plain' and (s['text'] in TRUTH or s['text'] in FALSE)
                out.append('\t'.join(['preset', hexed(o['key']), 'bool' if b else 'string', hexed(str(s['text'] in TRUTH).lower() if b else s['text'])]))
        for n, t in documents(c['ops']):
            out.append(f'doc\t{n}\t{hexed(t)}')
        return out + ['endcase']
    return lines


def value(x):
    if x['t'] == 'list':
        return x if x['v'] else {'t': 'vstr', 'v': '[]'}
    return x


def compare(mode):
    def cmp(c, d):
        e = {k: value(x) for k, x in obj(c['store']).items()}
        own = {'app.config.file.loaded': {'t': 'bool', 'v': 'true'}} if c['loaded'] else {}
        g = {k: x for k, x in d['store'].items() if k in e or not k.startswith('app.cli.') or k == 'app.cli.name'}
        b = []
        if d['rc']:
            b.append(f'the run returned {d["rc"]}')
        dflt = {'app.cli.name': {'t': 'string', 'v': 'dflt'}}
        return b + diff('the store', {**own, **dflt, **e}, g) + diff('config.file.files', c['loaded'], d['files'])
    return cmp


def describe(c):
    pre = [f'{o["key"]}={o["items"][0]["text"]}' for o in c['ops'] if o['op'] == 'preset']
    return (f'preset {pre}; ' if pre else '') + '; '.join(f'document {n}: {t!r}' for n, t in documents(c['ops']))


def check(v, deep):
    from .common import REPO
    b = R.Build('yaml', ['yaml.cc'], flags=['-I' + REPO], link=('-pthread', '-lyaml-cpp'))
    k = 20 if deep else 1

    def m(p, ops, nest, seq, s, sc=None, pl=None, **kw):
        return Model('MC_Yaml', {'Keys': p + 'Keys', 'Scalars': (sc or p) + 'Scalars', 'Places': (pl or p) + 'Places',
                                 'Styles': ('m' if s else 's') + 'Styles', 'MaxSeq': seq, 'MaxDepth': nest, 'MaxOps': ops, 'Sample': s}, props='Others', **kw)
    one = m('s', 6 if deep else 5, 2, 2 if deep else 1, 0, sc='s' if deep else 'q', name='MC_Yaml/documents of up to three entries', timeout=800)
    R.check(v, [one, m('m', 14, 3, 3, 1, simulate=400 * k, depth=16, name='MC_Yaml/load, sim14'),
                m('m', 40, 4, 4, 1, simulate=150 * k, depth=42, name='MC_Yaml/load, sim40')], b, to_lines('load'), compare('load'), describe)
    R.check(v, [m('t', 6, 1, 0, 0, pl='t', name='MC_Yaml/up to three documents', timeout=800),
                m('m', 12, 2, 2, 1, simulate=400 * k, depth=14, name='MC_Yaml/run, sim12'),
                m('m', 40, 2, 2, 1, simulate=150 * k, depth=42, name='MC_Yaml/run, sim40')], b, to_lines('run'), compare('run'), describe)
