"""C32: help screens and command trees of spec/Help.tla against the real ones, for random menus."""
import os
import random
import re

from . import common as C
from . import replay as R
from .menus import BUILTIN_CMDS, BUILTIN_FLAGS, CMD_WORDS, FLAG_WORDS, fun, q as quote, tset
from .replay import Model

WORDS = ('the a list of every item which is run before start and stop with long names, then (more) of [them]: values, files~ or "quoted" ones a|b | '
         'as they are - for all to see; hidden or not, in groups').split()
GROUPS = ['10.Alpha', '20.Beta', '5.Near Top', 'zz.Last', 'Loose', '9000.System Management', '40.with.dots', 'a.lower', '1230.Unsorted']
DEFAULTS = {'int': ['0', '-3', '42', '2147483647'], 'uint': ['0', '3'], 'string': ['', 'dflt', 'two words', 'say "hi"', 'a\\b'], 'double': ['1.5', '0.25'],
            'vint': ['[1,2]', '[7]'], 'vstr': ['[a,b]'], 'int64': ['-6', '9223372036854775807'], 'bool': ['false', 'false', 'true']}


def q(s):
    return quote(s).replace('\n', '\\n')


class Menu:
    def __init__(self, seed, big=True):
        r = self.r = random.Random(seed)
        self.cmds, self.flags = {}, []
        self.app = {'name': r.choice(['app', 'tool-x']), 'version': r.choice(['1.2.3', '0.0.1-rc']), 'author': r.choice(['auth', 'A. N. Other']),
                    'copyright': 'Copyright (c) all', 'desc': r.choice(['', 'DESC-ROOT.', 'line one\nline two']),
                    'examples': r.choice(['', '$ ~ run\n$ ~ --help', '\n$ ~ now\n  and ~ later\n', 'just ~'])}
        for _ in range(r.randint(4, 9) if big else 3):
            owner = r.choice([''] + [c for c in self.cmds if c.count('.') < 3] * 2)
            used = {t for d in self.cmds.values() if d['owner'] == owner for t in [d['long'], d['short']] + d['aliases']} | (BUILTIN_CMDS if not owner else set())
            ts = self.titles(CMD_WORDS, used)
            if ts:
                self.cmds[ts[0] if not owner else owner + '.' + ts[0]] = {
                    'owner': owner, 'long': ts[0], 'short': ts[1], 'aliases': ts[2], 'group': self.group('c', owner), 'hidden': r.random() < 0.2,
                    'desc': self.text(), 'ldesc': '', 'examples': ''}
        for d in self.cmds.values():
            if r.random() < 0.15:
                d['desc'], d['ldesc'] = '', self.text()
            if r.random() < 0.2:
                d['examples'] = r.choice(['~ does it', 'one ~\ntwo ~~\n'])
        for _ in range(r.randint(5, 13) if big else 4):
            c = r.choice([''] + list(self.cmds))
            used = {t for d in self.flags if d['owner'] == c for t in [d['long'], d['short']] + d['aliases']} | (BUILTIN_FLAGS if not c else set())
            ts = self.titles(FLAG_WORDS, used | {d['long'] for d in self.cmds.values() if d['owner'] == c})
            if not ts:
                continue
            t = r.choice(['bool', 'bool', 'bool', 'int', 'string', 'uint', 'double', 'vint', 'vstr', 'int64'])
            tg = r.choice(['', '', '', '30.Choice']) if t == 'bool' else ''
            g = self.group('f', c)
            self.flags.append({'owner': c, 'long': ts[0], 'short': ts[1], 'aliases': ts[2], 'group': g, 'tgroup': tg, 'hidden': r.random() < 0.2,
                               'desc': self.text(), 'envs': r.sample(['EV_A', 'EV_B', 'EV_C'], r.choice([0, 0, 1, 2])), 'type': t,
                               'dflt': r.choice(DEFAULTS[t]), 'ph': r.choice(['', '', 'N', 'FILENAME']), 'order': r.randint(0, 1)})

    def titles(self, pool, used):
        r = self.r
        n = r.choice([1, 1, 2, 2, 3, 3, 4, 5])
        xs = [w for w in pool if w not in used]
        if not xs:
            return None
        ts = r.sample(xs, min(n, len(xs)))
        ts[0] = max(ts, key=len) if r.random() < 0.5 else ts[0]
        rest = [t for t in dict.fromkeys(ts[1:]) if t != ts[0]]
        if not rest:
            return ts[0], '', []
        if r.random() < 0.2:
            return ts[0], '', rest
        return ts[0], rest[0], rest[1:]

    def group(self, kind, owner):
        # without a number before a dot the order of groups is not settled: one of these at most
        r = self.r
        if r.random() < 0.45:
            return ''
        return r.choice(GROUPS)

    def text(self):
        r = self.r
        n = r.choice([0, 1, 2, 4, 6, 9, 14, 22])
        s = ' '.join(r.choice(WORDS) for _ in range(n))
        if r.random() < 0.1:
            s = s.replace(' ', '   ')
        return s

    def module(self, name):
        r = self.r
        b = lambda x: 'TRUE' if x else 'FALSE'
        sq = lambda xs: '<<' + ', '.join(q(x) for x in xs) + '>>'
        cs = {i: f'[C({q(d["owner"])}, {q(d["long"])}, {q(d["short"])}, {sq(d["aliases"])}, {q(d["group"])}, {b(d["hidden"])}, {q(d["desc"])}) EXCEPT '
                 f'!.ldesc = {q(d["ldesc"])}, !.examples = {q(d["examples"])}]' for i, d in self.cmds.items()}
        fs = {str(k): f'F({q(d["owner"])}, {q(d["long"])}, {q(d["short"])}, {sq(d["aliases"])}, {q(d["group"])}, {q(d["tgroup"])}, {b(d["hidden"])}, '
                      f'{q(d["desc"])}, {sq(d["envs"])}, {q(d["type"])}, {q(d["dflt"])}, {q(d["ph"])})' for k, d in enumerate(self.flags)}
        st = lambda **k: '[' + ', '.join(f'{n} |-> {v}' for n, v in k.items()) + ']'
        sets = [st(header=q(r.choice(['', ' - a tool'])), tail=q(r.choice(['', 'The end.'])), noTail=b(r.random() < 0.25), noEnding=b(r.random() < 0.25),
                   right=b(r.random() < 0.3), mintab=r.choice([-1, -1, 0, 30, 43, 60])) for _ in range(3)]
        sets[0] = st(header='""', tail='""', noTail='FALSE', noEnding='FALSE', right='FALSE', mintab='-1')
        targets = sorted(self.cmds) + ['generate', 'generate.manual', 'generate.shell', 'print']
        ws = sorted({0, 80, 120, 200, 500, 3, 20} | set(r.sample(range(40, 75), 8)))
        lines = [f'---- MODULE {name} ----', 'EXTENDS MC_Help',
                 'mcApp == [' + ', '.join(f'{k} |-> {q(v)}' for k, v in self.app.items()) + ', exe |-> "@EXE@"]',
                 f'mcUserCmds == {fun(cs)}', f'mcUserFlags == {fun(fs)}', f'mcCmdOrder == {sq(self.cmds)}',
                 f'mcFlagOrder == {sq(fs)}', f'mcSettings == {tset(sets)}',
                 f'mcTargets == {tset(q(t) for t in targets)} \\cup {{Root}}', f'mcWidths == {tset(map(str, ws))}',
                 'mcShells == {"", "/bin/bash", "/usr/bin/zsh", "zsh"}', 'mcTerms == {"", "xterm", "dumb", "xterm-256color", "vt220", "linux"}', '====']
        return '\n'.join(lines) + '\n'

    def header(self):
        e = lambda s: str(s).replace('\\', '\\\\').replace('\n', '\\n')
        b = lambda x: '1' if x else '0'
        rows = [['app'] + [self.app[k] for k in ('name', 'version', 'author', 'copyright', 'desc', 'examples')]]
        for i, d in self.cmds.items():
            rows.append(['cmd', i, d['owner'], d['long'], d['short'], ','.join(d['aliases']), d['group'], b(d['hidden']), d['desc'], d['ldesc'], d['examples']])
        for d in self.flags:
            rows.append(['flag', d['owner'], d['long'], d['short'], ','.join(d['aliases']), d['group'], d['tgroup'], b(d['hidden']), d['desc'],
                         ','.join(d['envs']), d['type'], d['dflt'], d['ph'], d['order']])
        return ['\t'.join(e(x) for x in r) for r in rows]


HELPS = ['--help', '-h', '--usages', '--info']


def words(a):
    x, w = a['q'], a['words']
    pre = ['--no-color'] if x['nc'] == 'flag' else []
    post = ['--shell-completion'] if x['sc'] == 'flag' else []
    hs = [HELPS[(k + x['width']) % 4] for k in range(x['hits'])]
    if x['mode'] == 'cmd':
        return pre + post + ['help'] + w
    return pre + w + post + hs + (['--tree'] if x['mode'] == 'tree' else [])


def to_lines(i, c):
    e = lambda s: str(s).replace('\\', '\\\\').replace('\n', '\\n')
    s = c['setting']
    out = [f'case\t{i}', '\t'.join(['setting', e(s['header']), e(s['tail'])] + ['1' if s[k] else '0' for k in ('noTail', 'noEnding', 'right')] + [str(s['mintab'])])]
    for a in c['shown']:
        x = a['q']
        env = [f'{x["nc"]}=true'] if x['nc'] in ('PLAIN', 'NO_COLOR') else []
        env += ['SHELL_COMPLETION=true'] if x['sc'] == 'env' else []
        env += [f'{n}=true' for n in x['env']]
        out.append('\t'.join(['ask', str(x['width']), x['shell'], x['term'], '|'.join(env)] + [e(w) for w in words(a)]))
    return out + ['endcase']


SGR = re.compile('\x1b\\[([0-9;]*)m')


def compare(c, d):
    bad = []
    for k, (a, text) in enumerate(zip(c['shown'], d['shown'])):
        x = a['q']
        what = f'screen {k + 1} ({" ".join(words(a))})'
        codes = SGR.findall(text)
        if codes and not a['coloured']:
            bad.append(f'{what}: colours, where none are wanted')
        if a['coloured'] and not codes and not x['sc']:
            bad.append(f'{what}: no colours')
        if codes and codes[-1] not in ('0', ''):
            bad.append(f'{what}: the colour is left on at the end')
        got = SGR.sub('', text).split('\n')
        exp = [l.replace('@EXE@', d['exe']) for l in a['lines']]
        if x['mode'] == 'cmd':
            got = got[:len(exp)] + ['']
        if got != exp + ['']:
            n = next((i for i, (e, g) in enumerate(zip(exp + [''], got)) if e != g), min(len(exp) + 1, len(got)))
            bad.append(f'{what}: line {n + 1} of {len(exp)}: expected {(exp + ["", ""])[n]!r}, got {got[n] if n < len(got) else None!r}')
    return bad


def describe(c):
    return ' ; '.join(f'{" ".join(words(a))} [width {a["q"]["width"]}, TERM={a["q"]["term"]}, SHELL={a["q"]["shell"]}, {a["q"]["nc"]} {a["q"]["sc"]}]' for a in c['shown'])


def loose(m):
    """The order of several groups without a number is open: such a menu is drawn again."""
    def key(g):
        return g.split('.')[0] if '.' in g else '3333'
    seen = {}
    for kind, xs in (('c', m.cmds.values()), ('f', m.flags)):
        for d in xs:
            g = d['group'] or d.get('tgroup', '')
            if g:
                seen.setdefault((kind, d['owner'], key(g)), set()).add(g)
    return any(len(s) > 1 for s in seen.values())


def check(v, deep):
    b = R.Build('help', ['help.cc'], flags=['-O1', '-DUSE_DEBUG=0', '-DNDEBUG'], link=('-lutil',))
    d = os.path.join(C.scratch(), 'helps')
    os.makedirs(d, exist_ok=True)
    models = []
    for k in range(40 if deep else 8):
        n = 0
        while True:
            m = Menu(f'C32/{C.SEED}/{k}/{n}')
            if not loose(m):
                break
            n += 1
        name = f'MC_H_{k}'
        with open(os.path.join(d, name + '.tla'), 'w') as f:
            f.write(m.module(name))
        models.append(Model(name, {'App': 'mcApp', 'UserCmds': 'mcUserCmds', 'UserFlags': 'mcUserFlags', 'CmdOrder': 'mcCmdOrder', 'FlagOrder': 'mcFlagOrder',
                                   'Settings': 'mcSettings', 'Targets': 'mcTargets', 'TermWidths': 'mcWidths', 'Shells': 'mcShells', 'Terms': 'mcTerms',
                                   'MaxScreens': 3, 'Sample': 1}, simulate=1500 if deep else 350, depth=60, header=m.header(), name=f'MC_Help/random menu {k}', spec_dir=d))
    R.check(v, models, b, to_lines, compare, describe)
