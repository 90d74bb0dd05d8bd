"""Random menus: modules for spec/CmdrParser.tla with a random tree of commands and flags, random words, environments, loaders and
handlers. The module only gives values to the constants of the specification; what they must do is decided by the specification."""
import os
import random

from . import common as C

BUILTIN_CMDS = {'help', 'h', 'info', 'usages', 'version', 'V', 'versions', 'ver', 'print', 'pr', 'display', 'generate', 'g', 'gen'}
BUILTIN_FLAGS = {'help', 'h', '?', 'info', 'usages', 'version', 'V', 'versions', 'ver', 'version-sim', 'vs', 'build-info', '#', 'bdinfo',
                 'verbose', 'v', 'quiet', 'q', 'feel-like', 'bet', 'no-color', 'nc', 'shell-completion', 'sc', 'tree', 'debug', 'D',
                 'debug-mode', 'cli', 'trace', 'tr', 'trace-mode'}
CMD_WORDS = ['a', 'b', 'ab', 'abc', 'ad', 'run', 'runs', 'rust', 'go', 'got', 'golf', 's', 'st', 'sta', 'start', 'stop', 't', 'to', 'top', 'x',
             'xy', 'x1', 'ms', 'mod', 'list', 'ls', 'l', 'in', 'inn', 'inf-x', 'Run', 'e', 'r', 'c', 'up-date']
FLAG_WORDS = ['a', 'b', 'ab', 'abc', 'al', 'all', 'ax', 'n', 'nu', 'num', 'number', 'na', 'name', 'names', 'in', 'inp', 'input', 'o', 'out', 'x',
              'xy', 'x-y', 'z', 'fa', 'fast', 'f', 'l', 'le', 'level', 's', 'so', 'sort', 'A', 'N', 'k', 'key', 'v', 'd', 'p', 'po', 'port']
# words alike: what resembles a misspelt one is met at several levels
FAMILIES = ['format', 'formats', 'formate', 'former', 'number', 'numbers', 'numeral', 'output', 'outputs', 'outpost', 'level', 'levels', 'server', 'servers',
            'service', 'services', 'serve', 'host', 'hosts', 'hostname', 'st', 'fo', 'nu', 'no', 'se', 'le', 'ho']
VALUES = {'int': ['5', '-3', '007', '2147483647'], 'uint': ['4', '0'], 'string': ['abc', 'a=b', 'a b', '-x', 'num'], 'double': ['2.5', '3'],
          'vint': ['[7,8]', '4,5', '6'], 'vstr': ['[p,q]', 'x,y', 'one'], 'int64': ['9223372036854775807', '-1'], 'bool': ['true', 'false']}
DEFAULTS = {'int': ['0', '-3', '42'], 'uint': ['3', '0'], 'string': ['', 'dflt'], 'double': ['1.5'], 'vint': ['[1,2]'], 'vstr': ['[a,b]'],
            'int64': ['-6'], 'bool': ['false', 'false', 'true']}
BAD = {'int': 'x', 'uint': 'z', 'double': 'q', 'vint': '[u]', 'bool': 'maybe', 'int64': 'w'}


def q(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'


def tset(xs):
    return '{' + ', '.join(xs) + '}'


def fun(d):
    return '(' + ' @@ '.join(f'{q(k)} :> {v}' for k, v in d.items()) + ')' if d else '<<>>'


class Menu:
    def __init__(self, seed, **focus):
        self.r = random.Random(seed)
        self.f = {'cmds': (4, 9), 'flags': (6, 12), 'bools': 0.4, 'groups': 0.3, 'required': 0.0, 'hidden': 0.0, 'envs': 0.3, 'acts': 0.0, 'words': 26, **focus}
        self.cmds, self.flags, self.corder, self.forder = {}, {}, [], []
        self.cw, self.fw = (FAMILIES, FAMILIES) if self.f.get('alike') else (CMD_WORDS, FLAG_WORDS)
        self.make_cmds()
        self.make_flags()

    def pick(self, pool, used):
        xs = [w for w in pool if w not in used]
        return self.r.choice(xs) if xs else None

    def make_cmds(self):
        r = self.r
        longs, shorts = {'': set(BUILTIN_CMDS)}, {'': set(BUILTIN_CMDS)}
        for _ in range(r.randint(*self.f['cmds'])):
            owner = r.choice([''] + [c for c in self.corder if c.count('.') < 3] * 2)
            lu, su = longs.setdefault(owner, set()), shorts.setdefault(owner, set())
            l = self.pick(self.cw, lu)
            if l is None:
                continue
            lu.add(l)
            al = []
            for _ in range(r.choice([0, 0, 1, 1, 2])):
                a = self.pick(self.cw, lu)
                if a:
                    lu.add(a)
                    al.append(a)
            s = ''
            if r.random() < 0.75:
                # short titles are taken from the words used by others as often as not
                s = self.pick([w for w in self.cw if len(w) <= 3] if r.random() < 0.5 else sorted(lu - BUILTIN_CMDS - {l} - set(al)), su) or ''
                su.add(s)
            i = l if not owner else owner + '.' + l
            hit = r.choice([0, 31, 10, 33]) if r.random() < self.f['acts'] else -1
            self.cmds[i] = {'long': l, 'short': s, 'aliases': al, 'owner': owner, 'hidden': r.random() < self.f['hidden'], 'hit': hit}
            self.corder.append(i)

    def make_flags(self):
        r = self.r
        longs, shorts, groups = {'': set(BUILTIN_FLAGS)}, {'': set(BUILTIN_FLAGS)}, {}
        for _ in range(r.randint(*self.f['flags'])):
            c = r.choice([''] + self.corder)
            lu, su = longs.setdefault(c, set()), shorts.setdefault(c, set())
            kids = {d['long'] for d in self.cmds.values() if d['owner'] == c}
            l = self.pick([w for w in self.fw if w not in kids], lu)
            if l is None:
                continue
            lu.add(l)
            al = []
            for _ in range(r.choice([0, 0, 1, 2])):
                a = self.pick(self.fw, lu)
                if a:
                    lu.add(a)
                    al.append(a)
            s = ''
            if r.random() < 0.85:
                s = self.pick([w for w in self.fw if len(w) <= 2], su) or ''
                su.add(s)
            t = 'bool' if r.random() < self.f['bools'] else r.choice(['int', 'int', 'string', 'string', 'uint', 'double', 'vint', 'vstr', 'int64'])
            d = r.choice(DEFAULTS[t])
            g = ''
            if t == 'bool' and r.random() < self.f['groups']:
                g = r.choice(['fmt', 'col'])
                on = groups.setdefault((c, g), [])
                d = 'true' if not any(on) and r.random() < 0.3 else 'false'
                on.append(d == 'true')
            i = l if not c else c + '.' + l
            envs = r.sample(['EV_A', 'EV_B', 'EV_C', 'EV_D', 'EV_E'], r.choice([1, 1, 2])) if r.random() < self.f['envs'] else []
            act = r.choice([0, 31, 31, 33, 12]) if r.random() < self.f['acts'] else 99
            self.flags[i] = {'cmd': c, 'long': l, 'short': s, 'aliases': al, 'type': t, 'dflt': d, 'group': g, 'required': r.random() < self.f['required'],
                             'hidden': r.random() < self.f['hidden'], 'envs': envs, 'act': act}
            self.forder.append(i)

    # -- words ----------------------------------------------------------------------------------------------------------
    def chain(self, c):
        return [c] if not c else [c] + self.chain(self.cmds[c]['owner'])

    def flag_words(self, f):
        r, d = self.r, self.flags[f]
        ls = [d['long']] + d['aliases']
        out = []
        if d['type'] == 'bool':
            out += [p + l for l in ls for p in ('--', '~~')] + ['--' + d['long'] + r.choice('+-')]
            if d['short']:
                s = d['short']
                out += ['-' + s, '/' + s, '-' + s + r.choice('+-')]
        else:
            v = lambda: r.choice(VALUES[d['type']])
            out += ['--' + r.choice(ls), '--' + r.choice(ls) + '=' + v(), '~~' + r.choice(ls) + '=' + v(), f"--{r.choice(ls)}='{v()}'"]
            if d['type'] in BAD:
                out.append('--' + r.choice(ls) + '=' + BAD[d['type']])
            if d['short']:
                s = d['short']
                out += ['-' + s, '-' + s + '=' + v()]
                x = v()
                if d['type'] not in ('double', 'vint', 'vstr') or True:
                    out.append('-' + s + x)
        return out

    def combined(self):
        """Several flags in one word, of one chain of commands if possible."""
        r = self.r
        c = r.choice(self.corder + [''])
        ch = self.chain(c)
        fs = [d for d in self.flags.values() if d['cmd'] in ch and d['short']]
        if not fs:
            return '-vq'
        w = '-'
        for d in r.sample(fs, min(len(fs), r.choice([2, 2, 3]))):
            w += d['short']
            if d['type'] != 'bool':
                w += {'int': r.choice(['3', '-4']), 'uint': '5', 'int64': '6'}.get(d['type'], '')
            elif r.random() < 0.2:
                w += '-'
        return w

    def words(self):
        r = self.r
        cw = set()
        for d in self.cmds.values():
            ts = [d['long']] + d['aliases'] + ([d['short']] if d['short'] else [])
            cw |= set(ts if r.random() < 0.6 else [r.choice(ts)])
        fw = set()
        for f in self.forder:
            ws = self.flag_words(f)
            fw |= set(r.sample(ws, min(len(ws), 3)))
        for _ in range(6):
            fw.add(self.combined())
        ls = [d['long'] for d in self.flags.values()]
        fw.add('--' + r.choice(ls) + r.choice(ls))
        fw |= set(r.sample(['-v', '--zzz', '-zzz', '-vq', '--quiet', '~~verbose'], 2))
        pos = set(r.sample(['zz', '5', '--', 'arg', 'a b', 'true'], 3)) | ({''} if r.random() < 0.2 else set())
        return cw, fw, pos

    def envsets(self, n):
        r = self.r
        out = [{}]
        for _ in range(n - 1):
            e = {}
            for f in r.sample(self.forder, min(len(self.forder), 3)):
                d = self.flags[f]
                names = d['envs'] + ['APP_CLI_' + f.upper().replace('.', '_').replace('-', '_')]
                e[r.choice(names)] = r.choice(VALUES[d['type']] + ([BAD[d['type']]] if d['type'] in BAD else []))
            # a variable shared by flags of different types: keep to texts that every type reads or refuses as a whole
            for f, d in self.flags.items():
                for x in d['envs'] + ['APP_CLI_' + f.upper().replace('.', '_').replace('-', '_')]:
                    if x in e and e[x] not in VALUES[d['type']] and e[x] != BAD.get(d['type']):
                        e[x] = 'maybe' if d['type'] != 'uint' else 'z'
            out.append(e)
        return out

    def loadsets(self, n):
        r = self.r
        out = [[]]
        for _ in range(n - 1):
            out.append([(f, self.flags[f]['type'], r.choice(['5'] if self.flags[f]['type'] == 'int' else DEFAULTS[self.flags[f]['type']][:1]))
                        for f in r.sample(self.forder, min(len(self.forder), 2)) if self.flags[f]['type'] in ('int', 'string', 'bool', 'uint')])
        return out

    def handlersets(self, n):
        r = self.r
        out = [{'inv': '<<"ret", 0>>'}]
        codes = ['<<"ret", 0>>'] * 4 + ['<<"ret", 3>>', '<<"ret", -2>>', '<<"throw">>']
        for _ in range(n - 1):
            out.append({s: r.choice(codes) for s in ('gpre', 'pre', 'inv', 'post', 'gpost', 'nothooked') if r.random() < 0.6})
        return out

    def typos(self):
        r = self.r
        out = set()
        for d in list(self.cmds.values()) * 2 + list(self.flags.values()):
            t = r.choice([d['long']] + d['aliases'])
            if len(t) < 3:
                continue
            k = r.randrange(len(t) - 1)
            x = r.choice([t[:k] + t[k + 1] + t[k] + t[k + 2:], t[:k] + t[k + 1:], t + r.choice('sx'), t[:k] + r.choice('aeo') + t[k:]])
            out.add(x if 'owner' in d else '--' + x + r.choice(['', '=5']))
        return set(r.sample(sorted(out), min(len(out), 14)))

    def module(self, name, envs=0, loads=0, handlers=0, lenient=False, small=0, extra=(), typos=False):
        r = self.r
        cw, fw, pos = self.words()
        fw |= set(extra)
        if typos:
            fw = set(r.sample(sorted(fw), 6)) | self.typos() | {'--feel-like'}
        b = lambda x: 'TRUE' if x else 'FALSE'
        ts = lambda xs: tset(q(x) for x in xs)
        cs = {i: f'[C({q(d["long"])}, {q(d["short"])}, {ts(d["aliases"])}, {q(d["owner"])}, {b(d["hidden"])}) EXCEPT !.hit = {d["hit"]}]'
              for i, d in self.cmds.items()}
        fs = {i: f'[F({q(d["cmd"])}, {q(d["long"])}, {q(d["short"])}, {ts(d["aliases"])}, {q(d["type"])}, {q(d["dflt"])}, {q(d["group"])}, {b(d["hidden"])}, '
                 f'<<{", ".join(q(e) for e in d["envs"])}>>, {d["act"]}) EXCEPT !.required = {b(d["required"])}]' for i, d in self.flags.items()}
        many = sorted(cw) * 2 + sorted(fw) + sorted(pos)
        few = sorted(set(r.sample(many, min(len(many), small or 14))) | set(r.sample(sorted(cw), min(len(cw), 4))))
        lines = [f'---- MODULE {name} ----', 'EXTENDS MCDefs', f'mcUserCmds == {fun(cs)}', f'mcUserFlags == {fun(fs)}',
                 f'mcCmdOrder == <<{", ".join(q(x) for x in self.corder)}>>', f'mcFlagOrder == <<{", ".join(q(x) for x in self.forder)}>>',
                 f'mcAlphabet == {ts(sorted(cw | fw | pos))}', f'mcFirstWords == {ts(sorted(cw | fw | {"zz"}))}', f'fewWords == {ts(few)}',
                 f'fewFirst == {ts([w for w in few if w])}',
                 f'mcAfterPass == {ts(sorted({r.choice(sorted(fw)), r.choice(sorted(cw))}))}', f'mcAfterStop == {ts([r.choice(sorted(cw))])}']
        if envs:
            lines.append('mcEnvSets == ' + tset(fun({k: q(v) for k, v in e.items()}) for e in self.envsets(envs)))
        if loads:
            lines.append('mcLoadSets == ' + tset('<<' + ', '.join(f'[key |-> {q("app.cli." + k)}, t |-> {q(t)}, v |-> {q(v)}]' for k, t, v in ld) + '>>'
                                                 for ld in self.loadsets(loads)))
        if handlers:
            lines.append('mcHandlerSets == ' + tset(fun(h) for h in self.handlersets(handlers)))
        if lenient:
            lines.append('mcOptSets == {[Strict EXCEPT !.strictCmd = a, !.strictFlag = b] : a, b \\in BOOLEAN}')
        if typos:
            lines.append('mcSuggesting == TRUE')
        lines += ['yes == TRUE', '====']
        return '\n'.join(lines) + '\n'


def configs(prop, n, deep, words=2, sim=0, simwords=6, simdone=3, runs=1, parts=None, decorate=False, **focus):
    """n random menus: all lines of a few words over a small set of words, and longer random lines over all words."""
    from .parser import Config
    d = os.path.join(C.scratch(), 'menus')
    os.makedirs(d, exist_ok=True)
    out = []
    words += 1 if deep and words else 0
    for k in range(n):
        name = f'MC_R_{prop}_{k}'
        m = Menu(f'{prop}/{C.SEED}/{k}', **focus)
        text = m.module(name, **(parts or {}))
        with open(os.path.join(d, name + '.tla'), 'w') as f:
            f.write(text)
        few = {'Alphabet': 'fewWords', 'FirstWords': 'fewFirst'}
        if words:
            out.append(Config(name, words, overrides=few, spec_dir=d, decorate=decorate, name=f'random menu {k} of {prop}/bfs/w{words}'))
        if sim:
            out.append(Config(name, simwords, runs=runs, done=simdone if runs == 1 else 1, simulate=sim, spec_dir=d, decorate=decorate,
                              overrides={'AllowReset': 'yes'} if runs > 1 else None, name=f'random menu {k} of {prop}/sim/w{simwords}r{runs}'))
    return out
