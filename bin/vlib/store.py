"""C14, C15: histories of spec/Store.tla against the real option store of an application."""
import re

from . import common as C
from . import replay as R
from .replay import Model, diff, obj

VOID = {'t': 'void', 'v': ''}
ANSI = re.compile(r'\x1b\[[0-9;]*m')


def tag(x):
    return {'t': 'string', 'v': x['v']} if x['t'] == 'char*' else x


def vmap(m):
    return {k: tag(x) for k, x in obj(m).items()}


def printed(x):
    """How the dumps show a value."""
    if x['t'] == 'void':
        return '{}'
    if x['t'] in ('string', 'char*'):
        return '"' + x['v'].replace('\\', '\\\\').replace('"', '\\"') + '"'
    return x['v']


def to_lines(i, c):
    out = [f'case\t{i}']
    for n, o in enumerate(c['ops']):
        # the entry points that the specification does not tell apart are taken in turn
        out.append('\t'.join(['op', o['op'], o['key'], o['value']['t'], o['value']['v'], str(o['slot']), str(o['at']), str(i * 5 + n * 7)]))
    return out + ['endcase']


def last(c):
    return vmap(c['seen'][-1])


def compare_values(c, d):
    b = []
    for n, (e, g) in enumerate(zip(c['seen'], d['seen'])):
        b += diff(f'the store after operation {n + 1}', vmap(e), g)
    if len(c['seen']) != len(d['seen']):
        b.append('operations missing')
    m = last(c)
    if not d['attached']:
        b.append('a reference no longer belongs to its key')
    b += diff('values seen through references', {s: m[k] for s, k in slots(c).items()}, d['refs'])
    for k, ways in d['routes'].items():
        e = m.get(k, VOID)
        for n, (g, _) in enumerate(ways):
            if g != e:
                b.append(f'{k} read in way {n}: expected {e}, got {g}')
    return b


def slots(c):
    r = c['refs']
    return {str(i + 1): k for i, k in enumerate(r)} if isinstance(r, list) else r


def plain(ls):
    return [ANSI.sub('', l) for l in ls]


def full(m, f=lambda k: True):
    return [f' - {k} : {printed(m[k])}' for k in sorted(m) if f(k)]


def tree(ls):
    """Indented lines as {dotted key: text}; a key listed twice shows as an error."""
    path, out = [], {}
    for l in ls:
        ind = (len(l) - len(l.lstrip(' '))) // 2
        name, _, text = l.strip(' ').partition(':')
        path = path[:ind] + [name]
        k = '.'.join(path)
        out[k] = 'TWICE' if k in out else text[1:] if text.startswith(' ') else text
    return out


def compare_views(c, d):
    m = last(c)
    vc = obj(c['seen'][-1])
    b = diff('keys walked', [[k, m[k]] for k in sorted(m)], d['walk'])
    b += diff('dump of full keys', full(vc), plain(d['full']))
    b += diff('filtered dump of full keys', full(vc, lambda k: len(k) % 2 == 0), plain(d['fullf']))
    nodes = set(c['nodes'])
    want = {k: printed(vc.get(k, VOID)) for k in nodes}
    b += diff('dump as tree', want, tree(plain(d['tree'])))
    b += diff('filtered dump as tree', {k: x for k, x in want.items() if k != 'app.a' and not k.startswith('app.a.')}, tree(plain(d['treef'])))
    for k, ways in d['routes'].items():
        for n, (_, has) in enumerate(ways):
            if has != (k in m):
                b.append(f'key test of {k} in way {n}: {has}')
    sub = {p: vmap(x) for p, x in obj(c['sub']).items()}
    got = d['sub']
    for p in sorted(set(sub) | set(got)):
        if p not in got or p not in sub:
            b.append(f'subtree {p}: ' + ('not found' if p not in got else 'found without any key'))
            continue
        e = [[k, sub[p][k]] for k in sorted(sub[p])]
        b += diff(f'subtree {p}', e, [x[:2] for x in got[p]['walk2']])
        if not all(x[2] for x in got[p]['walk2']):
            b.append(f'subtree {p}: a key walked is said to be absent')
        b += diff(f'dump of subtree {p}', [f' - {k} : {printed(obj(c["sub"][p])[k])}' for k in sorted(sub[p])], plain(got[p]['full']))
    return b


ALL = ['app.a', 'app.a.b', 'app.a.bc', 'app.ab.b', 'app.a.b.c', 'a', 'app', 'app.b.a', 'a.app', 'x-y.z.w', 'app.a.b.c.d', 'app.ab', 'app.b', 'x-y.z',
       'app.a.c', 'b', 'app.a.b.d']
PREFIXES = ALL + ['x-y', 'app.a.bc.d', 'x', 'ap']
HEADER = ['keys\t' + '\t'.join(ALL), 'prefixes\t' + '\t'.join(PREFIXES)]


def models(deep):
    sets = lambda p, n, s: {'Keys': p + 'Keys', 'Values': p + 'Values', 'Slots': p + 'Slots', 'MaxOps': n, 'Sample': s}
    k = 20 if deep else 1
    return [Model('MC_Store', sets('s', 3, 0), header=HEADER, props='OnlyNamed', name='MC_Store/all histories of 3 operations'),
            Model('MC_Store', sets('mc', 6, 1), simulate=150 * k, depth=8, header=HEADER, props='OnlyNamed', name='MC_Store/sim6'),
            Model('MC_Store', sets('mc', 14, 1), simulate=100 * k, depth=16, header=HEADER, props='OnlyNamed', name='MC_Store/sim14')]


def check(v, deep, cmp):
    R.check(v, models(deep), R.Build('store', ['store.cc'], flags=['-O1']), to_lines, cmp)
