"""C11: histories of spec/Registration.tla against the real registration calls."""
from . import replay as R
from .replay import Model, diff, obj

PFX = 'app.cli.'


def to_lines(i, c):
    out = [f'case\t{i}']
    for o in c['ops']:
        f = [o['op'], o['owner'], o['long'], o['short'], ','.join(sorted(o['aliases']))]
        if o['op'] == 'flag':
            f += [o['t'], o['v'], o['group']]
        out.append('\t'.join(f))
    return out + ['endcase']


def compare(c, d):
    if c['failed']:
        b = diff('the colliding addition', 'error', d['err'])
        return b + diff('additions before the collision', len(c['ops']) - 1, d['done'])
    if d['err']:
        return [f'addition {d["done"] + 1} failed without a collision']
    b = diff('callbacks', [list(x) for x in c['order']], d['order'])
    cmds, flags = obj(c['cmds']), obj(c['flags'])
    b += diff('owners of commands', cmds, d['cmds'])
    b += diff('owners of flags', {f: x['owner'] for f, x in flags.items()}, d['flags'])
    b += diff('dotted keys', {**{'c:' + k: PFX + k for k in cmds}, **{'f:' + k: PFX + k for k in flags}}, d['dotted'])
    b += diff('defaults in the store', {PFX + f: {'t': x['t'], 'v': x['v']} for f, x in flags.items()}, d['store'])
    for what, e in (('find', c['find']), ('findx', c['findx']), ('findf', c['findf']), ('findf1', c['findf']), ('findf2', c['findf']),
                    ('cfind', c['find']), ('cfindx', c['findx']), ('cfindf', c['findf']), ('cfindf1', c['findf'])):
        for o, exp in e.items():
            exp, got = obj(exp), d[what].get(o, {})
            for t in sorted(set(exp) | set(got)):
                if o == '' and got.get(t, '').startswith('!') and t not in exp:
                    continue  # one of the built-in commands and flags of the root
                if t not in exp or got.get(t) not in exp[t]:
                    b.append(f'{what} of {t!r} in {o!r}: expected one of {exp.get(t)}, got {got.get(t)}')
    b += diff('leaf commands', sorted(x for x in c['leaf'] if x), sorted(d['leaf']))
    b += diff('flags walked', sorted(flags), sorted(d['walk']))
    for o, gs in obj(c['groups']).items():
        for g, m in gs.items():
            if len(m) == 1 and d['groups'].get(o, {}).get(g) != m[0]:
                b.append(f'group {g} of {o!r}: expected the default {m[0]}, got {d["groups"].get(o, {}).get(g)}')
    return b


def sets(p, n, depth, sample):
    return {'Longs': p + 'Longs', 'Shorts': p + 'Shorts', 'AliasSets': p + 'AliasSets', 'Defaults': p + 'Defaults', 'Groups': p + 'Groups',
            'Base': 'mcBase', 'MaxOps': n, 'MaxDepth': depth, 'Sample': sample}


HEADER = ['titles\t' + '\t'.join(['aa', 'bb', 'cc', 'help', 'a', 'v', 'x', 'y', 'ver'])]


def check(v, deep):
    b = R.Build('registration', ['registration.cc'], flags=['-O1'])
    n = 20 if deep else 1
    models = [Model('MC_C11', sets('s', 2, 2, 0), header=HEADER, name='MC_C11/all histories of 2 additions'),
              Model('MC_C11', sets('mc', 4, 3, 1), simulate=1500 * n, depth=6, header=HEADER, name='MC_C11/sim4'),
              Model('MC_C11', sets('mc', 8, 4, 1), simulate=1500 * n, depth=10, header=HEADER, name='MC_C11/sim8')]
    if deep:
        models.append(Model('MC_C11', sets('t', 3, 2, 0), header=HEADER, name='MC_C11/all histories of 3 additions', timeout=800))
    R.check(v, models, b, to_lines, compare)
