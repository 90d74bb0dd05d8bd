"""C27: histories of spec/Scopes.tla against the real redirections and deferred actions."""
from . import replay as R
from .replay import Model, diff, obj


def lines(i, c):
    return ['\t'.join(['case', str(i)] + [str(x) for o in c['ops'] for x in (o['op'], o['kind'] or '-', o['out'] or '-', o['in'] or '-', o['n'])])]


def compare(c, d):
    b = []
    for n, (e, g) in enumerate(zip(c['seen'], d['seen'])):
        have = {**obj(e['goes']), **obj(e['len'])}
        b += diff(f'operation {n + 1}', {'got': e['got'], 'ran': e['ran'], 'len': have},
                  {**g, 'len': {k: x for k, x in g['len'].items() if k in have}})
    if len(c['seen']) != len(d['seen']):
        b.append(f'{len(d["seen"])} of {len(c["seen"])} operations')
    want = {k: ''.join(f'{w} ' for w in t) for k, t in c['text'].items()}
    b += diff('written', want, {k: x for k, x in d['text'].items() if k in want})
    b += diff('actions in the end', c['after'], d['after'])
    if not d['back']:
        b.append('the streams are not as they were')
    return b[:4]


def describe(c):
    return ' '.join(o['op'] + ':' + '/'.join(str(x) for x in (o['kind'], o['out'], o['in'], o['n']) if x) for o in c['ops'])


def check(v, deep):
    m = lambda p, n, d, s=0, **kw: Model('MC_Scopes', {'Outs': p + 'Outs', 'Ins': p + 'Ins', 'MaxOps': n, 'MaxDepth': d, 'Sample': s}, **kw)
    k = 20 if deep else 1
    n = 4 if deep else 3
    R.check(v, [m('s', n, 3, name=f'MC_Scopes/all histories of {n} operations', timeout=800),
                m('m', 12, 4, 1, simulate=1000 * k, depth=14, name='MC_Scopes/sim12'),
                m('m', 30, 8, 1, simulate=400 * k, depth=32, name='MC_Scopes/sim30')],
            R.Build('scopes', ['scopes.cc'], flags=['-O1']), lines, compare, describe)
