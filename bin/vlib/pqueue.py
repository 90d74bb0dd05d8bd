"""C23: histories of spec/PriorityQueue.tla against the real priority queue (both orders, two containers)."""
from . import replay as R
from .replay import Model, diff


def to_lines(i, c):
    return [' '.join(['case', str(i), '1' if c['rev'] else '0', *map(str, c['ops'])])]


def compare(c, d):
    b = []
    for k, run in enumerate(d['runs']):
        for n, (e, g) in enumerate(zip(c['seen'], run)):
            q = e['q']
            want = {'popped': e['popped'], 'size': len(q), 'empty': not q, 'front': q[0] if q else 0, 'its': [q, q, q, q]}
            b += diff(f'variant {k}, after operation {n + 1}', want, g)
        if len(run) != len(c['seen']):
            b.append('operations missing')
    return b[:5]


def models(deep):
    m = lambda p, r, n, ln, s=0, **kw: Model('MC_PriorityQueue', {'Prios': p, 'Reverse': r, 'MaxOps': n, 'MaxLen': ln, 'Sample': s}, **kw)
    k = 20 if deep else 1
    n, n2 = (9, 11) if deep else (7, 9)
    out = []
    for r in ('no', 'yes'):
        out += [m('sPrios', r, n, 6, name=f'MC_PriorityQueue/all histories of {n} operations, 3 priorities, reverse {r}', timeout=800),
                m('tPrios', r, n2, 6, name=f'MC_PriorityQueue/all histories of {n2} operations, 2 priorities, reverse {r}', timeout=800),
                m('mPrios', r, 16, 8, 1, simulate=300 * k, depth=18, name=f'MC_PriorityQueue/sim16 reverse {r}'),
                m('mPrios', r, 40, 14, 1, simulate=100 * k, depth=42, name=f'MC_PriorityQueue/sim40 reverse {r}')]
    return out


def check(v, deep):
    R.check(v, models(deep), R.Build('pqueue', ['pqueue.cc'], flags=['-O1']), to_lines, compare,
            describe=lambda c: f'{"reverse " if c["rev"] else ""}operations {c["ops"]} (0: pop)')
