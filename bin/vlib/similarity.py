"""C28: pairs of texts of spec/Similarity.tla against the real measure."""
from . import replay as R
from .replay import Model


def lines(i, c):
    return ['\t'.join(['case', str(i), c['s'], c['t']])]


def compare(c, d):
    e = c['num'] / c['den']
    b = []
    if any(abs(x - e) > 1e-9 for x in d['d']):
        b.append(f'similarity: expected {c["num"]}/{c["den"]} = {e:.6f}, got {d["d"]}')
    # the threshold is inclusive; rounding may decide only where the similarity is the threshold itself
    if any(m != c['match'] for m in d['m']) and 2 * c['num'] != c['den']:
        b.append(f'similar enough: expected {c["match"]}, got {d["m"]}')
    return b


def check(v, deep):
    m = lambda a, n, s=0, **kw: Model('MC_Similarity', {'Letters': a, 'MaxLen': n, 'Sample': s}, **kw)
    n2, n3 = (7, 5) if deep else (5, 4)
    R.check(v, [m('Three', n3, name=f'MC_Similarity/all pairs of {n3} of three letters', timeout=800),
                m('Two', n2, name=f'MC_Similarity/all pairs of {n2} of two letters', timeout=800),
                m('Seven', 9, 5, simulate=20000 if deep else 1000, depth=20, name='MC_Similarity/sim')],
            R.Build('similarity', ['similarity.cc'], flags=['-O1']), lines, compare, lambda c: f'{c["s"]!r} ~ {c["t"]!r}')
