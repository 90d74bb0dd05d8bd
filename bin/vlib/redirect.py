"""C27: redirections of the standard streams and saved stream formats of spec/Redirect.tla."""
from . import replay as R
from .replay import Model


def lines(i, c):
    return [f'case\t{i}'] + ['\t'.join(str(x) for x in o) for o in c['ops']] + ['end']


def compare(c, d):
    e = {k: ''.join(l + '\n' for l in x) for k, x in R.obj(c['sinks']).items()}
    return R.diff('written', e, d['sinks']) + R.diff('read', c['got'], d['got'])


def check(v, deep):
    R.check(v, [Model('Redirect', {'MaxOps': 3, 'MaxScopes': 3}, name='Redirect/all'),
                Model('Redirect', {'MaxOps': 20, 'MaxScopes': 5}, simulate=4000 if deep else 400, depth=21, name='Redirect/long')],
            R.Build('redirect', ['redirect.cc'], flags=['-O1']), lines, compare)
