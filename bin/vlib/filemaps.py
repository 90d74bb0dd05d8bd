"""C35: files and mapped files of spec/Files.tla."""
import os

from . import common as C
from . import replay as R
from .replay import Model


def flat(o):
    return [str(y) for x in o for y in (x if isinstance(x, list) else [x])]


def lines(i, c):
    return [f'case\t{i}\t' + os.path.join(C.scratch(), f'files{i}')] + ['\t'.join(flat(s['op'])) for s in c['ops']] + ['end']


def compare(c, d):
    bad = []
    for k, (e, g) in enumerate(zip(c['ops'], d['steps'])):
        maps = e['maps'] if isinstance(e['maps'], dict) else {str(n + 1): m for n, m in enumerate(e['maps'])}
        b = R.diff('answer', e['ans'], g['ans']) + R.diff('files', R.obj(e['files']), g['files']) + R.diff('mappings', maps, g['maps'])
        if b:
            bad.append(f'step {k + 1} ({" ".join(flat(e["op"]))}): ' + ', '.join(b))
    if d['note']:
        bad.append(d['note'])
    return bad[:5]


def describe(c):
    return ' ; '.join(' '.join(flat(s['op'])) for s in c['ops'])


def check(v, deep):
    def m(name, ops, sim=0, few=False):
        f = 'Few' if few else ''
        return Model('MC_Files', {'Names': 'mcOneName' if few else 'mcNames', 'Contents': f'mc{f}Contents', 'Sizes': f'mc{f}Sizes', 'Slots': f'mc{f}Slots',
                                  'Bytes': f'mc{f}Bytes', 'MaxOps': ops, 'Sample': int(sim > 0)}, simulate=sim, depth=ops + 1, name=f'MC_Files/{name}', timeout=600)
    R.check(v, [m('all', 4 if deep else 3, few=True), m('long', 14, 12000 if deep else 800), m('longer', 30, 3000 if deep else 120)],
            R.Build('files', ['files.cc'], flags=['-O1']), lines, compare, describe)
