"""C16: the option store used by several threads."""
from . import conc
from .conc import Budget, Program
from .pools import emit
from .sync import model, ops

KEYS = ['a', 'a.b', 'a.c', 'a.b.d', 'e', 'e.f', 'zz', 'a.c.x', 'a.c.x.y']


def check(v, deep):
    build = conc.Build('conc_store')
    base = {'Threads': 't2', 'N': 2, 'Firsts': 'firsts', 'Progs': 'progs'}
    inv = 'Found Origin LastWrite'
    three = {**base, 'Threads': 't3', 'N': 3, 'Firsts': 'none', 'Progs': 'progs' if deep else 'few'}
    ms = [('programs', emit('MC_SharedStore', base)),
          ('programs/3 clients', emit('MC_SharedStore', three)),
          ('MC_SharedStore', model('MC_SharedStore', inv, 'Grows Finishes', base)),
          ('MC_SharedStore/3 clients', model('MC_SharedStore', inv, 'Grows', {**three, 'Progs': 'few' if deep else 'tiny'}))]
    reads = ' '.join(f'val:0:0:{k}' for k in KEYS) + ' walk'

    def prog(c, i):
        return Program(f'k{i}', {}, f'{ops(c["first"])}||{reads}', [ops(p) for p in c['prog']])
    conc.check(v, ms, build, prog, 'Trace_SharedStore', {'Threads': 'tThreads'}, Budget(600, 1500, 3) if deep else Budget(32, 32, 2, spurious=False),
               cap=None if deep else 5000)
