"""C25: a subject used by several threads."""
from . import conc
from .conc import Budget, Program
from .pools import emit
from .sync import model, ops


def check(v, deep):
    build = conc.Build('conc_subject')
    base = {'Threads': 't2', 'N': 2, 'Cfgs': 'cns', 'Progs': 'progs'}
    inv = 'Exact Kept NoGhosts LastEmit'
    ms = [('programs', emit('MC_Subject', base)),
          ('programs/3 clients', emit('MC_Subject', {**base, 'Threads': 't3', 'N': 3, 'Progs': 'progs' if deep else 'few', 'Cfgs': 'cns'})),
          ('MC_Subject', model('MC_Subject', inv, 'Finishes', {**base, 'Cfgs': 'one'})),
          ('MC_Subject/3 clients', model('MC_Subject', inv, '', {**base, 'Threads': 't3', 'N': 3, 'Cfgs': 'one', 'Progs': 'few' if deep else 'tiny'}))]

    def prog(c, i):
        return Program(f's{i}', c['cfg'], f'{ops(c["first"])}||emit:99 emit:98', [ops(p) for p in c['prog']])
    conc.check(v, ms, build, prog, 'Trace_Subject', {'Threads': 'tThreads'}, Budget(800, 2000, 3) if deep else Budget(48, 40, 2),
               cap=None if deep else 6000)
