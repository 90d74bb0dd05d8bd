"""C18, C19: the thread pool. C20: the lightweight pool."""
from . import common as C
from . import conc
from .conc import Budget, Program
from .sync import model, ops


class Literal:
    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text


YES, NO = Literal('TRUE'), Literal('FALSE')


def emit(module, constants):
    """Only the client programs of a model."""
    cfg = 'INIT MInit\nNEXT Nothing\nCHECK_DEADLOCK FALSE\nINVARIANTS EmitProgram\nCONSTANTS\n'
    for a, b in constants.items():
        cfg += f' {a} {"<-" if isinstance(b, str) else "="} {b}\n'
    return lambda: C.tlc(module, cfg, timeout=300, workers=2)


def check_pool(v, deep, claim):
    build = conc.Build('conc_pool')
    x = claim[0].lower()
    base = {'Threads': 't2', 'Claim': 'cTasks' if x == 't' else 'cLife', 'N': 2, 'Again': NO, 'Sizes': 's12', 'Mains': x + 'Mains', 'Lasts': x + 'Lasts'}
    inv = 'AtMostOnce Bounded NothingLate AllSettled'
    full = {**base, 'Progs': x + 'Progs', 'Sizes': 's123' if deep or x == 'l' else 's12'}
    few = {**base, 'Progs': x + 'Few'}
    ms = [('programs', emit('MC_Pool', full)),
          ('MC_Pool', model('MC_Pool', inv, 'Finishes' if deep else '', few))]

    def prog(c, i):
        kids = ' '.join(f'get:{o["a"] + 50}' for p in c['prog'] for o in p if o['op'] == 'queue' and o['b'] == 3) if x == 't' else ''
        return Program(f'{x}{i}', {'n': c['size']}, f'create:{c["size"]}|{ops(c["main"])}|{ops(c["last"])} {kids}', [ops(p) for p in c['prog']])
    extra = [Program(f'{x}e0', {'n': 0}, 'create:0||destroy', ['queue:11:0', 'queue:21:1']), Program(f'{x}e1', {'n': -1}, 'create:-1||destroy', [])] if x == 'l' else []
    conc.check(v, ms, build, prog, 'Trace_Pool', {'Threads': 'tThreads', 'Claim': base['Claim'], 'Again': YES},
               Budget(1200, 2500, 3) if deep else Budget(40, 24, 2) if x == 't' else Budget(20, 16, 2), ignore=('tstart', 'texit', 'settle') if x == 't' else (),
               cap=None if deep else 4000, extra_programs=extra)


def check_lite(v, deep):
    build = conc.Build('conc_lite')
    base = {'Threads': 't2', 'N': 2, 'Sizes': 's12', 'Mains': 'mains'}
    inv = 'AtMostOnce InOrder Drained OnlyLate'
    ms = [('programs', emit('MC_PoolLite', {**base, 'Progs': 'progs', 'Sizes': 's123' if deep else 's12'})),
          ('MC_PoolLite', model('MC_PoolLite', inv, 'Finishes', {**base, 'Progs': 'few'}))]
    if deep:
        ms.append(('MC_PoolLite/all', model('MC_PoolLite', inv, '', {**base, 'Progs': 'progs'})))
        ms.append(('MC_PoolLite/3 clients', model('MC_PoolLite', inv, '', {**base, 'Progs': 'few', 'Threads': 't3', 'N': 3})))

    def prog(c, i):
        tasks = [o for p in c['prog'] for o in p if o['op'] == 'queue']
        gets = ' '.join(f'get:{o["a"]}' + (f' get:{o["a"] + 50}' if o['b'] == 3 else '') for o in tasks)
        return Program(f'l{i}', {'n': c['size']}, f'create:{c["size"]}|{ops(c["main"])}|destroy {gets}', [ops(p) for p in c['prog']])
    conc.check(v, ms, build, prog, 'Trace_PoolLite', {'Threads': 'tThreads'}, Budget(1200, 2500, 3) if deep else Budget(60, 40, 2),
               cap=None if deep else 5000)
