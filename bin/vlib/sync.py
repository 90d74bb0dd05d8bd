"""C22: the conditional wait objects."""
from . import common as C
from . import conc
from .conc import Budget, Program


def model(module, invariants, props, constants, timeout=800, extra=''):
    cfg = f'SPECIFICATION MSpec\nCHECK_DEADLOCK FALSE\nINVARIANTS {invariants}\n' + (f'PROPERTIES {props}\n' if props else '') + extra + 'CONSTANTS\n'
    for a, b in constants.items():
        cfg += f' {a} {"<-" if isinstance(b, str) else "="} {b}\n'
    return lambda: C.tlc(module, cfg, timeout=timeout, workers=max(2, C.NCPU // 2))


def ops(seq):
    return ' '.join(':'.join(str(x) for x in ([o['op'], o.get('a', 0), o.get('b', 0), o['s']] if o.get('s') else [o['op'], o.get('a', 0), o.get('b', 0)]))
                    for o in seq)


def check_cond(v, deep):
    build = conc.Build('conc_cond')
    inv = 'Truthful Awakened EmitProgram'
    base = {'Threads': 't3', 'NW': 2, 'NS': 1, 'Cfgs': 'mCfgs', 'WaitProgs': 'mWaits', 'SetProgs': 'mSets'}
    ms = [('MC_CondWait/2 waiters, 1 setter', model('MC_CondWait', inv, 'Leave TimedLeave', base)),
          ('MC_CondWait/killer', model('MC_CondWait', inv, 'Leave TimedLeave', {**base, 'Cfgs': 'kCfgs', 'WaitProgs': 'kWaits', 'SetProgs': 'mKills'})),
          ('MC_CondWait/1 waiter, 2 setters', model('MC_CondWait', inv, 'Leave TimedLeave', {**base, 'NW': 1, 'NS': 2}))]
    if deep:
        ms.append(('MC_CondWait/3 waiters, 1 setter', model('MC_CondWait', inv, '', {**base, 'Threads': 't4', 'NW': 3, 'WaitProgs': 'iWaits'})))
        ms.append(('MC_CondWait/2 waiters, 2 setters', model('MC_CondWait', inv, '', {**base, 'Threads': 't4', 'NS': 2, 'WaitProgs': 'iWaits'})))
    b = Budget(2000, 4000, 3, timers=True) if deep else Budget(60, 40, 2, timers=True)
    conc.check(v, ms, build, lambda c, i: Program(f'p{i}', c['cfg'], '', [ops(p) for p in c['prog']]), 'Trace_CondWait', {'Threads': 'tThreads'}, b,
               cap=None if deep else 12000)


def check_queue(v, deep):
    build = conc.Build('conc_queue')
    inv = 'Exact Kept QuietIsEnd EmitProgram'
    base = {'Threads': 't3', 'N': 3, 'Progs': 'pool', 'Last': 'last'}
    ms = [('MC_MsgQueue/3 clients', model('MC_MsgQueue', inv, 'Sent', base))]
    if deep:
        ms.append(('MC_MsgQueue/4 clients', model('MC_MsgQueue', inv, '', {**base, 'Threads': 't4', 'N': 4, 'Progs': 'few'})))

    def prog(c, i):
        cl = [' '.join(f'put:{10 * (t + 1) + k + 1}' if o == 'put' else o for k, o in enumerate(p)) for t, p in enumerate(c['prog'])]
        return Program(f'q{i}', c['cfg'], '||' + ' '.join(c['last']), cl)
    conc.check(v, ms, build, prog, 'Trace_MsgQueue', {'Threads': 'tThreads'}, Budget(1500, 3000, 3) if deep else Budget(80, 60, 2), cap=None if deep else 10000)
