"""Which configurations decide which property."""
from . import parser as P
from .menus import configs as menus
from .parser import Config

CHECKS = {}


def prop(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def scaled(deep, quick, thorough):
    return thorough if deep else quick


@prop('C01')
def c01(v, deep):
    P.check(v, [Config('MC_C01', scaled(deep, 3, 4)), Config('MC_C01', 7, done=3, simulate=scaled(deep, 3000, 60000))]
            + menus('C01', scaled(deep, 4, 24), deep, cmds=(6, 12), flags=(2, 5), parts=dict(small=24), sim=scaled(deep, 300, 3000)),
            ['cmds', 'ran', 'help'])


@prop('C02')
def c02(v, deep):
    P.check(v, [Config('MC_C02', scaled(deep, 2, 3)), Config('MC_C02', 6, done=3, simulate=scaled(deep, 4000, 60000))]
            + menus('C02', scaled(deep, 4, 24), deep, cmds=(2, 6), flags=(9, 16), bools=0.7, parts=dict(small=24), sim=scaled(deep, 300, 3000)),
            ['matched', 'fsel', 'cmds'])


@prop('C03')
def c03(v, deep):
    P.check(v, [Config('MC_C03', 2, overrides={'Alphabet': 'Second'}), Config('MC_C03', 6, done=2, simulate=scaled(deep, 4000, 60000))]
            + menus('C03', scaled(deep, 4, 24), deep, cmds=(1, 4), flags=(7, 11), bools=0.2, parts=dict(small=24), sim=scaled(deep, 300, 3000)),
            ['store', 'matched', 'remain', 'cmds'])


@prop('C04')
def c04(v, deep):
    small = {'EnvSets': 'smallEnvSets', 'LoadSets': 'smallLoadSets'}
    P.check(v, [Config('MC_C04', scaled(deep, 2, 3), overrides=small),
                Config('MC_C04', 0, name='MC_C04/all-sources'),
                Config('MC_C04', 6, done=2, simulate=scaled(deep, 3000, 60000)),
                Config('MC_C04', 3, runs=2, done=1, simulate=scaled(deep, 600, 20000))]
            + menus('C04', scaled(deep, 4, 24), deep, cmds=(2, 5), envs=0.8, parts=dict(envs=8, loads=4), words=1, sim=scaled(deep, 300, 3000)), ['store'])


@prop('C05')
def c05(v, deep):
    P.check(v, [Config('MC_C05', scaled(deep, 2, 3)), Config('MC_C05', scaled(deep, 3, 4), overrides={'EnvSets': 'oneEnv'}),
                Config('MC_C05', 5, runs=2, done=1, simulate=scaled(deep, 1000, 20000))]
            + menus('C05', scaled(deep, 4, 24), deep, parts=dict(envs=3), runs=2, simwords=5, sim=scaled(deep, 300, 3000)), ['hits'])


@prop('C06')
def c06(v, deep):
    P.check(v, [Config('MC_C06', scaled(deep, 3, 4)), Config('MC_C06', 8, done=4, simulate=scaled(deep, 2000, 40000)),
                Config('MC_C06', 4, runs=2, done=2, simulate=scaled(deep, 500, 20000))]
            + menus('C06', scaled(deep, 4, 24), deep, cmds=(2, 5), flags=(9, 15), bools=0.9, groups=0.8, parts=dict(small=20), runs=2, simwords=5, sim=scaled(deep, 300, 3000)), ['chosen', 'store'])


@prop('C07')
def c07(v, deep):
    P.check(v, [Config('MC_C07', scaled(deep, 3, 4)), Config('MC_C07', 9, done=4, simulate=scaled(deep, 3000, 60000))]
            + menus('C07', scaled(deep, 4, 24), deep, cmds=(2, 6), parts=dict(small=18), simwords=8, sim=scaled(deep, 300, 3000)),
            ['remain', 'ran'])


@prop('C08')
def c08(v, deep):
    P.check(v, [Config('MC_C08', 2, done=1, overrides={'HandlerSets': 'fewHandlerSets'} if not deep else {}),
                Config('MC_C08', 4, done=1, simulate=scaled(deep, 3000, 40000)),
                Config('MC_C08h', scaled(deep, 3, 4)), Config('MC_C08h', 6, done=3, simulate=scaled(deep, 1000, 40000))]
            + menus('C08', scaled(deep, 4, 24), deep, acts=0.25, parts=dict(handlers=10), sim=scaled(deep, 300, 3000)),
            ['log', 'ret'])


@prop('C09')
def c09(v, deep):
    P.check(v, [Config('MC_C09', scaled(deep, 3, 4)), Config('MC_C09', 8, done=4, simulate=scaled(deep, 3000, 60000))]
            + menus('C09', scaled(deep, 4, 24), deep, required=0.2, parts=dict(envs=4), sim=scaled(deep, 300, 3000)),
            ['calls', 'failed'])


@prop('C10')
def c10(v, deep):
    P.check(v, [Config('MC_C10', scaled(deep, 2, 3)), Config('MC_C10', 7, done=3, simulate=scaled(deep, 3000, 60000))]
            + menus('C10', scaled(deep, 4, 24), deep, parts=dict(lenient=True), sim=scaled(deep, 300, 3000)),
            ['calls', 'unknown', 'cmds', 'fsel', 'store'])


@prop('C12')
def c12(v, deep):
    few = {'Alphabet': 'fewWords', 'FirstWords': 'fewFirst', 'HandlerSets': 'oneHandler', 'EnvSets': 'noEnv', 'LoadSets': 'noLoad',
           'OptSets': 'onlyStrict', 'AllowReset': 'yes'}
    P.check(v, [Config('MC_C12', 2, runs=2, done=1, overrides=few),
                Config('MC_C12', 5, runs=3, done=1, simulate=scaled(deep, 1500, 30000), overrides={'AllowReset': 'yes'})]
            + menus('C12', scaled(deep, 4, 24), deep, groups=0.6, parts=dict(envs=3, loads=3, handlers=3, lenient=True), words=0, runs=3, simwords=4, sim=scaled(deep, 300, 3000)),
            ['cmds', 'hits', 'store', 'chosen', 'log', 'ret', 'help', 'unknown'])


@prop('C13')
def c13(v, deep):
    P.check(v, [Config('MC_C13', 2), Config('MC_C13', scaled(deep, 3, 4), decorate=True), Config("MC_C13", 6, decorate=True, done=3, simulate=scaled(deep, 1500, 40000))]
            + menus('C13', scaled(deep, 4, 24), deep, hidden=0.3, decorate=True, parts=dict(small=18, extra=('--help', '-h', '-hhh', '-?', '--version', '--tree', '-#', '-V')), sim=scaled(deep, 300, 3000)),
            ['help', 'calls', 'screens', 'listed', 'ret'])


@prop('C11')
def c11(v, deep):
    from . import registration
    registration.check(v, deep)


@prop('C14')
def c14(v, deep):
    from . import store
    store.check(v, deep, store.compare_values)


@prop('C15')
def c15(v, deep):
    from . import store
    store.check(v, deep, store.compare_views)


@prop('C17')
def c17(v, deep):
    from . import typed
    typed.check(v, deep)


@prop('C23')
def c23(v, deep):
    from . import pqueue
    pqueue.check(v, deep)


@prop('C24')
def c24(v, deep):
    from . import observer
    observer.check_observer(v, deep)


@prop('C26')
def c26(v, deep):
    from . import observer
    observer.check_signal(v, deep)


@prop('C22')
def c22(v, deep):
    from . import sync
    sync.check_cond(v, deep)


@prop('C21')
def c21(v, deep):
    from . import sync
    sync.check_queue(v, deep)


@prop('C18')
def c18(v, deep):
    from . import pools
    pools.check_pool(v, deep, 'tasks')


@prop('C19')
def c19(v, deep):
    from . import pools
    pools.check_pool(v, deep, 'life')


@prop('C20')
def c20(v, deep):
    from . import pools
    pools.check_lite(v, deep)


@prop('C25')
def c25(v, deep):
    from . import subject
    subject.check(v, deep)


@prop('C16')
def c16(v, deep):
    from . import shared_store
    shared_store.check(v, deep)


@prop('C27')
def c27(v, deep):
    from . import scopes
    scopes.check(v, deep)
    from . import redirect
    redirect.check(v, deep)


@prop('C30')
def c30(v, deep):
    from . import yamldocs
    yamldocs.check(v, deep)


@prop('C28')
def c28(v, deep):
    P.check(v, [Config('MC_C28', scaled(deep, 3, 4)), Config('MC_C28', 6, done=3, simulate=scaled(deep, 2000, 40000))]
            + menus('C28', scaled(deep, 2, 16), deep, parts=dict(small=22, typos=True), sim=scaled(deep, 300, 3000))
            + menus('C28a', scaled(deep, 2, 16), deep, parts=dict(small=22, typos=True), sim=scaled(deep, 300, 3000), alike=True),
            ['suggest', 'ran', 'help', 'unknown'])
    from . import similarity
    similarity.check(v, deep)


@prop('C29')
def c29(v, deep):
    from . import chrono
    chrono.check(v, deep)


@prop('C31')
def c31(v, deep):
    from . import strings
    strings.check(v, deep)


@prop('C32')
def c32(v, deep):
    from . import helps
    helps.check(v, deep)


@prop('C33')
def c33(v, deep):
    from . import colours
    colours.check(v, deep)


@prop('C34')
def c34(v, deep):
    from . import shells
    shells.check(v, deep)


@prop('C35')
def c35(v, deep):
    from . import filemaps
    filemaps.check(v, deep)


@prop('C36')
def c36(v, deep):
    from . import completions
    completions.check(v, deep)
