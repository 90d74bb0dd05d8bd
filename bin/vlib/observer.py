"""C24 and C26: histories of spec/Observer.tla and spec/Signal.tla against the real observables and signals."""
from . import replay as R
from .replay import Model, diff


def obs_lines(i, c):
    return [f'case\t{i}\tobserver'] + ['\t'.join(map(str, ['op', o['op'], o['o'], o['s'], o['v'], i * 3 + n])) for n, o in enumerate(c['ops'])] + ['endcase']


def obs_compare(c, d):
    b = []
    for k, run in zip(('locked, copy-and-swap', 'locked', 'unlocked, copy-and-swap', 'unlocked'), d['runs']):
        for n, (e, g) in enumerate(zip(c['seen'], run)):
            b += diff(f'{k}: calls at operation {n + 1}', e, g)
        if len(run) != len(c['seen']):
            b.append('operations missing')
    return b[:4]


def obs_describe(c):
    return ' '.join(o['op'] + (f'(scope {o["s"]}, {o["o"]})' if o['s'] else f'({o["o"] or o["v"]})') for o in c['ops'])


def sig_lines(i, c):
    out = [f'case\t{i}\t{c["mode"]}']
    for o in c['ops']:
        out.append('\t'.join(['op', 'connect', str(o['sig']), str(o['id']), o['kind'], ','.join(o['map'])] if o['op'] == 'connect' else
                             ['op', o['op'], str(o['sig']), *([str(o['id'])] if o['op'] == 'copy' else o['args'])]))
    return out + ['endcase']


def sig_compare(c, d):
    b = []
    for n, (e, g) in enumerate(zip(c['seen'], d['seen'])):
        b += diff(f'calls at operation {n + 1}', e, g)
    if len(c['seen']) != len(d['seen']):
        b.append('operations missing')
    return b


def sig_describe(c):
    return f'signal {c["mode"]}: ' + ' '.join(f'{o["sig"]}.{o["kind"]}{o["map"]}' if o['op'] == 'connect' else f'{o["sig"]}.{o["op"]}{o["args"] or o["id"]}' for o in c['ops'])


def build():
    return R.Build('observer', ['observer.cc'], flags=['-O1'])


def check_observer(v, deep):
    m = lambda p, n, s=0, **kw: Model('MC_Observer', {'Obs': p + 'Obs', 'Scopes': p + 'Scopes', 'Values': p + 'Values', 'MaxOps': n, 'Sample': s},
                                      props='Others', **kw)
    n = 7 if deep else 6
    k = 20 if deep else 1
    R.check(v, [m('s', n, name=f'MC_Observer/all histories of {n} operations', timeout=800),
                m('m', 12, 1, simulate=2000 * k, depth=14, name='MC_Observer/sim12'),
                m('m', 24, 1, simulate=1500 * k, depth=26, name='MC_Observer/sim24')], build(), obs_lines, obs_compare, obs_describe)


def check_signal(v, deep):
    ms = []
    k = 10 if deep else 1
    for mode, ar in (('m0', 0), ('m1', 1), ('m2', 2), ('m3', 3), ('mb', 1)):
        c = {'Mode': mode, 'Arity': ar, 'Kinds': 'mKinds', 'Maps': 'maps' + mode[1], 'Texts': 'mTexts', 'MaxSlots': 5, 'Signals': 'two', 'Sample': 0}
        n = 4 if deep else 3
        ms.append(Model('MC_Signal', {**c, 'MaxOps': n, 'Signals': 'one', 'Texts': 'tTexts' if ar > 1 else 'mTexts'},
                        name=f'MC_Signal/{mode}, all histories of {n} operations', timeout=800))
        n = 5 if deep else 4
        if mode in ('m1', 'mb'):
            ms.append(Model('MC_Signal', {**c, 'MaxOps': n, 'Kinds': 'sKinds', 'Texts': 'tTexts', 'Maps': 'maps1'},
                            name=f'MC_Signal/{mode}, two signals, all histories of {n} operations', timeout=800))
        ms.append(Model('MC_Signal', {**c, 'MaxOps': 8, 'Sample': 1}, simulate=150 * k, depth=10, name=f'MC_Signal/{mode}, sim8'))
    R.check(v, ms, build(), sig_lines, sig_compare, sig_describe)
