"""C29: histories of spec/MC_Chrono.tla: printing, reading and calculating with durations, points in time and dates."""
from . import replay as R
from .replay import Model

TAIL = '|   7'


def lines(i, c):
    out = [f'begin\t{i}\t{c["zone"]}']
    j = lambda x: ','.join(map(str, x))
    for o in c['ops']:
        k = o['k']
        a = {'flag': lambda: [o['f']], 'save': list, 'restore': list, 'point': lambda: [j(o['t']), o['sep']],
             'duration': lambda: [j(o['u']), o['neg']], 'round': lambda: [j(o['t'])], 'order': lambda: [j(o['a']), j(o['b'])],
             'read': lambda: [o['text']], 'unreadable': lambda: [o['text']], 'month': lambda: [j(o['f']), str(o['n']), str(o['months'])],
             'year': lambda: [j(o['f']), str(o['n'])], 'watch': lambda: [str(o['on'])], 'clock': list}[k]()
        out.append('\t'.join([k] + a))
    return out + ['end']


def step(o, g):
    k = o['k']
    if k in ('flag', 'save', 'restore'):
        return [] if g == '' else [f'prints {g!r}']
    if k == 'point':
        b = [f'prints {x!r}, expected {o["text"]!r}' for x in g['t'] if x != o['text'] + TAIL]
        b += [f'prints {g["l"]!r} for the local clock, expected {o["loc"]!r}'] if g['l'] != o['loc'] else []
        return b + ([f'the fraction is {g["ns"]} ns, expected {o["t"][2]}'] if g['ns'] != o['t'][2] else [])
    if k == 'duration':
        return [f'prints {x!r}, expected {o["text"] + TAIL!r}' for x in g if x != o['text'] + TAIL]
    if k == 'round':
        b = [f'broken down to {x}, expected {o["loc"]}' for x in g['l'] if x != o['loc']]
        b += [f'broken down to {g["u"]} in UTC, expected {o["utc"]}'] if g['u'] != o['utc'] else []
        return b + ([] if g['b'] else ['not put together again']) + ([] if g['z'] else ['is zero?'])
    if k == 'order':
        return [] if g == [o['o'], -o['o']] else [f'order of the dates: {g}, expected {[o["o"], -o["o"]]}']
    if k == 'unreadable':
        b = [] if g['p'] == [0, 0] and g['g'] == [0, 0] else [f'read as {g["p"]}']
        return b + ([] if not g['ok'] and g['kept'] else ['not refused, or the time given was changed'])
    if k == 'read':
        if o['form'] == 'full':
            b = [f'read as {x}, expected {o["t"]}' for x in [g['p']] + g['t'] if x != o['t']]
            return b + ([f'read as GMT: {g["g"]}, expected {o["g"]}'] if g['g'] != o['g'] else []) + ([] if g['ok'] else ['not read'])
        if o['form'] == 'date':
            return [f'read as the date {x[:3]}, expected {o["f"][:3]}' for x in (g['pf'], g['gf']) if x[:3] != o['f'][:3]]
        b = [f'read as {x[3:6]} o\'clock, expected {o["f"][3:6]}' for x in (g['pf'], g['gf']) if x[3:6] != o['f'][3:6]]
        return b + [f'read as on {x[:3]}, and today is {n[0][:3]}' for x, n in ((g['pf'], g['nl']), (g['gf'], g['ng'])) if x[:3] not in (n[0][:3], n[1][:3])]
    if k in ('month', 'year'):
        if o['e'][0]:
            return [f'is {x}, expected {o["e"][1:]}' for x in g['p'] if x != o['e'][1:]]
        return []  # that time of the day does not exist on that day, or twice
    if k == 'watch':
        return [] if g['calls'] == 1 and g['text'] == g['want'] and g['pos'] else [f'told {g["calls"]} times, printed {g["text"]!r}, expected {g["want"]!r}']
    if k == 'clock':
        frac = '.' + {'ms': '%03d' % (g['in'] // 10**6), 'us': '%06d' % (g['in'] // 1000), 'ns': '%09d' % g['in']}[o['w']]
        t = g['t'][:-len(TAIL)]
        ok = g['t'].endswith(frac + TAIL) and len(t) == 19 + len(frac) and g['a'][:19] <= t[:19] <= g['b'][:19] and g['in'] % 1000 == g['ns']
        return [] if ok else [f'the clock prints {g}']


def compare(c, d):
    b = []
    for n, (o, g) in enumerate(zip(c['ops'], d['r'])):
        b += [f'step {n + 1} ({ {k: x for k, x in o.items() if k not in ("text", "loc", "utc")} }): {x}' for x in step(o, g)]
    return b if len(c['ops']) == len(d['r']) else b + ['steps missing']


NONE = dict(Points='None', LocalTimes='None', Durations='None', Offsets='None')


def check(v, deep):
    def m(name, kinds, n, zones='{1, 2, 3, 4}', sim=0, props='', **ops):
        k = 'Kinds = {' + ', '.join(f'"{x}"' for x in kinds.split()) + '}\n'
        c = {'MaxOps': n, 'Sample': int(sim > 0)}
        s = ''.join(f' {a} <- {b}\n' for a, b in {**NONE, **ops}.items())
        return Model('MC_Chrono', c, simulate=sim, depth=n + 1, name=f'MC_Chrono/{name}', invariants='Invariants Emit', props=props, timeout=800,
                     extra=f'CONSTANTS\n {k} ZoneSet = {zones}\n{s}')
    A = dict(Points='RandomPoints', LocalTimes='RandomTimes', Durations='RandomDurations', Offsets='RandomOffsets')
    every = 'flags point duration round order read month year clock'
    ms = [m('flags', 'flags point', 5 if deep else 4, '{2}', props='SavedProp', Points='OnePoint'),
          m('durations', 'duration', 1, '{1}', Durations='MoreDurations' if deep else 'EdgeDurations'),
          m('edges', 'point round', 1, Points='YearPoints' if deep else 'EdgePoints'),
          m('switches', 'point round order', 1, '{2, 4}', Points='SwitchPoints'),
          m('switch times', 'read month year', 1, '{2, 4}', LocalTimes='SwitchTimes', Offsets='FewOffsets'),
          m('edge times', 'read', 1, LocalTimes='EdgeTimes'),
          m('months', 'month', 1, LocalTimes='YearTimes' if deep else 'EdgeTimes', Offsets='AllOffsets' if deep else 'FewOffsets'),
          m('years', 'year', 1, LocalTimes='YearTimes', Offsets='YearOffsets'),
          m('sim', every, 12, sim=6000 if deep else 150, **A)]
    R.check(v, ms, R.Build('chrono', ['chrono.cc'], flags=['-O1']), lines, compare,
            describe=lambda c: f'{c["zone"]}: ' + '; '.join(' '.join(map(str, l.split('\t'))) for l in lines(0, c)[1:-1])[:1000])
