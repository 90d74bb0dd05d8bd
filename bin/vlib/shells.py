"""C34: commands of spec/Shell.tla run by process::exec."""
import os

from . import common as C
from . import replay as R
from .replay import Model

esc = lambda s: s.replace('\\', '\\\\').replace('\t', '\\t').replace('\n', '\\n')
sq = lambda s: "'" + s.replace("'", "'\\''") + "'"
TMPS = ['tmp', 'a tmp', "it's", 'plain']


def write(text, times, fd):
    to = '' if fd == 1 else ' >&2'
    if text == '@bytes@' and times == 1:
        return f"printf 'a\\000b\\377c\\012'{to}"
    if times == 1:
        return f"printf '%s\\n' {sq(text)}{to}"
    return f'{{ yes {sq(text)} | head -n {times}{to}; }}'


def shell(script):
    out = ''
    for j, what, *a in script:
        if what in (')', ')2>&1'):
            out += '\n' + (')' if what == ')' else ') 2>&1')
            continue
        s = {'out': lambda: write(*a, 1), 'err': lambda: write(*a, 2), 'status': lambda: 'true' if a[0] == 0 else 'false',
             'long': lambda: ': ' + 'long' * 300, 'exit': lambda: f'exit {a[0]}', 'kill': lambda: f'kill -{a[0]} $$', '(': lambda: '('}[what]()
        sep = f' {j} ' if j else ('\n' if out and not out.endswith('(') else '')
        out += sep + s
    return out


def lines(i, c):
    out = [f'case\t{i}\t' + esc(os.path.join(C.scratch(), f'exec{i % C.NCPU}', TMPS[i % 4]))]
    for k, r in enumerate(c['rounds']):
        out.append('round')
        for n, o in enumerate(r):
            s = shell(o['script'])
            if (i + k + n) % 5 == 0 and not s.endswith(')'):
                s += ' # the end'
            out.append('\t'.join(['cmd', o['way'], str(o['late']), esc(s)]))
    return out + ['end']


def whole(chunks):
    return b''.join(b'a\0b\xffc\n' if x['text'] == '@bytes@' and x['times'] == 1 else (x['text'] + '\n').encode() * x['times'] for x in chunks)


def brief(s):
    if len(s) < 4000:
        return s.decode('latin-1')
    key = (len(s), s[:200], hash(s))
    if key not in BRIEF:
        h = 1469598103934665603
        for b in s:
            h = ((h ^ b) * 1099511628211) & (2**64 - 1)
        BRIEF[key] = f'long {len(s)} {h}'
    return BRIEF[key]


BRIEF = {}


def compare(c, d):
    bad = []
    for k, (er, gr) in enumerate(zip(c['rounds'], d['rounds'])):
        for e, g in zip(er, gr):
            what = f'round {k + 1}, {shell(e["script"])[:300]!r}'
            for x, want in (('out', brief(whole(e['out']))), ('err', brief(whole(e['err']))), ('code', e['code'])):
                if g[x] != want:
                    bad.append(f'{what}: {x}: expected {want[:200] if x != "code" else want!r}, got {g[x][:200] if x != "code" else g[x]!r}')
            if g['note']:
                bad.append(f'{what}: {g["note"]}')
    if d['left']:
        bad.append(f'files left behind: {d["left"]}')
    return bad


def describe(c):
    return ' ;; '.join(' || '.join(f'[{o["way"]}{" late" if o["late"] else ""}] ' + shell(o['script']).replace('\n', '; ').replace('long' * 300, 'long...')
                                   for o in r) for r in c['rounds'])


def check(v, deep):
    def m(name, sim, rounds, atonce, n, times='mcFewTimes', few=False):
        return Model('MC_Shell', {'Texts': 'mcFewTexts' if few else 'mcTexts', 'Times': times, 'Codes': 'mcFewCodes' if few else 'mcCodes',
                                  'Signals': 'mcFewSignals' if few else 'mcSignals', 'Ways': 'mcFewWays' if few else 'mcWays',
                                  'MaxStatements': n, 'MaxDepth': 2, 'MaxRounds': rounds, 'MaxAtOnce': atonce, 'Sample': int(sim > 0)},
                     simulate=sim, depth=rounds * (atonce * (n + 8) + 2), name=f'MC_Shell/{name}', timeout=600)
    R.check(v, [m('all', 0, 1, 1, 3 if deep else 2, few=True), m('at once', 4000 if deep else 500, 3, 4, 4), m('scripts', 8000 if deep else 1500, 2, 1, 12),
                m('long outputs', 800 if deep else 80, 2, 2, 5, times='mcTimes')],
            R.Build('shell', ['shell.cc'], flags=['-O1']), lines, compare, describe)
