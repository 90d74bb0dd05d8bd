"""C31: texts of spec/MC_Strings.tla for the text operations of cmdr::string."""
from . import replay as R
from .replay import Model

esc = lambda s: s.replace('\\', '\\\\').replace('\t', '\\t').replace('\n', '\\n')


def lines(i, c):
    if 'env' in c:
        return [f'env\t{k}\t{esc(x)}' for k, x in c['env'].items()] + [f'expand\t{i}\t{esc(c["s"])}']
    if 'int' in c:
        return [f'number\t{i}\t{c["s"]}\t{c["int"]}\t{c["uint"]}']
    return ['\t'.join(['text', str(i)] + [esc(c[k]) for k in 'sab'])]


def compare(c, d):
    if 'env' in c:
        return [] if d['e'] == c['e'] else [f'expected {c["e"]!r}, got {d["e"]!r}']
    if 'int' in c:
        return [f'{k}: expected {c["s"]}, got {d[k]}' for k in ('int', 'uint') if c[k] and d[k] != c['s']]
    e, b = dict(c['e']), []
    if not e.pop('stripClaimed'):
        del e['stripped']
    for k, x in e.items():
        for g in d[k]:
            if k in ('until', 'untilChar'):
                if k == 'until' and g['text'] == 'as it was' and not x['found']:
                    continue
                x = {'text': x['text'], 'rest': x['rest'], 'found': x['found']}
                if (g['text'], g['rest']) != (x['text'], x['rest']):
                    b.append(f'{k}: expected {x}, got {g}')
            elif g != x:
                b.append(f'{k}: expected {x!r}, got {g!r}')
    # a text without the delimiter may be handed out or refused; one with it is handed out
    if e['until']['found'] and not d['untilGot'][0]:
        b.append('until: refused')
    return b


def check(v, deep):
    def m(name, mode, alphabet, n, sim=0, a='mcAs', b='mcBs'):
        return Model('MC_Strings', {'Alphabet': alphabet, 'MaxLen': n, 'As': a, 'Bs': b, 'Sample': int(sim > 0)}, simulate=sim, depth=n + 1,
                     name=f'MC_Strings/{name}', extra=f'CONSTANTS\n Mode = "{mode}"\n', timeout=800)
    R.check(v, [m('all texts', 'text', 'mcText', 6 if deep else 4),
                m('all references', 'env', 'mcEnv', 7 if deep else 5, a='oneA', b='oneA'),
                m('all numbers', 'number', 'mcDigits', 5 if deep else 4, a='oneA', b='oneA'),
                m('more numbers', 'number', 'mcDigitsBig', 6, sim=20000 if deep else 1500, a='oneA', b='oneA'),
                m('more texts', 'text', 'mcBig', 12, sim=10000 if deep else 500),
                m('more references', 'env', 'mcEnvBig', 10, sim=10000 if deep else 1500, a='oneA', b='oneA')],
            R.Build('strings', ['strings.cc'], flags=['-O1']), lines, compare,
            lambda c: f'{c["s"]!r}' + (f' with {c["a"]!r} and {c["b"]!r}' if 'a' in c else ''))
