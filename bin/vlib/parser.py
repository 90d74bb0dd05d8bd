"""Conformance engine for spec/CmdrParser.tla: behaviours generated by TLC are replayed into the real command-line
processor, and what can be observed afterwards is compared with what the specification demands."""
import json
import os
import re
import threading

from . import common as C

NAMES = ['UserCmds', 'UserFlags', 'CmdOrder', 'FlagOrder', 'Alphabet', 'FirstWords', 'AfterPass', 'AfterStop', 'EnvSets',
         'LoadSets', 'HandlerSets', 'OptSets', 'AllowReset', 'Suggesting']


DEFAULTS = {'EnvSets': 'noEnv', 'LoadSets': 'noLoad', 'HandlerSets': 'onlyInv', 'OptSets': 'onlyStrict', 'AllowReset': 'no', 'Suggesting': 'no'}


def cfg(words, runs=1, done=0, overrides=None, sample=0, module=None, spec_dir=None):
    text = open(os.path.join(spec_dir or C.SPEC, module + '.tla')).read() if module else ''
    o = {k: d for k, d in DEFAULTS.items() if not re.search(rf'^mc{k}\b', text, re.M)}
    o.update(overrides or {})
    s = 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS Invariants Emit\nCONSTANTS\n'
    for n in NAMES:
        s += f' {n} <- {o.get(n, "mc" + n)}\n'
    s += f' MaxWords = {words}\n MaxRuns = {runs}\n DoneWords = {done}\n Sample = {sample}\n'
    return s


def obj(x):
    """TLC prints an empty function as an empty list."""
    return {} if x == [] else x


def clean(s):
    assert '\t' not in s and '\n' not in s, s
    return s


def menu_lines(menu):
    out = []
    cmds, flags = obj(menu['cmds']), obj(menu['flags'])
    for i in menu['cmdorder']:
        d = cmds[i]
        out.append('\t'.join(['cmd', i, d['long'], d['short'], ','.join(sorted(d['aliases'])), d['owner'], '1' if d['hidden'] else '0',
                              str(d['hit'])]))
    for i in menu['flagorder']:
        d = flags[i]
        out.append('\t'.join(['flag', i, d['cmd'], d['long'], d['short'], ','.join(sorted(d['aliases'])), d['type'], d['dflt'], d['group'],
                              '1' if d['required'] else '0', '1' if d['hidden'] else '0', ','.join(d['envs']), str(d['act'])]))
    if menu.get('decorate'):
        out.append('decorate')
    out.append('endmenu')
    return out


def case_lines(idx, hist):
    out = [f'case\t{idx}']
    for st in hist:
        if st['step'] == 'reset':
            out.append('reset')
            continue
        o = st['out']
        for k, v in obj(o['env']).items():
            out.append(f'env\t{clean(k)}\t{clean(v)}')
        for l in o['load']:
            out.append('\t'.join(['load', l['key'], l['t'], clean(l['v'])]))
        for k, h in obj(o['hs']).items():
            if h[0] != 'none':
                out.append('\t'.join(['slot', k, h[0], str(h[1] if len(h) > 1 else 0)]))
        p = o['opts']
        out.append('\t'.join(['opt', *('1' if p[k] else '0' for k in ('strictCmd', 'strictFlag', 'nocatch'))]))
        out.append('\t'.join(['run'] + [clean(w) for w in o['argv']]))
    out.append('endcase')
    return out


def run_cases(exe, menu, cases, jobs=None):
    """cases: list of (idx, hist). Returns (menu report, {idx: result})."""
    jobs = jobs or C.NCPU
    ml = menu_lines(menu)
    res, menus, errs = {}, [], []

    def work(chunk):
        text = '\n'.join(ml + [l for i, h in chunk for l in case_lines(i, h)]) + '\n'
        for d in C.drive([exe], text, errs, ('{"case"', '{"menu"')):
            if 'menu' in d:
                menus.append(d)
            else:
                res[d['case']] = d
    ts = [threading.Thread(target=work, args=(cases[k::jobs],)) for k in range(jobs) if cases[k::jobs]]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return (menus[0] if menus else None), res, errs


# ---- what a real run showed -----------------------------------------------------------------------------------------
RX_ANSI = re.compile(r'\x1b\[[0-9;]*m')
RX_HELP = re.compile(r'^Description\n\s+(\S[^\n]*?)\s*$', re.M)
RX_SECTION = re.compile(r'^(Commands|Options|Global Options|Parent Options[^\n]*)$')
RX_ITEM = re.compile(r'^ *(?:\* )?(\S.*?)\s+DESC-([CF])-(\S+?)\.(?=\s|$)')


def plain(r):
    if '_plain' not in r:
        r['_plain'] = RX_ANSI.sub('', r['out'])
    return r['_plain']


def help_screens(menu, r):
    """The commands whose help screens were printed."""
    return [menu['descs'].get(m.group(1), '?' + m.group(1)) for m in RX_HELP.finditer(plain(r))]


def screen_kinds(menu, o, r):
    t = plain(r)
    got = set()
    if RX_HELP.search(t):
        got.add('help')
    if re.search(r'^All Commands', t, re.M):
        got.add('tree')
    lines = t.strip().split('\n')
    if lines and lines[0] in menu['versions'] | {v[1] for v in o['screens'] if v[0] == 'version'}:
        got.add('version')
    if re.search(r'^Built by ', t, re.M):
        got.add('buildinfo')
    if re.search(r'^command ".*" hit', t, re.M):
        got.add('debug')
    if not got and t.strip():
        got.add('?' + t.strip()[:60])
    return got


def listed(menu, r):
    """What the screen lists: {id: titles} of the user's commands and flags, and the titles of the built-in flags."""
    items, builtin, section = [], [], ''
    for line in plain(r).split('\n'):
        m = RX_SECTION.match(line)
        if m:
            section = m.group(1)
            continue
        if line.startswith('Type `'):
            break
        m = RX_ITEM.match(line)
        if m:
            ts = sorted(t.lstrip('-') for t in re.split(r'[,\s]+', m.group(1)) if t)
            items.append([m.group(2), m.group(3), ts])
        elif section.endswith('Options') or section.startswith('Parent'):
            m = re.match(r'  --([^\s,=]+)', line)
            if m:
                builtin.append(m.group(1))
        elif section == 'Commands' and re.match(r'  [a-zA-Z]', line):
            builtin.append('cmd ' + line.split(',')[0].split()[0])
    return sorted(items), sorted(builtin)


def exp_args(o, ev):
    if ev['e'] in ('cmd-matched', 'arg-matched', 'postrun'):
        return None
    if ev['from'] == -1:
        return o['remain']
    return o['argv'][ev['from']:]


HANDLERS = ('gpre', 'pre', 'inv', 'post', 'gpost', 'nothooked')


def builtin_screen_kinds(o):
    return [s[0] for s in o['screens']]


# Each category maps (menu, expected outcome, real run) to a pair of comparable values.
def cat_cmds(menu, o, r):
    return ({k: v['title'] for k, v in obj(o['chits']).items()}, {k: v['title'] for k, v in r['chits'].items()})


def cat_ran(menu, o, r):
    f = lambda log: [(e['e'], e['id']) for e in log if e['e'] in ('inv', 'nothooked')]
    return f(o['log']), f(r['log'])


def cat_help(menu, o, r):
    return [s[1] for s in o['screens'] if s[0] == 'help'], help_screens(menu, r)


def cat_fsel(menu, o, r):
    return ({k: (v['n'], v['title']) for k, v in obj(o['fhits']).items()}, {k: (v['n'], v['title']) for k, v in r['fhits'].items()})


def cat_matched(menu, o, r):
    f = lambda log: [(e['e'], e['id']) for e in log if e['e'] in ('arg-matched', 'cmd-matched')]
    return f(o['log']), f(r['log'])


def cat_hits(menu, o, r):
    return ({'cmds': obj(o['chits']), 'flags': obj(o['fhits'])}, {'cmds': r['chits'], 'flags': r['fhits']})


def cat_store(menu, o, r):
    return obj(o['store']), r['store']


def cat_chosen(menu, o, r):
    return {k: obj(v) for k, v in obj(o['chosen']).items()}, r['chosen']


def cat_remain(menu, o, r):
    f = lambda log, a: [(e['e'], e['id'], a(e)) for e in log if e['e'] in ('inv', 'nothooked', 'pre', 'gpre', 'post', 'gpost')]
    return f(o['log'], lambda e: exp_args(o, e)), f(r['log'], lambda e: e['args'])


def cat_log(menu, o, r):
    return ([(e['e'], e['id'], exp_args(o, e)) for e in o['log']], [(e['e'], e['id'], e['args']) for e in r['log']])


def cat_calls(menu, o, r):
    f = lambda log: [(e['e'], e['id']) for e in log if e['e'] in HANDLERS or e['e'] == 'postrun']
    return f(o['log']), f(r['log'])


def cat_ret(menu, o, r):
    e = (0, 'biz') if o['ret'] == -1000 else (o['ret'], '')
    return e, (r['ret'], r['thrown'])


def cat_failed(menu, o, r):
    """Whether the run reported failure by a negative result or an exception."""
    return (o['ret'] < 0), (r['ret'] < 0 or r['thrown'] != '')


def cat_unknown(menu, o, r):
    """Every unknown word met must be reported when it stops the run; and nothing may be reported otherwise."""
    err = RX_ANSI.sub('', r['err'])
    told = 'Unknown' in err or 'unknown' in err
    if not o['unknown']:
        return ('no report', 'no report' if not told else 'report: ' + err[:200])
    aborts = any(d['hit'] >= 33 for d in obj(menu['cmds']).values()) or any(d['act'] == 33 for d in obj(menu['flags']).values())
    if not o['stop'] or (aborts and not (o['opts']['strictCmd'] and o['opts']['strictFlag'])):
        return ('', '')  # a tolerated word need not be reported, and a hit handler may have ended the run
    w = o['unknown'][-1].lstrip('-~/')
    return ('reported ' + w, 'reported ' + w if told and w in err else 'not reported: ' + err[:200])


RX_SUGGEST = re.compile(r'^   - "-{0,2}(.*?)"', re.M)


def cat_suggest(menu, o, r):
    return sorted(o['suggest']), sorted(set(RX_SUGGEST.findall(RX_ANSI.sub('', r['err']))))


def cat_screens(menu, o, r):
    return sorted({s[0] for s in o['screens']}), sorted(screen_kinds(menu, o, r))


def cat_listed(menu, o, r):
    if not o['listed']:
        return None, None
    lc, lf = o['listed']
    items, builtin = [], []
    for kind, ids, defs in (('C', lc, obj(menu['cmds'])), ('F', [f for lvl in lf for f in lvl], obj(menu['flags']))):
        for i in ids:
            if i in defs:
                d = defs[i]
                items.append([kind, i, sorted(t for t in [d['long'], d['short'], *d['aliases']] if t)])
            else:
                builtin.append(('cmd ' if kind == 'C' else '') + i.rsplit('.', 1)[-1])
    got = listed(menu, r)
    if o['screens'][0][0] == 'tree':
        return sorted(items), got[0]
    return (sorted(items), sorted(builtin)), got


CATS = {k[4:]: v for k, v in globals().items() if k.startswith('cat_')}


def norm(x):
    """JSON-like values with lists and tuples alike."""
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    return x


def compare(menu, hist, res, cats, only_last=False):
    """Mismatches of one case: list of (run number, category, expected, real)."""
    bad = []
    if res is None:
        return [(0, 'driver', 'a result', 'none')]
    if 'crash' in res:
        return [(0, 'crash', 'the run ends', f'the process died, wait status {res["crash"]}')]
    outs = [s['out'] for s in hist if s['step'] == 'run']
    if len(outs) != len(res['runs']):
        return [(0, 'driver', len(outs), len(res['runs']))]
    for n, (o, r) in enumerate(zip(outs, res['runs'])):
        if only_last and n + 1 < len(outs):
            continue
        for c in cats:
            e, g = CATS[c](menu, o, r)
            if norm(e) != norm(g):
                bad.append((n, c, e, g))
    return bad


def diff_text(e, g):
    if isinstance(e, dict) and isinstance(g, dict):
        ks = [k for k in sorted(set(e) | set(g)) if norm(e.get(k)) != norm(g.get(k))]
        return '; '.join(f'{k}: expected {e.get(k)!r}, got {g.get(k)!r}' for k in ks)
    return f'expected {e!r}, got {g!r}'


def describe(hist, bad):
    steps = []
    for st in hist:
        if st['step'] == 'reset':
            steps.append('RESET')
        else:
            o = st['out']
            x = ' '.join(repr(w) for w in o['argv'])
            if obj(o['env']):
                x += f' env={o["env"]}'
            if o['load']:
                x += f' load={o["load"]}'
            steps.append(f'run[{x}] handlers={obj(o["hs"])} opts={o["opts"]}')
    return ' ; '.join(steps) + ' => ' + ' | '.join(f'run {n}: {c}: {diff_text(e, g)}' for n, c, e, g in bad)


class Config:
    def __init__(self, module, words, runs=1, done=0, simulate=0, overrides=None, timeout=300, name='', sample=4, decorate=False, spec_dir=None):
        self.spec_dir = spec_dir
        self.module, self.words, self.runs, self.done = module, words, runs, done
        self.sample = sample
        self.decorate = decorate
        self.simulate, self.overrides, self.timeout = simulate, overrides, timeout
        self.name = name or f'{module}/{"sim" if simulate else "bfs"}/w{words}r{runs}'


def check(v, configs, cats, max_cases=None):
    """Runs all configurations for one property and records violations in v."""
    box = {}

    def build():
        try:
            box['exe'] = C.compile_harness('parser', ['parser.cc'], flags=['-O1'])
        except BaseException as e:  # noqa: BLE001 - handed to the main thread
            box['err'] = e
    th = threading.Thread(target=build)
    th.start()
    runs = C.Ahead(3)

    def model(k, c):
        args = []
        if c.simulate:
            args = ['-simulate', f'num={c.simulate}', '-depth', str((c.words + 4) * c.runs + 4), '-seed', str(C.SEED * 1000 + k)]
        return C.tlc(c.module, cfg(c.words, c.runs, c.done, c.overrides, c.sample if c.simulate else 0, c.module, c.spec_dir), args, timeout=c.timeout, spec_dir=c.spec_dir,
                     workers=max(2, C.NCPU // 2))
    for k, c in enumerate(configs):
        runs.add(model, k, c)
    for c in configs:
        r = C.need(runs.next(), c.name)
        v.add_tlc(r)
        menu = json.loads(r.tagged['@MENU'][0])
        menu['decorate'] = c.decorate
        texts = r.tagged.get('@CASE', [])
        if c.simulate:
            texts = list(dict.fromkeys(texts))
        cases = [(i, json.loads(t)) for i, t in enumerate(texts)]
        C.log(f'{c.name}: TLC {r.distinct} states, {len(cases)} behaviours')
        if not cases:
            raise C.CheckError(f'{c.name}: no behaviours')
        th.join()
        if 'err' in box:
            raise box['err']
        rep, res, errs = run_cases(box['exe'], menu, cases)
        m = rep and rep['menu']
        menu['descs'] = {d: i for i, d in rep['descs'].items()} if rep else {}
        menu['versions'] = {'1.2.3'}
        if m is None:
            v.violation(f'{c.name}: the menu could not be built: {errs[:3]}', {'config': c.name, 'errors': errs[:10]})
            continue
        fresh = obj(menu['store'])
        if norm(fresh) != norm(m):
            if 'store' in cats or 'hits' in cats:
                v.violation(f'{c.name}: the store of the new application differs: {diff_text(fresh, m)}', {'config': c.name})
        bad = []
        for i, h in cases:
            b = compare(menu, h, res.get(i), cats)
            if b:
                bad.append((i, h))
        lost = [(i, h) for i, h in bad if res.get(i) is None]
        if lost:  # a driver stopped: processes that hung, or memory or time ran out; reported as it is, and no further
            hung = [(i, h) for i, h in bad if res.get(i) is not None]
            for i, h in hung[:20] + lost[:1]:
                v.violation(f'{c.name}: ' + describe(h, compare(menu, h, res.get(i), cats)) + f' {errs[:2]}',
                            {'config': c.name, 'history': h, 'errors': errs[:5], 'observed': res.get(i)})
            return
        if bad:
            # once more, alone, before it is reported
            _, res2, _ = run_cases(box['exe'], menu, bad[:400])
            for i, h in bad[:400]:
                b = compare(menu, h, res2.get(i), cats)
                if b:
                    v.violation(f'{c.name}: ' + describe(h, b), {'config': c.name, 'history': h, 'mismatch': norm(b), 'observed': res2.get(i)})
        v.cov['traces_validated_against_impl'] += len(cases)
        for i, h in cases[len(cases) // 2: len(cases) // 2 + 2]:
            v.sample(describe(h, []))
    v.cov['exhaustive'] = v.cov.get('exhaustive', False) or any(not c.simulate for c in configs)
    v.cov['configurations'] = v.cov.get('configurations', []) + [c.name for c in configs]
