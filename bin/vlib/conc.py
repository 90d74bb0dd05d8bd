"""Conformance engine for the concurrent specifications.

TLC checks a specification over client programs and emits the programs; the real code runs each of them under many schedules
of a controlled scheduler (harness/sched.cc); the recorded histories are given to TLC, which decides which of them are
behaviours of the specification."""
import json
import os
import subprocess
import tempfile
import threading

from . import common as C


class Program:
    def __init__(self, pid, cfg, main, clients, text=''):
        self.pid, self.cfg, self.main, self.clients = pid, cfg, main, clients

    def fields(self):
        return [self.pid, ' '.join(f'{k}={x}' for k, x in self.cfg.items()), self.main]

    def line(self):
        return '\t'.join(['prog', *self.fields(), *self.clients])

    def replay_line(self, plan):
        return '\t'.join(['replay', *self.fields(), plan, *self.clients])

    def show(self):
        return f'{self.pid}: {self.cfg} main[{self.main}] ' + ' || '.join(f'[{c}]' for c in self.clients)


class Build(threading.Thread):
    """The driver: the scheduler, and instrumented code under test."""

    def __init__(self, name, flags=('-O1',), std='c++17'):
        super().__init__()
        self.name, self.flags, self.std, self.err, self.exe = name, list(flags), std, None, None
        self.start()

    def run(self):
        try:
            d = C.scratch()
            dev = os.environ.get('VERIF_DEV_BIN')
            if dev and os.path.exists(os.path.join(dev, self.name)):
                self.exe = os.path.join(dev, self.name)
                return
            C.compile_harness('sched.o', ['sched.cc'], flags=['-O2', '-g', '-c'], includes=[f'-I{C.HARNESS}'], link=(), out=f'{d}/{self.name}-sched.o')
            C.compile_harness(self.name + '.o', [self.name + '.cc'], flags=[*self.flags, '-g', '-fsanitize=thread', '-c'], link=(), std=self.std,
                              out=f'{d}/{self.name}.o')
            self.exe = os.path.join(d, self.name)
            r = subprocess.run(['g++', '-no-pie', f'{d}/{self.name}.o', f'{d}/{self.name}-sched.o', '-o', self.exe, '-pthread'], capture_output=True, text=True)
            if r.returncode:
                print(r.stderr[-3000:])
                raise C.CheckError(f'{self.name} does not link')
        except BaseException as e:  # noqa: BLE001 - handed to the main thread
            self.err = e

    def get(self):
        self.join()
        if self.err:
            raise self.err
        return self.exe


class Budget:
    def __init__(self, random=200, systematic=400, preemptions=2, spurious=True, timers=False):
        self.random, self.systematic, self.preemptions, self.spurious, self.timers = random, systematic, preemptions, spurious, timers

    def args(self):
        return [str(int(x)) for x in (self.random, self.systematic, self.preemptions, self.spurious, self.timers, C.SEED)]


def drive(exe, lines, budget, jobs=None):
    """Runs the program lines; returns (traces, stats): traces = [(pid, count, plan, json)]."""
    jobs = jobs or C.NCPU
    traces, stats, errs = [], [], []
    queue = list(lines)
    lock = threading.Lock()

    def work():
        while True:
            with lock:
                if not queue:
                    return
                batch = [queue.pop() for _ in range(min(len(queue), max(1, min(8, len(queue) // (jobs * 3)))))]
            p = subprocess.run([exe, *budget.args()], input=('\n'.join(batch) + '\n').encode(), capture_output=True,
                               env={'PATH': '/usr/bin:/bin', 'HOME': C.scratch()}, cwd=C.scratch())
            got = 0
            out = []
            for line in p.stdout.decode('utf-8', 'replace').splitlines():
                f = line.split('\t')
                if f[0] == 'trace':
                    out.append((f[1], int(f[2]), f[3], f[4]))
                    got += batch[0].startswith('replay')
                elif f[0] == 'stats':
                    got += 1
                    with lock:
                        stats.append((f[1], int(f[2]), int(f[3]), f[4] == '1'))
            with lock:
                traces.extend(out)
                if p.returncode or got != len(batch):
                    errs.append(f'driver ended with {p.returncode}: {p.stderr[-300:]!r}')
    ts = [threading.Thread(target=work) for _ in range(jobs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise C.CheckError(errs[0])
    return traces, stats


def accepted(module, constants, items, v=None, chunk=1500, parallel=4, timeout=600):
    """items: [(cfg, trace json text)]; returns the set of indexes that TLC accepts, and TLC's state counts."""
    ok, states = set(), [0, 0]
    runs = C.Ahead(parallel)
    n = max(1, min(chunk, -(-len(items) // parallel)))
    starts = list(range(0, len(items), n))

    budget = [40]

    def judge(k, part):
        """TLC cannot evaluate the specification on some history that is far off: find it, it is none of its behaviours."""
        fd, path = tempfile.mkstemp(suffix='.ndjson', dir=C.scratch())
        with os.fdopen(fd, 'w') as f:
            for cfg, text in part:
                f.write('{"cfg":' + json.dumps(cfg) + ',"ev":' + text + '}\n')
        cfg = 'INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\nINVARIANTS Accepted\nCONSTANTS\n'
        for a, b in constants.items():
            cfg += f' {a} {"<-" if isinstance(b, str) else "="} {b}\n'
        r = C.tlc(module, cfg, timeout=timeout, tags=('@OK',), workers=max(2, C.NCPU // parallel), env={'TRACES': path}, heap='5g')
        os.unlink(path)
        if r.ok:
            return {k + int(x) - 1 for x in r.tagged.get('@OK', [])}, r.distinct, r.states
        if r.timed_out or budget[0] <= 0 and len(part) > 1:
            C.need(r, f'{module}, traces {k}..')
        budget[0] -= 1
        if len(part) == 1:
            return set(), 0, 0
        h = len(part) // 2
        a, b = judge(k, part[:h]), judge(k + h, part[h:])
        return a[0] | b[0], a[1] + b[1], a[2] + b[2]

    def one(k):
        return k, judge(k, items[k:k + n])

    for k in starts:
        runs.add(one, k)
    for _ in starts:
        k, (got, distinct, generated) = runs.next()
        ok |= got
        states[0] += distinct
        states[1] += generated
    return ok, states


def normal(text):
    """Threads that are no clients are numbered in the order in which they show up."""
    ev = json.loads(text)
    names = {}
    for e in ev:
        if e['e'] in ('tstart', 'texit'):
            e['t'] = names.setdefault(e['t'], 100 + len(names))
    return json.dumps(ev, separators=(',', ':'))


def diagnose(module, constants, cfg, text):
    """How far TLC can follow a rejected trace."""
    lo, ev = 0, json.loads(text)
    fd, path = tempfile.mkstemp(suffix='.ndjson', dir=C.scratch())
    with os.fdopen(fd, 'w') as f:
        for n in range(1, len(ev) + 1):
            f.write(json.dumps({'cfg': cfg, 'ev': ev[:n]}) + '\n')
    c = 'INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\nINVARIANTS Accepted\nCONSTANTS\n'
    for a, b in constants.items():
        c += f' {a} {"<-" if isinstance(b, str) else "="} {b}\n'
    r = C.tlc(module, c, timeout=300, workers=2, env={'TRACES': path}, heap='3g')
    os.unlink(path)
    got = {int(x) for x in r.tagged.get('@OK', [])}
    while lo + 1 in got:
        lo += 1
    return lo


def where(exe, text):
    """Names for the code addresses of a race report."""
    out = []
    for e in json.loads(text):
        if e['e'] == 'race':
            pcs = [x for x in e['s'].split() if x.startswith('0x')]
            r = subprocess.run(['addr2line', '-e', exe, '-i', '-C', '-s', *[hex(int(x, 16) - 1) for x in pcs]], capture_output=True, text=True)
            out.append(e['s'].split()[0] * e['s'].startswith('freed') + ' ' + ' '.join(x for x in r.stdout.split() if ':' in x))
    return out


def brief(text):
    o = []
    for e in json.loads(text):
        o.append({'call': '{t}:{op}({a},{b}{s})', 'ret': '{t}:{op}->{a}{s}'}.get(e['e'], '{e}:{op}{a}@{t} {s}').format(**e))
    return ' '.join(o)


def check(v, models, build, programs, trace_module, trace_constants, budget, ignore=(), cap=None, extra_programs=()):
    """models: functions returning TlcResult with the programs under @CASE (or none); programs(case, idx) -> Program."""
    runs = C.Ahead(3)
    for name, f in models:
        runs.add(f)
    progs = list(extra_programs)
    for name, f in models:
        r = C.need(runs.next(), name)
        v.add_tlc(r)
        cases = list(dict.fromkeys(r.tagged.get('@CASE', [])))
        C.log(f'{name}: TLC {r.distinct} states, {len(cases)} client programs')
        for t in cases:
            p = programs(json.loads(t), len(progs))
            if p is not None:
                progs.append(p)
    if not progs:
        raise C.CheckError('no programs')
    exe = build.get()
    by_id = {p.pid: p for p in progs}
    if len(by_id) != len(progs):
        raise C.CheckError('program names clash')
    traces, stats = drive(exe, [p.line() for p in progs], budget)
    schedules = sum(s[1] for s in stats)
    uniq = {}
    for pid, n, plan, text in traces:
        text = normal(text)
        if ignore:
            text = json.dumps([e for e in json.loads(text) if e['e'] not in ignore], separators=(',', ':'))
        uniq.setdefault((json.dumps(by_id[pid].cfg, sort_keys=True), text), (pid, plan))
    items = sorted(uniq)
    total = len(items)
    C.log(f'{len(progs)} programs, {schedules} schedules ({sum(s[3] for s in stats)} programs completely explored with {budget.preemptions} preemptions), '
          f'{total} different histories')
    if cap and total > cap:
        import random
        rng = random.Random(C.SEED)
        bad_first = [x for x in items if '"e":"race"' in x[1] or '"e":"crash"' in x[1] or '"e":"misuse"' in x[1] or '"e":"endless"' in x[1]]
        items = sorted(set(bad_first[:200]) | set(rng.sample(items, cap)))
    ok, st = accepted(trace_module, trace_constants, [(json.loads(c), t) for c, t in items], v)
    v.cov['states'] += st[0]
    v.cov['transitions'] += st[1]
    v.cov['traces_validated_against_impl'] += len(items)
    C.log(f'{len(items)} histories judged by TLC ({st[0]} states), {len(items) - len(ok)} rejected')
    bad = [x for i, x in enumerate(items) if i not in ok]
    for cfg, text in bad[:6]:
        pid, plan = uniq[(cfg, text)]
        again, _ = drive(exe, [by_id[pid].replay_line(plan)], budget, 1)  # once more before it is reported
        t2 = normal(again[0][3])
        t2 = json.dumps([e for e in json.loads(t2) if e['e'] not in ignore], separators=(',', ':'))
        c = json.loads(cfg)
        if t2 != text:
            C.log('a rejected history did not come again under the same schedule', pid, plan, brief(text), brief(t2))
            ok2, _ = accepted(trace_module, trace_constants, [(c, t2)], v)
            if ok2:
                continue
        n = diagnose(trace_module, trace_constants, c, text)
        races = where(exe, text)
        v.violation(f'{by_id[pid].show()} => {brief(text)}: not a behaviour of the specification from event {n + 1} on' + (f' races: {races}' if races else ''),
                    {'program': by_id[pid].line(), 'plan': plan, 'trace': json.loads(text), 'rejected_at': n + 1, 'races': races})
    for cfg, text in items[total // 2:total // 2 + 3]:
        v.sample(brief(text)[:600])
    v.cov['schedules'] = v.cov.get('schedules', 0) + schedules
    v.cov['different_histories'] = v.cov.get('different_histories', 0) + total
    v.cov['programs'] = v.cov.get('programs', 0) + len(progs)
    return total
