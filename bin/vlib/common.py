"""Shared parts of the checks: building harnesses from /repo's working tree, running TLC, reporting."""
import atexit
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
BUILD = os.path.join(VERIF, 'build')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NCPU = max(2, min(8, os.cpu_count() or 2))
T0 = time.time()
TIER = 'quick'  # set by check.py


def deep():
    return TIER == 'thorough'


class CheckError(Exception):
    """The check itself could not be carried out."""


def log(*a):
    print(f'[{time.time() - T0:7.1f}s]', *a, flush=True)


_scratch = None
_scratch_lock = threading.Lock()


def scratch():
    """A scratch directory of this run, removed at the end."""
    global _scratch
    with _scratch_lock:
        if _scratch is None:
            os.makedirs(BUILD, exist_ok=True)
            _scratch = tempfile.mkdtemp(prefix='run-', dir=BUILD)
            if not os.environ.get('VERIF_KEEP'):
                atexit.register(shutil.rmtree, _scratch, True)
        return _scratch


def limited(*cmd):
    """A driver's run takes seconds; one that does not end, or fills the memory or the disk, is ended."""
    t = 3000 if deep() else 200
    return ['bash', '-c', f'ulimit -t {t // 3} -v 6000000 -f {2000000 if deep() else 250000}; exec "$@"', 'run', 'timeout', '-s', 'KILL', str(t), *cmd]


def drive(cmd, text, errs, starts=('{"case"',)):
    """Runs a driver on text and gives the JSON values of those lines of its output that begin so; what goes wrong is added to errs."""
    d = tempfile.mkdtemp(prefix='drive-', dir=scratch())
    try:
        with open(f'{d}/in', 'wb') as f:
            f.write(text.encode())
        with open(f'{d}/in', 'rb') as i, open(f'{d}/out', 'wb') as o, open(f'{d}/err', 'wb') as e:
            rc = subprocess.run(limited(*cmd), stdin=i, stdout=o, stderr=e, env={'PATH': '/usr/bin:/bin', 'HOME': scratch()}, cwd=scratch()).returncode
        if rc != 0:
            with open(f'{d}/err', 'rb') as e:
                e.seek(max(0, os.path.getsize(f'{d}/err') - 500))
                errs.append(f'driver ended with {rc}: {e.read()!r}')
        starts = tuple(x.encode() for x in starts)
        with open(f'{d}/out', 'rb') as o:
            for line in o:
                if line.startswith(starts):
                    try:
                        yield json.loads(line.decode('utf-8', 'replace'))
                    except ValueError as x:
                        errs.append(f'driver printed {line[:200]!r}: {x}')
    finally:
        shutil.rmtree(d, True)


def compile_harness(name, sources, flags=(), cxx='g++', includes=None, link=('-pthread',), std='c++17', out=None):
    """Compiles /verif/harness sources against /repo's headers; always anew (the tree may have changed)."""
    dev = os.environ.get('VERIF_DEV_BIN')  # development only: drivers built beforehand
    if dev and os.path.exists(os.path.join(dev, name)):
        return os.path.join(dev, name)
    exe = out or os.path.join(scratch(), name)
    inc = [f'-I{HARNESS}/gen', f'-I{HARNESS}', f'-I{REPO}/libs/cmdr11/include'] if includes is None else includes
    cmd = [cxx, f'-std={std}', *([] if any(f.startswith('-O') for f in flags) else ['-O0']), '-w', '-DCMDR_ENABLE_ASSERTIONS=1', '-DCMDR_ENABLE_PRECONDITION_CHECKS=1',
           *flags, *inc, *[os.path.join(HARNESS, s) for s in sources], '-o', exe, *link]
    t = time.time()
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        print(r.stderr[-4000:])
        raise CheckError(f'harness {name} does not compile')
    log(f'compiled {name} in {time.time() - t:.1f}s')
    return exe


class TlcResult:
    def __init__(self):
        self.states = 0
        self.distinct = 0
        self.depth = 0
        self.tagged = {}
        self.text = ''
        self.ok = False
        self.error = ''


def tlc(module, cfg_text, args=(), timeout=600, tags=('@CASE', '@MENU'), workers=None, heap=None, name=None, spec_dir=None,
        jvm=(), sink=None, allow_timeout=False, env=None):
    """Runs TLC. Lines printed as "<tag> text" are collected per tag (or handed to sink(tag, text))."""
    d = tempfile.mkdtemp(prefix=f'tlc-{name or module}-', dir=scratch())
    cfg = os.path.join(d, 'model.cfg')
    with open(cfg, 'w') as f:
        f.write(cfg_text)
    cmd = ['java', '-XX:+UseParallelGC', '-Xss16m', f'-Xmx{heap or "6g"}', f'-DTLA-Library={SPEC}', f'-Djava.io.tmpdir={d}', *jvm, '-cp', JARS,
           'tlc2.TLC', '-workers', str(workers or NCPU), '-metadir', os.path.join(d, 'md'), '-config', cfg, *args,
           os.path.join(spec_dir or SPEC, module + '.tla')]
    res = TlcResult()
    keep = []
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=d, errors='replace',
                         env={**os.environ, **env} if env else None)
    timed_out = []
    timer = threading.Timer(timeout, lambda: (timed_out.append(1), p.kill()))
    timer.start()
    try:
        for line in p.stdout:
            if line.startswith('"@'):
                tag, _, rest = line.rstrip('\n').partition(' ')
                tag = tag[1:]
                text = untla(rest[:-1])
                if sink:
                    sink(tag, text)
                else:
                    res.tagged.setdefault(tag, []).append(text)
            else:
                keep.append(line)
                if len(keep) > 4000:
                    del keep[1000:2000]
        rc = p.wait()
    finally:
        timer.cancel()
        if p.poll() is None:
            p.kill()
            p.wait()
    res.text = ''.join(keep)
    m = re.findall(r'(\d+) states generated(?:, (\d+) distinct states found)?', res.text.replace(',', '')) or []
    m2 = re.findall(r'([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found', res.text)
    if m2:
        res.states = int(m2[-1][0].replace(',', ''))
        res.distinct = int(m2[-1][1].replace(',', ''))
    else:
        m3 = re.findall(r'Progress: ([\d,]+) states checked', res.text) + re.findall(r'The number of states generated: ([\d,]+)', res.text)
        if m3:
            res.states = int(m3[-1].replace(',', ''))
            res.distinct = res.states
    m = re.findall(r'depth of the complete state graph search is (\d+)', res.text)
    if m:
        res.depth = int(m[-1])
    res.rc = rc
    res.timed_out = bool(timed_out)
    res.ok = rc == 0
    if not res.ok and not (timed_out and allow_timeout):
        res.error = '\n'.join(l for l in res.text.splitlines() if 'rror' in l or 'iolated' in l)[:2000] or f'TLC exit {rc}'
    shutil.rmtree(d, ignore_errors=True)
    return res


class Ahead:
    """Runs functions in a few threads; results come in the order the functions were added."""

    def __init__(self, n):
        from concurrent.futures import ThreadPoolExecutor
        self.pool = ThreadPoolExecutor(n)
        self.q = []

    def add(self, f, *a):
        self.q.append(self.pool.submit(f, *a))

    def next(self):
        return self.q.pop(0).result()


def need(res, what):
    if not res.ok:
        print(res.text[-6000:])
        raise CheckError(f'TLC failed on {what}: {res.error}' + (' (timed out)' if res.timed_out else ''))
    return res


_unesc = re.compile(r'\\(.)')


def untla(s):
    if '\\' not in s:
        return s
    return _unesc.sub(lambda m: {'n': '\n', 't': '\t', 'r': '\r', 'f': '\f'}.get(m.group(1), m.group(1)), s)


class Verdict:
    """Collects violations of one property; known findings are told apart by their key."""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.violations = []
        self.known_hit = set()
        self.known = {}
        path = os.path.join(VERIF, 'known-findings.txt')
        if os.path.exists(path):
            for line in open(path):
                m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
                if m and m.group(1) == prop:
                    self.known[m.group(2)] = m.group(3).strip()
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.assumptions = []

    def violation(self, what, replay, key=None):
        if key and key in self.known:
            self.known_hit.add(key)
            return
        self.violations.append((what, replay))

    def add_tlc(self, res):
        self.cov['states'] += res.distinct
        self.cov['transitions'] += res.states

    def sample(self, s):
        if len(self.cov['samples']) < 5:
            self.cov['samples'].append(s)

    def finish(self, level='model_checking'):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': SEED, 'level': level, 'coverage': self.cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - T0, 2), 'violations': len(self.violations)}
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in sorted(self.known):
            print(f'KNOWN-FINDING: property={self.prop} {self.known[k]}')
        if self.violations:
            d = os.path.join(BUILD, 'replay')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, self.prop + '.json')
            with open(path, 'w') as f:
                json.dump([{'what': w, 'replay': r} for w, r in self.violations[:50]], f, indent=1)
            for w, _ in self.violations[:10]:
                print('  ', w[:1500])
            print(f'VIOLATION property={self.prop} replay={path}')
            return 1
        log(f'{self.prop}: held; states={self.cov["states"]} transitions={self.cov["transitions"]} '
            f'validated={self.cov["traces_validated_against_impl"]}')
        return 0
