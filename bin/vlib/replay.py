"""Conformance engine for the sequential specifications: histories generated by TLC are replayed into the real code by a
line-driven driver that answers one JSON object per history."""
import json
import threading

from . import common as C


class Model:
    """One TLC run that generates histories: breadth-first (all of them) or simulated."""

    def __init__(self, module, constants, simulate=0, depth=20, timeout=300, name='', invariants='Invariants Emit', header=(),
                 props='', workers=None, extra='', spec_dir=None):
        self.module, self.constants, self.simulate, self.depth = module, constants, simulate, depth
        self.timeout, self.invariants, self.header, self.workers, self.props = timeout, invariants, list(header), workers, props
        self.name = name or f'{module}/{"sim" if simulate else "bfs"}'
        self.extra, self.spec_dir = extra, spec_dir

    def cfg(self):
        s = f'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS {self.invariants}\n{self.extra}'
        if self.props:
            s += f'PROPERTIES {self.props}\n'
        s += 'CONSTANTS\n'
        for k, x in self.constants.items():
            s += f' {k} {"<-" if isinstance(x, str) else "="} {x}\n'
        return s


def run_lines(exe, header, cases, jobs=None, args=()):
    """cases: (idx, lines). Returns ({idx: result}, errors)."""
    jobs = jobs or C.NCPU
    res, errs = {}, []

    def work(chunk):
        text = '\n'.join(list(header) + [l for _, ls in chunk for l in ls]) + '\n'
        for d in C.drive([exe, *args], text, errs):
            res[d['case']] = d
    ts = [threading.Thread(target=work, args=(cases[k::jobs],)) for k in range(jobs) if cases[k::jobs]]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return res, errs


class Build(threading.Thread):
    """Compiles a driver while TLC runs."""

    def __init__(self, name, sources, **kw):
        super().__init__()
        self.a, self.kw, self.err, self.exe = (name, sources), kw, None, None
        self.start()

    def run(self):
        try:
            self.exe = C.compile_harness(*self.a, **self.kw)
        except BaseException as e:  # noqa: BLE001 - handed to the main thread
            self.err = e

    def get(self):
        self.join()
        if self.err:
            raise self.err
        return self.exe


def check(v, models, build, to_lines, compare, describe=None, args=()):
    """to_lines(idx, case) -> lines; compare(case, result) -> list of mismatch texts."""
    describe = describe or (lambda c: json.dumps(c.get('ops', c))[:1200])
    runs = C.Ahead(3)

    def model(k, m):
        a = ['-simulate', f'num={m.simulate}', '-depth', str(m.depth), '-seed', str(C.SEED * 1000 + k)] if m.simulate else []
        return C.tlc(m.module, m.cfg(), a, timeout=m.timeout, workers=m.workers or max(2, C.NCPU // 2), spec_dir=m.spec_dir)
    for k, m in enumerate(models):
        runs.add(model, k, m)
    for m in models:
        r = C.need(runs.next(), m.name)
        v.add_tlc(r)
        texts = list(dict.fromkeys(r.tagged.get('@CASE', [])))
        cases = [(i, json.loads(t)) for i, t in enumerate(texts)]
        C.log(f'{m.name}: TLC {r.distinct} states, {len(cases)} histories')
        if not cases:
            raise C.CheckError(f'{m.name}: no histories')
        exe = build.get()

        def judge(cs):
            res, errs = run_lines(exe, m.header, [(i, to_lines(i, c)) for i, c in cs], args=args)
            bad = []
            for i, c in cs:
                d = res.get(i)
                if d is None:
                    b = [f'no answer from the driver {errs[:2]}']
                elif 'crash' in d:
                    b = [f'the process died, wait status {d["crash"]}']
                else:
                    b = compare(c, d)
                if b:
                    bad.append((i, c, b, d))
            return bad
        bad = judge(cases)
        if sum(d is None for _, _, _, d in bad) > 0:  # the driver did not end, or died: reported as it is, and no further
            for i, c, b, d in [x for x in bad if x[3] is None][:1] + [x for x in bad if x[3] is not None][:20]:
                v.violation(f'{m.name}: {describe(c)} => ' + ' | '.join(b), {'model': m.name, 'case': c, 'mismatch': b, 'observed': d})
            return
        if bad:
            for i, c, b, d in judge([(i, c) for i, c, _, _ in bad[:300]]):  # once more before it is reported
                v.violation(f'{m.name}: {describe(c)} => ' + ' | '.join(b), {'model': m.name, 'case': c, 'mismatch': b, 'observed': d})
        v.cov['traces_validated_against_impl'] += len(cases)
        for i, c in cases[len(cases) // 2: len(cases) // 2 + 2]:
            v.sample(describe(c))
    v.cov['exhaustive'] = v.cov.get('exhaustive', False) or any(not m.simulate for m in models)
    v.cov['configurations'] = v.cov.get('configurations', []) + [m.name for m in models]


def obj(x):
    return {} if x == [] else x


def diff(what, e, g):
    if isinstance(e, dict) and isinstance(g, dict):
        ks = [k for k in sorted(set(e) | set(g)) if e.get(k) != g.get(k)]
        return [f'{what}: ' + '; '.join(f'{k}: expected {e.get(k)!r}, got {g.get(k)!r}' for k in ks[:6])] if ks else []
    return [f'{what}: expected {e!r}, got {g!r}'] if e != g else []
