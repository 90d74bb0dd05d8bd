"""C36: completions of spec/Completion.tla; the script the application generates is sourced by a real bash, which is asked what it offers."""
import json
import os
import shutil
import subprocess
import threading

from . import common as C
from . import replay as R
from .helps import Menu, loose

SHORTCUTS = {'hhncsc'[a:b] for a, b in [(0, k) for k in range(1, 7)] + [(1, k) for k in range(2, 7)] + [(2, k) for k in range(4, 7)] + [(4, 6)]}

STUB = r'''
_get_comp_words_by_ref() { cur="$T_CUR"; prev="${T_WORDS[${#T_WORDS[@]}-1]}"; words=("${T_WORDS[@]}" "$T_CUR"); }
ask() {  # index, cur, words
  local i="$1"; T_CUR="$2"; shift 2; T_WORDS=("$@")
  COMPREPLY=()
  if [ -z "$F" ]; then F=$(complete -p "$APP" 2>/dev/null); F=${F#complete -F }; F=${F%% *}; fi
  "$F" "$APP" "$T_CUR" "${T_WORDS[${#T_WORDS[@]}-1]}"
  printf '@%s' "$i"; printf '\x1f%s' "${COMPREPLY[@]}"; printf '\n'
}
'''


def quote(s):
    return "'" + s.replace("'", "'\\''") + "'"


class Shell:
    """One application in a directory of its own, and a bash that has sourced its script."""

    def __init__(self, exe, menu, name, variant):
        self.dir = os.path.join(C.scratch(), 'completion-' + name)
        shutil.rmtree(self.dir, True)
        os.makedirs(self.dir + '/cwd')
        self.app = variant['exe']
        os.link(exe, f'{self.dir}/{self.app}')  # not a copy: a file open for writing in another thread's child cannot be run
        with open(self.dir + '/menu', 'w') as f:
            f.write('\n'.join(menu) + '\n')
        self.env = {'PATH': f'{self.dir}:/usr/bin:/bin', 'HOME': self.dir, 'SHELL': '/bin/bash', 'VERIF_MENU': self.dir + '/menu', 'LC_ALL': 'C.UTF-8', **variant['env']}

    def script(self):
        r = subprocess.run(C.limited(f'{self.dir}/{self.app}', 'generate', 'shell', '--bash', '--dry-run', '--stdout'), capture_output=True, text=True, errors='replace',
                           env=self.env, cwd=self.dir + '/cwd')
        if r.returncode or 'complete' not in r.stdout:
            return None, f'no script: status {r.returncode}, {r.stdout[:200]!r} {r.stderr[-200:]!r}'
        if os.listdir(self.dir + '/cwd'):
            return None, f'files written: {os.listdir(self.dir + "/cwd")}'
        return r.stdout, ''

    def ask(self, asks):
        """asks: [(words, cur)] -> [[offered]]"""
        text, err = self.script()
        if text is None:
            return None, err
        with open(f'{self.dir}/script', 'w') as f:
            f.write(STUB + text + '\n' + f'APP={quote(self.app)}\n')
            for i, (w, cur) in enumerate(asks):
                f.write(' '.join(['ask', str(i), quote(cur), quote(self.app), *map(quote, w)]) + '\n')
        r = subprocess.run(C.limited('bash', '--norc', '--noprofile', f'{self.dir}/script'), capture_output=True, text=True, errors='replace', env=self.env,
                           cwd=self.dir + '/cwd')
        out = [None] * len(asks)
        for line in r.stdout.split('\n'):
            if line.startswith('@'):
                f = line[1:].split('\x1f')
                out[int(f[0])] = f[1:]
        return out, r.stderr[-300:]


def judge(shell, asks):
    out, err = shell.ask([(a['words'], a['cur']) for a in asks])
    if out is None:
        return [(None, err)]
    bad = []
    for a, o in zip(asks, out):
        exp = sorted(a['offered'])
        got = None if o is None else sorted(set(x for x in o if x))
        if got != exp:
            miss, more = [x for x in exp if x not in (got or [])], [x for x in got or [] if x not in exp]
            bad.append((a, f'not offered: {miss}; offered, but not there: {more}' + (f' {err!r}' if o is None else '')))
    return bad


def check(v, deep):
    build = R.Build('help', ['help.cc'], flags=['-O1', '-DUSE_DEBUG=0', '-DNDEBUG'], link=('-lutil',))
    d = os.path.join(C.scratch(), 'completions')
    os.makedirs(d, exist_ok=True)
    runs = C.Ahead(3)
    menus = []
    for k in range(24 if deep else 6):
        n = 0
        while True:
            m = Menu(f'C36/{C.SEED}/{k}/{n}')
            if not loose(m) and not any({x['long'], x['short'], *x['aliases']} & SHORTCUTS for x in m.flags):
                break
            n += 1
        for x in m.r.sample([*m.cmds.values(), *m.flags], 3):  # several lines of a screen
            x['desc'] = ' '.join(m.r.choice(['with', 'some', '-dashes', 'and', '--more', 'words', 'a, b', 'x | y', 'long-ones']) for _ in range(m.r.choice([40, 100, 150])))
        name = f'MC_Comp_{k}'
        with open(os.path.join(d, name + '.tla'), 'w') as f:
            f.write(m.module(name).replace('EXTENDS MC_Help', 'EXTENDS MC_Completion'))
        cfg = ('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS Invariants Emit\nCONSTANTS\n App <- mcApp\n UserCmds <- mcUserCmds\n UserFlags <- mcUserFlags\n'
               ' CmdOrder <- mcCmdOrder\n FlagOrder <- mcFlagOrder\n Shells <- mcShells\n MaxWords = 6\n MaxTabs = 4\n Sample = 1\n')
        menus.append((k, m))
        runs.add(C.tlc, name, cfg, ['-simulate', f'num={600 if deep else 150}', '-depth', '40', '-seed', str(C.SEED * 1000 + k)], 300, ('@CASE',), 3, None, None, d)
    for k, m in menus:
        r = C.need(runs.next(), f'random menu {k}')
        v.add_tlc(r)
        asks = {}
        for t in r.tagged.get('@CASE', []):
            for a in json.loads(t)['tabs']:
                asks[(tuple(a['words']), a['cur'])] = a
        asks = list(asks.values())
        C.log(f'random menu {k}: {len(asks)} completions')
        if not asks:
            raise C.CheckError('no completions')
        exe = build.get()
        variant = {'exe': ['tool', 'my-tool', 'x_1', 'a.b', 'one-two-three'][k % 5], 'env': [{}, {'TERM': 'xterm-256color'}, {'TERM': 'dumb', 'COLUMNS': '40'}][k % 3]}
        bad, n = [], C.NCPU
        parts = [asks[j::n] for j in range(n) if asks[j::n]]

        def work(j):
            bad.extend(judge(Shell(exe, m.header(), f'{k}-{j}', variant), parts[j]))
        ts = [threading.Thread(target=work, args=(j,)) for j in range(len(parts))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for a, b in bad[:200]:
            if a is None:
                v.violation(f'random menu {k}, {variant["exe"]}: {b}', {'menu': m.header(), 'variant': variant, 'problem': b})
                continue
            again = judge(Shell(exe, m.header(), f'{k}-again', variant), [a])
            if again:
                v.violation(f'random menu {k}: {variant["exe"]} {" ".join(a["words"])} {a["cur"]}<Tab> => {again[0][1]}', {'menu': m.header(), 'variant': variant, 'asked': a, 'problem': again[0][1]})
        v.cov['traces_validated_against_impl'] += len(asks)
        for a in asks[:1]:
            v.sample(f'{variant["exe"]} {" ".join(a["words"])} {a["cur"]}<Tab> offers {len(a["offered"])} titles')
    v.cov['exhaustive'] = False
    v.cov['configurations'] = [f'random menu {k}' for k, _ in menus]
