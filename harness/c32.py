"""C32: programs leave the environment of the process as it was."""
import os

from mdpo.io import environ
from mdpo.md2po.__main__ import run as md2po
from mdpo.md2po2md.__main__ import run as md2po2md
from mdpo.mdpo2html.__main__ import run as mdpo2html
from mdpo.po2md.__main__ import run as po2md

from harness.common import empty_po

BOUNDS = ('up to 2 variables, each missing or with a previous value of 0 to 2 characters (3 in the thorough tier), a '
          'temporary value of the same lengths, a body that changes, removes or leaves each and ends normally, by an '
          'exception or by an exit; each program with each way to end (success, wrong argument, missing content, '
          'failing content), and _MDPO_RUNNING missing or with 1 character. Values over all BMP characters')
REACH = ['normal', 'exception', 'exit', 'program-ok', 'program-exit', 'program-error']
VARS = ['_SYMX_A', '_SYMX_B']


def cases(tier):
    vals = [None, 0, 1, 2] if tier == 'quick' else [None, 0, 1, 2, 3]
    cs = []
    for prev in vals:
        for new in vals[1:]:
            for act in ('leave', 'set', 'del'):
                for end in ('normal', 'exception', 'exit'):
                    cs.append({'k': 'environ', 'p': [prev], 'n': [new], 'a': [act], 'e': end})
    for p1 in (None, 1):
        for p2 in (None, 1):
            for a1 in ('leave', 'set', 'del'):
                for a2 in ('leave', 'set', 'del'):
                    for end in ('normal', 'exception'):
                        cs.append({'k': 'environ', 'p': [p1, p2], 'n': [1, 1], 'a': [a1, a2], 'e': end})
    for prog in ('md2po', 'po2md', 'mdpo2html', 'md2po2md'):
        for how in ('ok', 'help', 'nocontent', 'badwidth', 'badalias', 'badevent', 'nofile', 'check'):
            for prev in (None, 1):
                cs.append({'k': 'program', 'f': prog, 'h': how, 'p': prev})
    return cs


def state(names):
    return [os.environ[n] if n in os.environ else None for n in names]


def run(w, case):
    if case['k'] == 'environ':
        names = VARS[:len(case['p'])]
        for n, p in zip(names, case['p']):
            os.environ.pop(n, None)
            if p is not None:
                os.environ[n] = w.text('p' + n, p, 'any')
        before = state(names)
        others = sorted(k for k in os.environ if k not in names)
        new = {n: w.text('n' + n, k, 'any') for n, k in zip(names, case['n'])}
        ended = None
        try:
            with environ(**new):
                w.check(w.eq(state(names), [new[n] for n in names]), 'seen-during-run')
                for n, a in zip(names, case['a']):
                    if a == 'set':
                        os.environ[n] = w.text('s' + n, 1, 'any')
                    elif a == 'del':
                        del os.environ[n]
                if case['e'] == 'exception':
                    raise ZeroDivisionError
                if case['e'] == 'exit':
                    raise SystemExit(3)
            ended = 'normal'
        except ZeroDivisionError:
            ended = 'exception'
        except SystemExit:
            ended = 'exit'
        w.reach(ended)
        w.check(ended == case['e'], 'ends-as-the-body', ended)
        after = state(names)
        w.obs('after', after)
        w.check(w.eq(after, before), 'restored', [before, after])
        w.check(sorted(k for k in os.environ if k not in names) == others, 'others-untouched')
        for n in names:
            os.environ.pop(n, None)
        return
    name = '_MDPO_RUNNING'
    os.environ.pop(name, None)
    if case['p'] is not None:
        os.environ[name] = w.text('p', case['p'], 'any')
    before = state([name])
    keys = sorted(os.environ)
    f = {'md2po': md2po, 'po2md': po2md, 'mdpo2html': mdpo2html, 'md2po2md': md2po2md}[case['f']]
    t = w.text('t', 1)
    md = w.write('d.md', w.cat([t, '\n']))
    args = {'md2po': [md, '-q'], 'po2md': [md, '-q', '-p', empty_po(w)], 'mdpo2html': [md, '-q', '-p', empty_po(w)],
            'md2po2md': [md, '-l', 'es', '-q', '-o', w.path('o/{lang}')]}[case['f']]
    how = case['h']
    if how == 'help':
        args = ['--help']
    elif how == 'nocontent':
        args = args[1:]
    elif how == 'badwidth':
        args = args + [{'md2po2md': '--po-wrapwidth'}.get(case['f'], '--wrapwidth'), 'zz']
    elif how == 'badalias':
        args = args + ['--command-alias', 'nothing']
    elif how == 'badevent':
        args = args + ['-e', 'text: nothing.py::f']
    elif how == 'nofile':
        args = [w.path('missing.md')] + args[1:]
    elif how == 'check':
        args = args + ['--check', '-s'] + ([w.path('out.x')] if case['f'] not in ('md2po', 'md2po2md') else [])
    r = w.call(w.main, f, args)
    w.obs('r', r[0])
    if r[0] == 'ok':
        code = r[1][0]
        code = code[1] if isinstance(code, tuple) else code
        w.reach('program-exit' if code else 'program-ok')
    else:
        w.reach('program-error')
    after = state([name])
    w.check(w.eq(after, before), 'program-restores', [case, before, after])
    w.check(sorted(os.environ) == keys, 'program-leaves-others', case)
    os.environ.pop(name, None)
