"""C19: the wrap width argument is read as documented."""
from mdpo.md2po.__main__ import run as md2po
from mdpo.po2md.__main__ import run as po2md
from mdpo.po2md import Po2Md
from mdpo.text import INFINITE_WRAPWIDTH, parse_strint_0_inf, parse_wrapwidth_argument

from harness.common import empty_po

BOUNDS = ('strings of every length up to 3 (quick) or 4 (thorough) over all BMP characters, the spellings of infinity and '
          'not-a-number padded with one arbitrary character on each side, and all integers from -10^9 to 10^9; for the '
          'programs, strings up to 2 characters')
REACH = ['error', 'positive', 'zero', 'negative', 'infinite', 'exit']
SPELLINGS = ['inf', 'nan', 'infinity', '-inf', '+inf', '-nan', '+nan', 'iNf', 'NaN', 'infinit']


def cases(tier):
    m = 3 if tier == 'quick' else 4
    cs = [{'k': 'str', 'n': n} for n in range(m + 1)] + [{'k': 'int'}, {'k': 'po2md-int'}]
    cs += [{'k': 'spell', 's': s, 'a': a, 'b': b} for s in SPELLINGS for a in (0, 1) for b in (0, 1)]
    cs += [{'k': k, 'n': n} for k in ('md2po', 'po2md') for n in (1, 2)]
    return cs


def number(s):
    """The number a text stands for, None if it is not a number."""
    try:
        f = float(s)
    except ValueError:
        return None
    return f if f == f else None


def expected(w, f):
    if f is None:
        w.reach('error')
        return None
    if f == float('inf') or f == float('-inf'):
        w.reach('infinite')
        return INFINITE_WRAPWIDTH
    if f <= 0:
        w.reach('zero' if f == 0 else 'negative')
        return INFINITE_WRAPWIDTH
    w.reach('positive')
    return int(f)


def agrees(w, r, want, label, s):
    if want is None:
        w.check(r[0] == 'raise' and r[1] == 'ValueError', label + '-error', [s, r])
    else:
        w.check(r[0] == 'ok' and r[1] == want, label, [s, r, want])


def run(w, case):
    k = case['k']
    if k in ('int', 'po2md-int'):
        v = w.int('v', -10**9, 10**9)
        want = v if v > 0 else INFINITE_WRAPWIDTH
        if k == 'int':
            w.check(parse_strint_0_inf(v) == want, 'integer', v)
            w.check(parse_wrapwidth_argument(v) == want, 'argument-integer', v)
        else:
            w.check(Po2Md(empty_po(w), wrapwidth=v).wrapwidth == want, 'po2md-integer', v)
        return
    if k == 'spell':
        s = w.cat([w.text('a', case['a'], 'any'), case['s'], w.text('b', case['b'], 'any')])
    else:
        s = w.text('s', case['n'], 'any')
    if k in ('str', 'spell'):
        want = expected(w, number(s))
        r = w.call(parse_strint_0_inf, s)
        w.obs('r', r if r[0] == 'ok' else r[:2])
        agrees(w, r, want, 'string', s)
        r = w.call(parse_wrapwidth_argument, s)
        agrees(w, r, want, 'argument', s)
        return
    # the programs: an error exit for what is not a number, never a default
    w.assume(s[:1] != '-')
    f = number(s)
    if k == 'md2po':
        args = ['Alpha', '-q', '--wrapwidth', s]
        code, out, err = w.main(md2po, args)
    else:
        code, out, err = w.main(po2md, ['Alpha', '-q', '-p', empty_po(w), '--wrapwidth', s])
    failed = code == 1 if not isinstance(code, tuple) else False
    w.obs('code', failed)
    if f is None:
        w.reach('exit')
        w.check(failed, k + '-exit', [s, code])
    else:
        w.check(not failed, k + '-runs', [s, code, err])
