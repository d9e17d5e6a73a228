"""C12: code span delimiters."""
from mdpo.text import min_not_max_chars_in_a_row

BOUNDS = 'texts of every length up to 7 (quick) or 9 (thorough) over all BMP characters'
REACH = ['default', 'runs', 'gap']


def cases(tier):
    return [{'k': 'fn', 'n': n} for n in range(0, 8 if tier == 'quick' else 10)]


def run(w, case):
    n = case['n']
    t = w.text('t', n, 'any')
    default = w.int('default', 0, 9)
    r = min_not_max_chars_in_a_row('`', t, default)
    w.obs('r', r)
    runs = []
    cur = 0
    for c in t:
        if c == '`':
            cur += 1
        else:
            if cur:
                runs.append(cur)
            cur = 0
    if cur:
        runs.append(cur)
    if runs:
        w.reach('runs')
        want = 1
        while want in runs:
            want += 1
        if want < max(runs):
            w.reach('gap')
        w.check(r == want, 'smallest-free-run', [t, r, want])
    else:
        w.reach('default')
        w.check(w.eq(r, default), 'default', [t, r, default])
