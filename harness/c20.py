"""C20: key-value arguments are split at the first unescaped separator."""
from mdpo.cli import parse_command_aliases_cli_arguments, parse_metadata_cli_arguments
from mdpo.text import parse_escaped_pair, parse_escaped_pairs

BOUNDS = ('strings of every length up to 9 (quick) or 11 (thorough) over all BMP characters, lists of up to 2 strings of '
          'up to 3 characters and of 3 strings of up to 2; as the tests of the repository fix, leading backslashes do not '
          'count, a separator at the start is escaped, and the first escape (two backslashes) is removed from the key; keys '
          'with more escapes are only checked for where they are split')
REACH = ['pair', 'no-separator', 'escaped', 'repeated', 'all', 'cli-error']


def cases(tier):
    m = 9 if tier == 'quick' else 11
    cs = [{'k': 'one', 'n': n} for n in range(m + 1)]
    cs += [{'k': 'sep', 'n': n} for n in range(4)]
    cs += [{'k': 'many', 'n': [a, b]} for a in range(4) for b in range(4)]
    cs += [{'k': 'many', 'n': [a, b, c]} for a in (2, 3) for b in (2,) for c in (2, 1)]
    cs += [{'k': k, 'n': [a, b]} for k in ('aliases', 'metadata') for a in range(2, 4) for b in range(1, 4)]
    return cs


def split(w, s, sep=':'):
    """Key, value and number of escapes of an argument; None without a separator."""
    while s[:1] == '\\':
        s = s[1:]
    for k in range(1, len(s)):
        if s[k] == sep and not s[k - 1] == '\\':
            key, value = s[:k], s[k + 1:]
            break
    else:
        return None
    escapes = 0
    at = None
    i = 0
    while i + 2 < len(key):
        if key[i] == '\\' and key[i + 1] == '\\' and key[i + 2] == sep:
            escapes += 1
            if at is None:
                at = i
            i += 3
        else:
            i += 1
    if at is not None:
        w.reach('escaped')
        key = key[:at] + sep + key[at + 3:]
    while value and value[0].isspace():
        value = value[1:]
    return key, value, escapes


def run(w, case):
    k = case['k']
    if k in ('one', 'sep'):
        sep = ':' if k == 'one' else '='
        s = w.text('s', case['n'], 'any')
        want = split(w, s, sep)
        r = w.call(parse_escaped_pair, s, *([] if k == 'one' else ['=']))
        w.obs('r', r)
        if want is None:
            w.reach('no-separator')
            w.check(r[0] == 'raise' and r[1] == 'ValueError', k + '-no-separator', [s, r])
            return
        w.reach('pair')
        key, value, escapes = want
        w.check(r[0] == 'ok' and len(r[1]) == 2, k + '-split', [s, r, want])
        w.check(w.eq(r[1][1], value), k + '-value', [s, r, want])
        if escapes < 2:
            w.check(w.eq(r[1][0], key), k + '-key', [s, r, want])
        return
    pairs = [w.text(f's{i}', n, 'any') for i, n in enumerate(case['n'])]
    bad, repeated, want = None, None, []
    for p in pairs:
        kv = split(w, p)
        if kv is None:
            bad = p
            break
        if any(w.eq(kv[0], x) for x, _ in want):
            repeated = kv[0]
            break
        want.append((kv[0], kv[1]))
    if k == 'many':
        try:
            got = list(parse_escaped_pairs(pairs).items())
        except ValueError as e:
            w.obs('e', e.args)
            w.reach('no-separator')
            w.check(bad is not None and w.eq(e.args[0], bad), 'error-names-argument', [pairs, bad])
            return
        except KeyError as e:
            w.obs('e', e.args)
            w.reach('repeated')
            w.check(repeated is not None and w.eq(e.args[0], repeated), 'error-names-key', [pairs, repeated])
            return
        w.obs('got', got)
        w.check(bad is None and repeated is None and w.eq(got, want), 'every-pair', [pairs, got, want])
        w.reach('all')
        return
    f = parse_command_aliases_cli_arguments if k == 'aliases' else parse_metadata_cli_arguments
    res = []

    def program(args):
        res.append(f(args))

    code, out, err = w.main(program, pairs)
    w.obs('err', err)
    if bad is not None or repeated is not None:
        w.reach('cli-error')
        named = bad if bad is not None else repeated
        w.check(code == 1 and w.cat(["'", named, "'"]) in err, k + '-error', [pairs, code, err])
    else:
        w.check(code == 0 and w.eq(list(res[0].items()), want), k + '-pairs', [pairs, res])
