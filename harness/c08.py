"""C08: HTML comments are read as commands as documented, through aliases too."""
from mdpo.command import MDPO_COMMANDS, normalize_mdpo_command, normalize_mdpo_command_aliases, parse_mdpo_html_command
from mdpo.mdpo2html import MdPo2HTML

from harness import seqs
from harness.common import but, extract, keys, translate, write_po

BOUNDS = ('comments of up to 6 (quick) or 8 (thorough) characters, and up to 3 characters before and after fixed names, '
          'over all BMP characters, without "-->" inside; command resolutions of every length up to 24 over all BMP '
          'characters; documents with up to two comments of up to 8 letters that may be an alias of each command, in md2po, '
          'po2md and mdpo2html')
REACH = ['command', 'comment', 'not-command', 'valid', 'invalid', 'aliased', 'not-aliased']
NAMES = ('context', 'disable', 'disable-next-block', 'disable-next-line', 'enable', 'enable-next-block', 'enable-next-line',
         'include', 'include-codeblock', 'include-codeblocks', 'disable-codeblock', 'disable-codeblocks', 'translator')


def cases(tier):
    m = 6 if tier == 'quick' else 8
    cs = [{'k': 'parse', 'n': n} for n in range(m, -1, -1)]
    cs += [{'k': 'around', 'a': a, 'b': b, 'x': x} for a in range(3) for b in range(m - 3) for x in ('foo', 'mdpo-disable', 'a-')
           if a + b < m - 2]
    cs += [{'k': 'text', 'a': a, 'b': b, 'c': c} for a in range(3) for b in range(1, 4) for c in range(3)]
    cs += [{'k': 'resolve', 'n': n} for n in range(25)]
    cs += [{'k': 'prefixed', 'n': n} for n in range(19)]
    cs += [{'k': 'aliases', 'n': [a, b]} for a, b in ((7, 6), (6, 11), (12, 7), (18, 18), (5, 7), (7, 5), (0, 7))]
    cs += [{'k': 'alias', 'c': c, 'n': n, 'p': p} for c in NAMES for n in (1, 3, 8) for p in (False, True)
           if tier == 'thorough' or n == 3 or not p]
    cs += [{'k': 'line', 'v': v} for v in range(4)]
    cs += [{'k': 'over', 'n': n} for n in (6, 7)]
    return cs


def is_word(c):
    return c.isalnum() or c == '_'


def spec(w, s):
    """Name and comment of the text inside of an HTML comment; None if it is not a command."""
    i, n = 0, len(s)
    while i < n and s[i].isspace():
        i += 1
    if i == n:
        return None
    j = i
    while j < n and not s[j].isspace():
        j += 1
    k = j
    while k < n and s[k].isspace():
        k += 1
    for c in range(k, n):
        if not w.any(is_word(s[c]), s[c].isspace()):
            return None
    comment = s[k:]
    while comment[-1:] == ' ':
        comment = comment[:-1]
    return s[i:j], comment if k < n else None


def run(w, case):
    k = case['k']
    if k in ('parse', 'around', 'text'):
        any_ = 'any' if case.get('n', 9) < 5 else but('<>')
        if k == 'parse':
            s = w.text('s', case['n'], any_)
        elif k == 'around':
            s = w.cat([w.text('a', case['a'], any_), case['x'], w.text('b', case['b'], any_)])
        else:
            s = w.text('s', case['b'], 'any')
        w.assume(w.neg(w.any('-->' in s, '<!--' in s)))
        value = w.cat(['<!--', s, '-->'])
        if k == 'text':
            before, after = w.text('b', case['a'], 'any'), w.text('c', case['c'], 'any')
            w.assume(w.neg(w.any('<' in before, '<' in s, '>' in after, '>' in s)))
            value = w.cat([before, value, after])
        r = parse_mdpo_html_command(value)
        w.obs('r', r)
        want = spec(w, s)
        if want is None:
            w.reach('not-command')
            w.check(r[0] is None and r[1] is None, k + '-not-command', [value, r])
        else:
            w.reach('command')
            if want[1]:
                w.reach('comment')
            w.check(w.eq(r, want), k + '-command', [value, r, want])
    elif k in ('resolve', 'prefixed'):
        s = w.text('s', case['n'], 'any')
        if k == 'prefixed':
            s = w.cat(['mdpo-', s])
        valid(w, s, w.call(normalize_mdpo_command, s))
    elif k == 'aliases':
        x, y = [w.text('xy'[i], n, 'any') for i, n in enumerate(case['n'])]
        ok = [w.any(*[w.any(w.eq(v, n), w.eq(v, 'mdpo-' + n)) for n in NAMES]) for v in (x, y)]
        r = w.call(normalize_mdpo_command_aliases, {'one': x, 'two': y})
        w.obs('r', r[:2] if r[0] == 'raise' else r)
        if w.all(*ok):
            w.reach('valid')
            w.check(r[0] == 'ok' and w.eq(list(r[1].items()), [
                (n, w.cat(['' if v[:5] == 'mdpo-' else 'mdpo-', v])) for n, v in (('one', x), ('two', y))]), 'aliases', [x, y, r])
        else:
            w.reach('invalid')
            w.check(r[0] == 'raise' and r[1] == 'ValueError', 'aliases-invalid', [x, y, r])
    elif k == 'line':
        line(w, case['v'])
    elif k == 'over':
        # an alias may be named as a command, which is no longer so
        name = w.text('n', case['n'], 'lower')
        mine = w.text('m', case['n'], 'lower')
        w.assume(w.neg(w.any(w.eq(name, 'enable'), w.eq(name, 'disable'))))
        both(w, name, mine, {w.cat(['mdpo-', name]): 'disable'}, 'disable', ['mdpo-'])
    else:
        name, mine = w.text('n', case['n'], 'letter'), w.text('m', case['n'], 'letter')
        both(w, name, mine, {name: ('mdpo-' if case['p'] else '') + case['c']}, case['c'], [])


def valid(w, s, r):
    w.obs('r', r[:2])
    ok = w.any(*[w.any(w.eq(s, n), w.eq(s, 'mdpo-' + n)) for n in NAMES])
    if ok:
        w.reach('valid')
        w.check(r[0] == 'ok' and w.eq(r[1], s if s[:5] == 'mdpo-' else w.cat(['mdpo-', s])), 'valid', [s, r])
    else:
        w.reach('invalid')
        w.check(r[0] == 'ok' and r[1] is None, 'invalid', [s, r])


def both(w, name, mine, aliases, command, prefix):
    """A document with a comment called mine, when name is an alias of a command, in the three programs."""
    same = w.eq(name, mine)
    direct = ''
    if prefix:
        # the comment may be another command
        for n in NAMES:
            if not same and w.eq(mine, n):
                direct = n
    w.reach('aliased' if same else 'not-aliased')
    comment = w.cat(['C', w.text('c', 1)])

    def docs(x):
        at = w.cat(['<!-- ', x, ' ', comment, ' -->'])
        return [w.cat([x if i % 2 == 0 or not x else '<p>' + x + '</p>' if html else x for i, x in enumerate(t)]) for html, t in (
            (False, ['', 'Alpha', '\n\n<!-- mdpo-disable -->\n\n', 'Bravo', w.cat(['\n\n', at, '\n\n']), 'Charlie',
                     '\n\n```\nDelta\n```\n\n', 'Echo', w.cat(['\n\n<!-- mdpo-enable -->\n\n', at, '\n\n']), 'Foxtrot',
                     '\n\n```\nGolf\n```\n\n', 'Hotel', '\n']),
            (True, ['', 'Alpha', '\n\n<!-- mdpo-disable -->\n\n', 'Bravo', w.cat(['\n\n', at, '\n\n']), 'Charlie',
                    '\n\n', 'Echo', w.cat(['\n\n<!-- mdpo-enable -->\n\n', at, '\n\n']), 'Foxtrot', '\n\n', 'Hotel', '\n']))]

    used = w.cat(['mdpo-', command if same else direct or 'other'])
    (doc, html), (plain, plain_html) = docs(w.cat([*prefix, mine])), docs(used)
    for codes in (False, True):
        m = extract(doc, command_aliases=aliases, include_codeblocks=codes)
        n = extract(plain, include_codeblocks=codes)
        got = [(e.msgid, e.msgctxt or '', e.comment or '') for e in m.found_entries]
        want = [(e.msgid, e.msgctxt or '', e.comment or '') for e in n.found_entries]
        w.obs('got', got)
        w.check(w.eq(got, want), 'md2po-' + command, [doc, got, want])
    names = ('Alpha', 'Bravo', 'Charlie', 'Echo', 'Foxtrot', 'Hotel')
    po = write_po(w, 'a.po', [(x, 'x' + x, {}) for x in names] + [(x, 'y' + x, {'msgctxt': comment}) for x in names])
    p, q = translate(doc, po, command_aliases=aliases), translate(plain, po)
    w.obs('out', p.output)
    w.check(w.eq(p.output, q.output), 'po2md-' + command, [doc, p.output, q.output])
    w.check(w.eq(keys(p.translated_entries), keys(q.translated_entries)), 'po2md-entries-' + command, [doc])
    h = MdPo2HTML(po, command_aliases=aliases).translate(html)
    g = MdPo2HTML(po).translate(plain_html)
    w.obs('html', h)
    # comments that are not commands of mdpo2html stay
    h = h.replace(w.cat(['<!-- ', *prefix, mine, ' ', comment, ' -->']), '')
    g = g.replace(w.cat(['<!-- ', used, ' ', comment, ' -->']), '')
    w.check(w.eq(h, g), 'mdpo2html-' + command, [html, h, g])


def line(w, v):
    """Several comments in the same line."""
    t, n = w.cat(['T', w.text('t', 1)]), w.text('n', 7, 'lower')
    h = w.cat(['H', w.text('h', 1)])
    doc = ['<!-- mdpo-enable --> <!-- mdpo-', n, ' Comment -->\n\n', t, '\n\nZulu\n']
    if v == 1:
        doc = ['<div>', h, '<!-- mdpo-', n, ' Comment --></div>\n\n', t, '\n\nZulu\n']
    elif v == 2:
        doc = ['<!-- Not a comm.and --> <!-- mdpo-', n, ' Comment -->\n\n', t, '\n\nZulu\n']
    elif v == 3:
        doc = ['<!-- one --><!-- two --><!-- mdpo-', n, ' Comment --><!-- three -->\n\n', t, '\n\nZulu\n']
    doc = w.cat(doc)
    m = extract(doc)
    name = next((x for x in seqs.ABLE + ('include', 'context') if w.eq(n, x)), '')
    want = [(t, 'Comment' if name == 'context' else ''), ('Zulu', '')]
    if name == 'disable':
        want = []
    elif name == 'include':
        want.insert(0, ('Comment', ''))
    w.obs('keys', keys(m.found_entries))
    w.check(w.eq(keys(m.found_entries), want), f'line-{v}', [doc, keys(m.found_entries), want])
    out = translate(doc, write_po(w, 'a.po', [])).output
    w.obs('out', out)
    rest = {1: w.cat(['<div>', h, '</div>\n\n']), 2: '<!-- Not a comm.and -->'}.get(v, '')
    if v == 2:
        w.check(out[:len(rest)] == rest and w.eq(out[-len(t) - 7:], w.cat([t, '\n\nZulu\n'])), 'line-rest-2', [doc, out])
    else:
        w.check(w.eq(out, w.cat([rest, t, '\n\nZulu\n'])), f'line-rest-{v}', [doc, out])
