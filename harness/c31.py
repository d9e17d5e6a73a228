"""C31: reference targets are solved to their translated destinations."""
from mdpo.md import solve_link_reference_targets
from mdpo.mdpo2html import MdPo2HTML

from harness.c13 import EXCEPT, SPECIAL
from harness.common import SPACES, but, write_po

BOUNDS = ('up to 2 messages with up to 2 reference links each and up to 2 definitions (with and without titles), full or shortcut,, with '
          'translations with up to 2 reference links; texts and targets of the links of 1 character (2 in the thorough tier) over '
          'all BMP characters but white space, brackets, parentheses, quotes and angle brackets; targets and destinations of the '
          'definitions of letters and digits, and one free character (of those below U+0180 and some of the others) in either; through '
          'mdpo2html, paragraphs with a link, of letters and digits')
REACH = ['solved', 'undefined', 'untranslated', 'html']
CH = but(SPACES + '[]()<>"\'')
TCH = but('[]')


def cases(tier):
    n = 1
    cs = []
    for refs in (0, 1, 2):
        for trefs in (0, 1, 2):
            for defs in (0, 1, 2):
                for title in (False, True):
                    if (not title or defs) and (tier == 'thorough' or refs + trefs + defs < 6):
                        cs.append({'k': 'fn', 'm': [[refs, trefs]], 'd': defs, 't': title, 'n': n})
                        if tier == 'thorough':
                            cs.append({'k': 'fn', 'm': [[refs, trefs]], 'd': defs, 't': title, 'n': 2})
    cs += [{'k': 'fn', 'm': [[1, 1], [1, 1]], 'd': 1, 't': False, 'n': n},
           {'k': 'fn', 'm': [[1, 1], [0, 0]], 'd': 1, 't': False, 'n': n}]
    if tier == 'thorough':
        cs += [{'k': 'fn', 'm': [[1, 1], [1, 1]], 'd': 2, 't': False, 'n': n},
               {'k': 'fn', 'm': [[2, 1], [1, 2]], 'd': 1, 't': True, 'n': n}]
    cs += [{'k': 'fn', 'm': [[a, b]], 'd': d, 't': d == 1, 'n': n, 's': True} for a in (1, 2) for b in (0, 1) for d in (0, 1, 2)
           if tier == 'thorough' or a + b + d < 5]
    for part in ('dest', 'label'):
        xs = [c for c in SPECIAL if c not in EXCEPT[part] and not c.isspace() and c not in '[]()<>"\'']
        cs += [{'k': 'fn', 'm': [[1, 1]], 'd': 1, 't': t, 'n': n, 'free': part, 'dom': ''.join(xs[i:i + 16])}
               for i in range(0, len(xs), 16) for t in (False, True)]
    cs += [{'k': 'html', 'v': v} for v in ('ref', 'inline', 'two', 'undefined', 'untranslated')]
    return cs


def message(w, name, refs, n, short=False):
    parts = [w.cat([name, ' '])]
    rs = []
    for k in range(refs):
        t, r = w.text(f't{name}{k}', n, TCH), w.text(f'r{name}{k}', n, CH)
        if short and k == 0:
            parts.append(('short', r, r))
        else:
            parts.append(('ref', t, r))
        parts.append(' and ')
        rs.append((t, r))
    return parts


def source(w, parts):
    return w.cat([p if not isinstance(p, tuple) else link(w, p) for p in parts])


def link(w, p):
    return w.cat(['[', p[1], ']'] + ([] if p[0] == 'short' else ['[', p[2], ']']))


def solved(w, parts, defs):
    """The message with its references replaced by destinations, and was any?"""
    out, found = [], False
    for p in parts:
        if isinstance(p, tuple):
            for target, dest in defs:
                if w.eq(target, p[2]):
                    p = w.cat(['[', p[1], '](', dest, ')'])
                    found = True
                    break
            else:
                p = link(w, p)
        out.append(p)
    return w.cat(out), found


def html(w, case):
    v = case['v']
    t, r, u, t2, u2 = (w.text(x, 1, 'alnum') for x in ('t', 'r', 'u', 't2', 'u2'))
    href, text = w.cat(['Href', u]), w.cat(['Text', t])
    ents = [(w.cat(['Alpha [', text, '][R', r, ']']), w.cat(['Omega [New', t2, '][R', r, ']']))]
    if v == 'inline':
        ents = [(w.cat(['Alpha [', text, '](', href, ')']), w.cat(['Omega [New', t2, '](Dest', u2, ')']))]
    if v == 'untranslated':
        ents = [(ents[0][0], '')]
    if v != 'undefined':
        ents.append((w.cat(['[R', r, ']: ', href]), w.cat(['[R', r, ']: Dest', u2])))
    para = w.cat(['<p>Alpha <a href="', href, '">', text, '</a></p>'])
    want = w.cat(['<p>Omega <a href="Dest', u2, '">New', t2, '</a></p>'])
    doc, out = [para], [want]
    if v in ('undefined', 'untranslated'):
        out = [para]
    if v == 'two':
        ents.append((w.cat(['Bravo [', text, '][R', r, ']']), w.cat(['Psi [New', t2, '][R', r, ']'])))
        doc += ['\n<p>Delta</p>\n', para.replace('Alpha', 'Bravo')]
        out += ['\n<p>Delta</p>\n', want.replace('Omega', 'Psi')]
    got = MdPo2HTML(write_po(w, 'a.po', ents)).translate(w.cat(doc))
    w.obs('html', got)
    w.reach('html')
    w.check(w.eq(got, w.cat(out)), 'html-' + v, [got, w.cat(out)])


def run(w, case):
    if case['k'] == 'html':
        return html(w, case)
    n = case['n']
    defs, tdefs, tr = [], [], []
    for k in range(case['d']):
        free = case.get('free')
        ddom, udom = (case['dom'] if free == x else 'word' for x in ('label', 'dest'))
        d = (w.text(f'd{k}', n, ddom), w.text(f'u{k}', n, udom))
        td = (w.text(f'td{k}', n, 'word'), w.text(f'tu{k}', n, 'word'))
        if free == 'dest':
            d = (d[0], w.cat(['a', d[1], 'b']))
        title = f' "Title {k}"' if case['t'] else ''
        defs.append((d[0], w.cat([d[1], title])))
        tdefs.append((td[0], w.cat([td[1], title])))
        tr.append((w.cat(['[', d[0], ']: ', d[1], title]), w.cat(['[', td[0], ']: ', td[1], title])))
    if case['d'] == 2:
        w.assume(w.neg(w.eq(tr[0][0], tr[1][0])))  # messages are unique
    want = []
    for name, (refs, trefs) in zip(('Alpha', 'Bravo'), case['m']):
        a, b = message(w, name, refs, n, 's' in case), message(w, 'x' + name, trefs, n, 's' in case)
        tr.append((source(w, a), source(w, b)))
        if refs:
            m, found = solved(w, a, defs)
            if found:
                w.reach('solved')
                want.append((m, solved(w, b, tdefs)[0]))
            else:
                w.reach('undefined')
        else:
            w.reach('untranslated')
    before = dict(tr)
    got = solve_link_reference_targets(before)
    w.obs('got', list(got.items()))
    w.check(w.eq(list(before.items()), tr), 'input-untouched', tr)
    w.check(len(got) == len(want), 'number-of-solutions', [tr, got, want])
    for m, t in want:
        w.check(w.any(*[w.all(w.eq(m, x), w.eq(t, y)) for x, y in got.items()]), 'solved', [tr, got, want])
