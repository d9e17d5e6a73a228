"""C28: ignored messages and default translations are applied exactly."""
import polib

from mdpo.md2po.__main__ import run as md2po

from harness import pos
from harness.common import entry_key, extract

BOUNDS = ('documents of up to 3 messages (4 in the thorough tier): paragraphs, headings, list items, cells, code blocks, included '
          'comments, disabled ones, with contexts and link references, one symbolic character in each (two in the thorough tier); up to 2 ignored '
          'messages (3 in the thorough tier) of any characters, with the length of some of the messages, given to the function '
          'or in a file to the program; PO files of up to 2 entries (3 in the thorough tier) each free to be obsolete and fuzzy; '
          'default translations of one symbolic character, or none')
REACH = ['ignored', 'not-ignored', 'new', 'translated', 'untranslated', 'recovered', 'reference']
# as in pos.message; b: code block, u: indented code block, s: the text has spaces around, | cells
SETS = [
    ([''], [2], []), (['', ''], [2], []), (['', ''], [2, 2], []), (['h', 'l'], [2], ['t?']), (['c', ''], [2], []), (['', 'c', ''], [2], []),
    (['i', ''], [2], ['?']), (['d', ''], [2], ['t?']), (['b', ''], [2], []), (['b'], [3], ['?']), (['u', 'b'], [2, 3], []),
    (['bs', ''], [4], []), (['bs'], [2], []), (['bs', 'us'], [3, 5], []), (['|', ''], [2], []),
    (['r', ''], [2], []), (['r'], [7], ['r?']), (['r'], [5], ['rt?']), (['di', ''], [2], []), (['b', 'c', 'u'], [3], []),
]
DEFAULTS = [
    ([''], ['?']), ([''], ['t?']), (['', ''], ['t?']), (['', ''], ['t?', '']), (['', ''], ['to', 'to']), (['c', ''], ['ct?']),
    (['c', ''], ['t?']), (['h', 'l'], ['t', '?']), (['i', ''], ['t?']), (['d', ''], ['t?']), (['b', ''], ['t?']), (['r', ''], ['rt?']),
    (['r', ''], ['r?']), (['r', ''], ['rto', 'to']), (['|', ''], ['t?']), (['', ''], []), (['', 'c', ''], ['t', 'c']),
]
LONG = [(['', '', '', ''], [2, 2, 2], ['t?']), (['b', 'u', 'bs'], [2, 3, 4], ['t?']), (['c', 'c', '', 'i'], [2, 2], ['ct?']),
        (['r', 'r', ''], [7, 5], ['rt?', 't?']), (['h', '|', 'l', 'd'], [2, 2], ['t?', '?'])]
LONGD = [(['', '', ''], ['t?', 't?', '?']), (['c', 'c', '', ''], ['ct?', 'c', 't?']), (['r', 'r', ''], ['rt?', 'r?']),
         (['b', 'u', 'i', 'd'], ['t?', '?'])]


def cases(tier):
    long = tier == 'thorough'
    cs = [{'m': m, 'i': i, 'e': e, 'd': d} for m, i, e in SETS + (LONG if long else []) for d in ((0, 1) if long else (0,))]
    cs += [{'m': m, 'i': [], 'e': e, 'd': 1} for m, e in DEFAULTS + (LONGD if long else [])]
    cs += [{'m': m, 'i': i, 'e': [], 'd': 0, 'cli': 1} for m, i in (([''], [2]), (['', ''], [2, 3]), (['', ''], [2, 2]), (['r'], [7]), (['h', 'i'], [4]))]
    cs += [{'m': m, 'i': [2], 'e': ['t'], 'd': 1} for m in (['', ''], ['b'])]
    if long:
        cs += [{'m': m, 'i': i, 'e': e, 'd': d, 'n': 2} for m, i, e, d in (
            ([''], [3], ['t?'], 1), (['', ''], [3, 2], [], 1), (['b', 'bs'], [3, 5], [], 0), (['u', 'c'], [3], ['ct?'], 1))]
    return cs


def document(w, specs, n):
    parts, ks, last = [], [], []
    for j, s in enumerate(specs):
        if s[:1] in ('b', 'u', '|') and s:
            t = w.cat(['T', w.text(f'm{j}', n)])
            if s == '|':
                parts += ['| ', t, ' |\n| --- |\n| Zulu |\n\n']
                ks += [(t, ''), ('Zulu', '')]
                continue
            if 's' in s:
                t = w.cat([' ', t, '  '])
            t = w.cat([t, '\n'])
            ks.append((t, ''))
            parts += ['```\n', t, '```\n\n'] if s[0] == 'b' else ['<hr>\n\n    ', t, '\n']
        else:
            d, k = pos.message(w, f'm{j}', s, n)
            parts += [d, '\n']
            ks += k[:1]
            last += k[1:]
    return w.cat(parts), ks, last


def run(w, case):
    n = case.get('n', 1)
    es = pos.entries(w, case['e'], n)
    pos.write(w, 'a.po', es)
    doc, ks, refs = document(w, case['m'], n)
    ignored = [w.text(f'i{j}', k, 'any') for j, k in enumerate(case['i'])]
    default = w.cat(['D', w.text('default', 1)]) if case['d'] else ''
    w.write('d.md', doc)
    if 'cli' in case:
        for x in ignored:
            w.assume(w.all([w.neg(w.any([w.eq(c, '\n'), w.eq(c, '\r')])) for c in x]))
        last = w.pick('last', ['', '\n'])
        w.write('ignored.txt', w.cat([y for x in ignored for y in ('\n', x)][1:] + [last]))
        po, code = w.main(md2po, [w.path('d.md'), '-p', w.path('a.po'), '-s', '-q', '--ignore-msgids', w.path('ignored.txt')])[0]
        po = polib.pofile(w.path('a.po'))
    else:
        m = extract(w.path('d.md'), po_filepath=w.path('a.po'), include_codeblocks=True, save=True,
                    ignore_msgids=list(ignored), msgstr=default)
        po = polib.pofile(w.path('a.po'))
        w.obs('found', [entry_key(e) for e in m.found_entries])
    w.obs('po', pos.show(po))
    info = (doc, ignored, default, es, pos.show(po))
    want = []
    for k in ks + refs:
        if any(w.eq(k[0], x) for x in ignored):
            w.reach('ignored')
        else:
            if ignored:
                w.reach('not-ignored')
            want.append(k)
    if 'cli' not in case:
        got = [entry_key(e) for e in m.found_entries]
        w.check(w.eq(got, want), 'exactly-the-others', (got, want, info))
    for p in po:
        k = entry_key(p)
        if p.obsolete:
            w.check(pos.isin(w, k, [e.key for e in es]) and not pos.isin(w, k, want), 'obsolete', info)
        else:
            w.check(pos.isin(w, k, want), 'not-extracted', info)
    for k in want:
        got = pos.found(w, k, po)
        w.check(len(got) == 1 and not got[0].obsolete, 'extracted', info)
        if len(got) != 1:
            continue
        old = [e for e in es if w.eq(e.key, k)]
        ref = k in refs
        if ref:
            w.reach('reference')
        if not old:
            w.reach('new')
            w.check(w.eq(got[0].msgstr, k[0] if ref else default), 'default', info)
            w.check(('fuzzy' in got[0].flags) == ref, 'default-fuzzy', info)
        elif old[0].msgstr:
            w.reach('recovered' if old[0].obsolete else 'translated')
            w.check(w.eq(got[0].msgstr, old[0].msgstr), 'translation', info)
        else:
            w.reach('untranslated')
            w.check(w.any([w.eq(got[0].msgstr, ''), w.eq(got[0].msgstr, k[0] if ref else default)]), 'no-other', info)
