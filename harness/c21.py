"""C21: locations name the top level block of each message."""
from harness.common import extract, fill, is_ref

# kind of block, template, messages; every «x» is a message
CHUNKS = {
    'p': ('paragraph', '«a»\n'),
    'p2': ('paragraph', '*«a»* [«b»](u)\n«c»\n'),
    'h': ('header', '# «a»\n'),
    'setext': ('header', '«a»\n===\n'),
    'ul': ('unordered list', '- «a»\n- «b»\n'),
    'ul-loose': ('unordered list', '- «a»\n\n  «b»\n\n- «c»\n'),
    'ul-ul': ('unordered list', '- «a»\n  - «b»\n    - «c»\n  - «d»\n- «e»\n'),
    'ul-ol': ('unordered list', '- «a»\n  1. «b»\n  2. «c»\n- «d»\n'),
    'ul-h': ('unordered list', '- # «a»\n- «b»\n'),
    'ul-table': ('unordered list', '- «a»\n\n  | «b» | «c» |\n  | --- | --- |\n  | «d» | «e» |\n\n- «f»\n'),
    'ul-html': ('unordered list', '- «a»\n\n  <div>\n\n- «b»\n'),
    'ul-code': ('unordered list', '- «a»\n\n  ```\n  Xray\n  ```\n\n- «b»\n'),
    'ul-quote': ('unordered list', '- «a»\n'),
    'ol': ('ordered list', '1. «a»\n2. «b»\n'),
    'ol-loose': ('ordered list', '1. «a»\n\n   «b»\n\n2. «c»\n'),
    'ol-ol': ('ordered list', '1. «a»\n   1. «b»\n      1. «c»\n   2. «d»\n2. «e»\n'),
    'ol-ul': ('ordered list', '1. «a»\n   - «b»\n   - «c»\n2. «d»\n'),
    'ol-ol-p': ('ordered list', '1. «a»\n\n   1. «b»\n\n   «c»\n\n2. «d»\n\n   # «e»\n'),
    'ol-ol-code': ('ordered list', '1. «a»\n   1. «b»\n2. «c»\n\n   ```\n   Xray\n   ```\n'),
    'ol-ol-more': ('ordered list', '1. «a»\n   1. «b»\n\n   <div>\n\n   | «c» |\n   | --- |\n   | «d» |\n\n2. «e»\n   - «f»\n'),
    'ul-ol-ol': ('unordered list', '- «a»\n  1. «b»\n     1. «c»\n     2. «d»\n  2. «e»\n\n  «f»\n- «g»\n'),
    'quote': ('quote', '> «a»\n'),
    'quote-many': ('quote', '> # «a»\n>\n> «b»\n>\n> - «c»\n>   1. «d»\n>\n> 1. «e»\n>\n> ```\n> Xray\n> ```\n'),
    'quote-quote': ('quote', '> > «a»\n>\n> «b»\n>\n> > - «c»\n'),
    'quote-table': ('quote', '> | «a» | «b» |\n> | --- | --- |\n> | «c» | «d» |\n>\n> <div>\n'),
    'table': ('table', '| «a» | «b» |\n| --- | --- |\n| «c» | «d» |\n'),
    'code': ('code', '```\nXray\n```\n'),
    'indented': ('code', '    Xray\n'),
    'html': ('html', '<div>\nXray\n</div>\n'),
    'comment': ('html', '<!-- Xray. -->\n'),
    'include': ('html', '<!-- mdpo-include «a» -->\n'),
    'context': ('html', '<!-- mdpo-context Xray -->\n'),
    'display': ('paragraph', '«a» $$«b»$$ «c»\n'),
    'hr': (None, '***\n'),
}
BOUNDS = ('documents of 3 blocks, one of them each of the 34 templates of harness/c21.py (any two of them in the thorough tier) and '
          'the others a paragraph, a header, a list, a table or a quote; one symbolic character in each text; with and without '
          'code blocks, with and without locations, with a link reference at the end, and two files. A quote inside a list '
          'is counted as a block of its own, as the tests of mdpo ask, and thematic breaks are not counted')
REACH = ['located', 'not-asked', 'reference', 'code']


def cases(tier):
    cs = []
    ends = ['p', 'ul', 'ol', 'quote', 'h', 'table']
    for i, c in enumerate(CHUNKS):
        for code in (False, True):
            cs.append({'c': [c, ends[i % 6], ends[(i + 1) % 6]], 'code': code})
            cs.append({'c': [ends[(i + 2) % 6], c, ends[(i + 3) % 6]], 'code': code})
        cs.append({'c': [c, 'p'], 'code': False, 'ref': True})
        cs.append({'c': [c, 'h'], 'code': True, 'off': True})
        cs.append({'c': [c, 'p'], 'code': True, 'two': ['h', c, 'ol']})
        cs.append({'c': [c, c, 'p'], 'code': True})
        if tier == 'thorough':
            cs += [{'c': [c, d, e], 'code': True} for d in CHUNKS for e in ('p', 'ol-ol', 'quote', 'ul-code')]
    cs += [{'c': ['ul-in-quote', 'p'], 'code': True}, {'c': ['p', 'ol-in-quote', 'p', 'ul'], 'code': True}]
    return cs


QUOTED = {'ul-in-quote': ('unordered list', '- «a»\n- «b»\n\n  > «c»\n'), 'ol-in-quote': ('ordered list', '1. «a»\n2. «b»\n\n   > «c»\n')}


def kinds(chunks):
    """(number, kind) of each of the blocks."""
    n = 0
    out = []
    for c in chunks:
        t = {**CHUNKS, **QUOTED}[c]
        n += t[0] is not None
        out.append((n, t[0]))
        n += c in QUOTED
    return out


def build(w, chunks, code, pre=''):
    """(document, texts, [(message, inside a quote of a list, block)])"""
    parts, holes, want = [], {}, []
    prev = None
    for i, (c, b) in enumerate(zip(chunks, kinds(chunks))):
        t = {**CHUNKS, **QUOTED}[c][1]
        names = []
        for l in 'abcdefg':
            if f'«{l}»' in t:
                t = t.replace(f'«{l}»', f'«{pre}{l}{i}»')
                names.append(f'{pre}{l}{i}')
        if 'Xray' in t:
            t = t.replace('Xray', f'Xray{pre}{i}.' if c == 'comment' else f'Xray{pre}{i}')
        kind = CHUNKS.get(c, ('',))[0]
        if prev and kind == prev and kind in ('unordered list', 'ordered list', 'quote', 'html', 'code', 'table'):
            return None  # they would be merged
        prev = kind
        parts += [t, '\n']
        for x in names:
            want.append((x, ('quote' in c and c in QUOTED and x[len(pre)] == 'c'), b))
        if code and 'code' in c or (code and c in ('indented', 'quote-many')):
            want.append((f'Xray{pre}{i}', False, b))
    return fill(w, ''.join(parts), holes, prefix='T'), holes, want


def run(w, case):
    code = case['code']
    built = build(w, case['c'], code)
    if built is None:
        chunks = [case['c'][0], 'h'] + case['c'][1:]
        if chunks[2:3] == chunks[3:4] or CHUNKS[chunks[2]][0] == CHUNKS[chunks[-1]][0]:
            chunks = chunks[:3] + ['h'] + chunks[3:]
        built = build(w, chunks, code)
    doc, holes, want = built
    if case.get('ref'):
        doc = w.cat([doc, '[See][1]\n\n[1]: https://foo\n'])
    f = w.write('d.md', doc)
    files = [f]
    sets = [(f, holes, want)]
    if 'two' in case:
        b2 = build(w, case['two'], code, 'z')
        if b2 is not None:
            f2 = w.write('e.md', b2[0])
            files.append(f2)
            sets.append((f2, b2[1], b2[2]))
    kw = {'location': False} if case.get('off') else {}
    m = extract(files, include_codeblocks=code, **kw)
    got = [(e.msgid, list(e.occurrences)) for e in m.found_entries]
    w.obs('got', got)
    seen = 0
    for msgid, occ in got:
        if case.get('off'):
            w.check(occ == [], 'none', (doc, got))
            w.reach('not-asked')
            continue
        w.check(len(occ) == 1, 'one', (doc, got))
        if case.get('ref') and (is_ref(msgid) or msgid[:4] == '[See'):
            w.reach('reference')
            # the paragraph of the link is the last block; definitions are not part of any
            continue
        owner = [(f, b, q) for f, hs, want in sets for x, q, b in want
                 if (x[0] == 'X' and x in w.cat([msgid, '']) and msgid[:4] == 'Xray') or
                 (x[0] != 'X' and msgid_has(w, msgid, hs[x]))]
        w.check(len({o[:2] for o in owner}) == 1, 'owner', (doc, msgid, owner))
        for f, (n, kind), q in owner[:1]:
            if q:
                n, kind = n + 1, 'quote'
            w.check(occ[0][0] == f and occ[0][1] == f'block {n} ({kind})', 'location', (doc, msgid, occ, n, kind))
            w.reach('code' if kind == 'code' else 'located')
            seen += 1
    if not case.get('off'):
        covered = {x for f, hs, want in sets for x, q, b in want for msgid, _ in got
                   if (msgid[:4] == 'Xray' and x in w.cat([msgid, ''])) or (x[0] != 'X' and msgid_has(w, msgid, hs[x]))}
        w.check(covered == {x for f, hs, want in sets for x, q, b in want}, 'all', (doc, got))


def msgid_has(w, msgid, text):
    return text in msgid
