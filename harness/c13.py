"""C13: link reference definitions are found and survive translation."""
from harness.common import extract, fill, is_ref, render, write_po
from mdpo.md import parse_link_references
from mdpo.po2md import Po2Md

# written form -> what it says
LABELS = {'«a»': '«a»', '`«a»`': '`«a»`', '«a» «b»': '«a» «b»', '^«a»': '^«a»', '*«a»*': '*«a»*', '«a»\\]«b»': '«a»\\]«b»',
          '!«a»': '!«a»', '1': '1', '«a»:': '«a»:', '"«a»"': '"«a»"', '«a»(«b»)': '«a»(«b»)'}
SEPS = (': ', ':  ', ':', ':\t', ':\n', ':\n  ')
DESTS = {'/«u»': '/«u»', '<z«u» «v»>': 'z«u» «v»', '<>': '', 'http://«u».x/«v»?«w»=1': 'http://«u».x/«v»?«w»=1',
         '/«u»(«v»)': '/«u»(«v»)', '#«u»': '#«u»', '<z«u»>': 'z«u»', '/«u»\\_«v»': '/«u»_«v»', '«u»*«v»*': '«u»*«v»*',
         '"«u»"': '"«u»"', '«u»>': '«u»>', "'«u»": "'«u»", '«u»%20«v»': '«u»%20«v»', '[«u»]': '[«u»]'}
TITLES = {'': None, ' "«t»"': '«t»', " '«t»'": '«t»', ' («t»)': '«t»', ' "«t» «s»"': '«t» «s»', ' "\\"«t»\\" «s»"': '"«t»" «s»',
          "\n  '«t»'": '«t»', ' "«t»\'«s»"': "«t»'«s»", " '«t»\"«s»'": '«t»"«s»', ' "(«t»)"': '(«t»)', '  "«t», «s»!"': '«t», «s»!',
          ' "«t»\n«s»"': '«t» «s»', ' "«t» \\\\ «s»"': '«t» \\ «s»', ' ""': None, '\t"«t»"  ': '«t»', ' "*«t»*"': '*«t»*',
          ' (\'«t»\' "«s»")': '\'«t»\' "«s»"'}
AROUND = {'alone': ('', ''), 'p': ('«P»\n\n', '\n\n«Q»\n'), 'h': ('# «P»\n', '\n«Q»\n===\n'), 'ul': ('- «P»\n\n  ', '\n\n- «Q»\n'),
          'after-ul': ('- «P»\n- «Q»\n\n', '\n'), 'hr': ('***\n', '\n***\n'), 'code': ('```\n«P»\n```\n', '\n```\n«Q»\n```\n'),
          'html': ('<div>\n«P»\n\n', '\n\n</div>\n'), 'defs': ('[P«P»]: /«Q» "«P»"\n', '\n[Q«Q»]: «P»\n'), 'indent': ('«P»\n\n   ', '\n'),
          'used': ('[«P»][d«a»] ![«Q»][d«a»]\n\n', '\n\n[d«a»]\n'), 'blank': ('\n\n\n', '\n\n\n'), 'crlf': ('«P»\r\n\r\n', '\r\n\r\n«Q»\r\n'),
          'comment': ('<!-- «P» -->\n\n', '\n\n<!-- [«Q»]: /«P» -->\n'), 'command': ('<!-- mdpo-disable -->\n\n«P»\n\n', '\n'),
          'table': ('| «P» |\n| - |\n| «Q» |\n\n', ''), 'last': ('«P»\n\n', '')}
# lines that do not define anything, nor in the documents around the definition of C«c»
NOT = {
    'more': '[a«a»]: /«u» «v»\n', 'more-title': '[a«a»]: /«u» "«t»" «v»\n', 'nothing': '[a«a»]:\n\n/«u»\n', 'no-colon': '[a«a»] /«u»\n',
    'space-colon': '[a«a»] : /«u»\n', 'code': '```\n[a«a»]: /«u»\n```\n', 'code-tilde': '~~~md\n«P»\n\n[a«a»]: /«u» "«t»"\n~~~\n',
    'indented': '    [a«a»]: /«u»\n', 'tab': '\t[a«a»]: /«u»\n', 'paragraph': '«P»\n[a«a»]: /«u»\n', 'list': '- «P»\n  [a«a»]: /«u»\n',
    'lazy': '> «P»\n[a«a»]: /«u»\n', 'html': '<div>\n[a«a»]: /«u»\n</div>\n', 'comment': '<!--\n[a«a»]: /«u»\n-->\n',
    'escaped': '\\[a«a»]: /«u»\n', 'inside': '«P» [a«a»]: /«u»\n', 'link': '[a«a»](/«u»): /«v»\n', 'heading': '# [a«a»]: /«u»\n',
    'unclosed': '[a«a»: /«u»\n', 'empty': '[]: /«u»\n', 'spaces': '[ ]: /«u»\n', 'nested': '[a[«a»]]: /«u»\n',
    'table': '| «P» |\n| --- |\n| [a«a»]: /«u» |\n', 'multiline-code': '- «P»\n\n      [a«a»]: /«u»\n', 'open': '«P»\n\n[a«a»]: <«u»\n',
    'open-code': '«P»\n\n[c«c»]: /«w» "«s»"\n\n```\n[a«a»]: /«u»\n',
}
TEMPLATES = {
    'one': ('[«P»][«a»]', ['[«a»]: /«u»']),
    'title': ('[«P»][«a»] «Q»', ['[«a»]: /«u» "«t»"']),
    'unused': ('«P»', ['[«a»]: /«u» "«t»"']),
    'none': ('', ['[«a»]: /«u»', '[«b»]: /«v»']),
    'self': ('[«a»]', ['[«a»]: /«u» "«t»"']),
    'image': ('![«P»][«a»]', ['[«a»]: /«u»']),
    'both': ('![«P»][«a»] and [«Q»][«b»]', ['[«a»]: /«u» "«t»"', '[«b»]: /«v»']),
    'unused-second': ('[«P»][«a»]', ['[«a»]: /«u»', '[«b»]: /«v» "«s»"', '[«c»]: /«w»']),
    'reversed': ('[«P»][«b»] [«Q»][«a»]', ['[«a»]: /«u»', '[«b»]: /«v»']),
    'quotes': ('[«P»][«a»]', ['[«a»]: /«u» "\\"«t»\\" «s»"']),
    'spaces': ('[«P»][«a»]', ['[«a»]: <«u» «v»> "«t»"']),
    'spaces-label': ('[«P»][«a» «b»]', ['[«a» «b»]: /«u»']),
    'same-dest': ('[«P»][«a»] [«Q»][«b»]', ['[«a»]: /«u» "«t»"', '[«b»]: /«u»']),
    'with-inline': ('[«P»][«a»] [«Q»](/«v»)', ['[«a»]: /«u» "«t»"']),
    'inline-same': ('[«P»](/«u»)', ['[«a»]: /«u» "«t»"']),
    'list': ('- [«P»][«a»]\n- ![«Q»][«b»]', ['[«a»]: /«u»', '[«b»]: /«v» "«s»"']),
    'heading': ('# [«P»][«a»]\n\n«Q»', ['[«a»]: #«u»']),
    'quote': ('> [«P»][«a»]', ['[«a»]: /«u»']),
    'table': ('| [«P»][«a»] | «Q» |\n| --- | --- |\n| [«b»] | 1 |', ['[«a»]: /«u»', '[«b»]: /«v» "«s»"']),
    'code-label': ('[`«a»`]', ['[`«a»`]: /«u» "«t»"']),
    'disabled': ('<!-- mdpo-disable -->\n\n«P»', ['[«a»]: /«u»']),
    'in-code': ('[«P»][«a»]\n\n```\n[«b»]: /«v»\n```', ['[«a»]: /«u»']),
    'backslash': ('[«P»][«a»]', ['[«a»]: /«u» "«t» \\\\ «s»"']),
}
SPECIAL = ''.join(chr(c) for c in range(1, 0x180) if not chr(c).isalnum()) + '\u1680\u2003\u2028\u2029\u3000\u2060\ufeff\u4e2d\u0301\ufb01\uffe0'
EXCEPT = {'dest': '<>()\\&\x7f' + ''.join(map(chr, range(33))), 'in-dest': '<>\\&\r\n', 'title': '\\&"\r\n', 'label': '[]\\' + ''.join(
    c for c in SPECIAL if c.isspace() or c.casefold() != c)}
FREE = {'dest': '[l]: /«x»z', 'dest-title': '[l]: «x» "t"', 'in-dest': '[l]: <a«x»b>', 'title': '[l]: /u "a«x»b"', 'label': '[a«x»b]: /u'}
BOUNDS = ('definitions with the labels, separators, destinations, titles and surroundings of harness/c13.py, every pair of them (quick) '
          'or every triple (thorough), their parts having one symbolic character (three in the thorough tier, in some), and, for each destination and title, what is extracted of them; one free '
          'character (those below U+0180 and some of the others) in a destination, title or label; 26 kinds of lines that define nothing; 23 documents that are '
          'extracted and translated, all definitions or some of them having other targets, destinations and titles in the translation')
REACH = ['title', 'no-title', 'not', 'free', 'extracted', 'translated', 'event']


def cases(tier):
    ks = {'l': list(LABELS), 's': list(SEPS), 'd': list(DESTS), 't': list(TITLES), 'a': list(AROUND)}
    cs = []
    dims = list(ks)
    base = {'l': '«a»', 's': ': ', 'd': '/«u»', 't': ' "«t»"', 'a': 'p'}
    seen = set()

    def add(c):
        k = tuple(c.items())
        if k not in seen:
            seen.add(k)
            cs.append(c)
    for i, x in enumerate(dims):
        for y in dims[i + 1:]:
            for vx in ks[x]:
                for vy in ks[y]:
                    add({**base, x: vx, y: vy})
    if tier == 'thorough':
        for vd in ks['d']:
            for vt in ks['t']:
                for va in ks['a']:
                    add({**base, 'd': vd, 't': vt, 'a': va})
        cs += [{**base, 'd': d, 't': t, 'n': 3} for d in ks['d'] for t in ks['t']]
    cs += [{'not': k, 'where': wh} for k in NOT for wh in ('alone', 'before', 'after')]
    for k in FREE:
        cs.append({'free': k, 'dom': 'lower'})
        xs = [c for c in SPECIAL if c not in EXCEPT[k.replace('dest-title', 'dest')]]
        cs += [{'free': k, 'dom': ''.join(xs[i:i + 16])} for i in range(0, len(xs), 16)]
    cs += [{'doc': k, 'how': h} for k in TEMPLATES for h in ('extract', 'same', 'dest', 'title', 'all', 'first')]
    cs += [{'doc': k, 'how': 'event'} for k in TEMPLATES if len(TEMPLATES[k][1]) > 1]
    return cs


def triples(refs):
    return [(t, h, s or None) for t, h, s in refs]


def run(w, case):
    if 'doc' in case:
        return run_doc(w, case)
    if 'free' in case:
        k = case['free']
        x = w.text('x', 1, case['dom'])
        holes = {'x': x}
        d = w.cat([fill(w, FREE[k], holes), '\n\n[l]\n'])
        got = triples(parse_link_references(d))
        w.obs('got', got)
        w.reach('free')
        want = {'dest': lambda: ('l', w.cat(['/', x, 'z']), None), 'dest-title': lambda: ('l', x, 't'),
                'in-dest': lambda: ('l', w.cat(['a', x, 'b']), None), 'title': lambda: ('l', '/u', w.cat(['a', x, 'b'])),
                'label': lambda: (w.cat(['a', x, 'b']), '/u', None)}[k]()
        w.check(w.eq(got, [want]), 'free:' + k, (d, got, want))
        return
    if 'not' in case:
        t = NOT[case['not']]
        want = [('c«c»', '/«w»', '«s»')] if 'open-code' == case['not'] or case['where'] != 'alone' else []
        if case['where'] == 'before':
            t = '[c«c»]: /«w» "«s»"\n\n' + t
        elif case['where'] == 'after':
            t = t + '\n[c«c»]: /«w» "«s»"\n'
        holes = {}
        d = fill(w, t, holes)
        got = triples(parse_link_references(d))
        w.obs('got', got)
        w.reach('not')
        want = [tuple(fill(w, p, holes) for p in x) for x in want]
        w.check(w.eq(got, want), f'not:{case["not"]}:{case["where"]}', (d, got, want))
        return
    holes = {}
    n = case.get('n', 1)
    before, after = AROUND[case['a']]
    d = fill(w, f'{before}[d{case["l"]}]{case["s"]}{case["d"]}{case["t"]}{after}', holes, n)
    title = TITLES[case['t']]
    want = [('d' + LABELS[case['l']], DESTS[case['d']], title)]
    if case['a'] == 'defs':
        want = [('P«P»', '/«Q»', '«P»'), *want, ('Q«Q»', '«P»', None)]
    want = [tuple(p and fill(w, p, holes, n) for p in x) for x in want]
    got = triples(parse_link_references(d))
    w.obs('got', got)
    w.reach('title' if title else 'no-title')
    w.check(w.eq(got, want), 'found', (d, got, want))
    if n == 1 and case['a'] == 'p' and case['s'] == ': ' and case['l'] == '«a»' and ('/«u»' == case['d'] or case['t'] in ('', ' "«t»"')):
        # as they are extracted they define the same
        ms = [e.msgid for e in extract(d).pofile if is_ref(e.msgid)]
        w.obs('ms', ms)
        got = triples(parse_link_references(w.cat([m + '\n' for m in ms])))
        w.check(w.eq(got, want), 'extracted-as', (d, ms, got))


def run_doc(w, case):
    body, defs = TEMPLATES[case['doc']]
    how = case['how']
    t = body + '\n\n' + '\n'.join(defs) + '\n'
    holes = {}
    d = fill(w, t, holes, prefix='x')
    lines = [fill(w, x, holes) for x in defs]
    m = extract(d)
    refs = [e for e in m.pofile if any(w.eq(e.msgid, x) for x in lines)]
    w.obs('msgids', [e.msgid for e in m.pofile])
    w.check(w.eq([e.msgid for e in refs], lines), 'extracted:' + case['doc'], (d, [e.msgid for e in m.pofile], lines))
    w.check(w.eq([e.msgid for e in m.pofile][-len(lines):], lines), 'last:' + case['doc'], (d, [e.msgid for e in m.pofile]))
    w.check(all(w.eq(e.msgstr, e.msgid) and 'fuzzy' in e.flags for e in refs), 'default:' + case['doc'],
            [(e.msgid, e.msgstr, e.flags) for e in refs])
    w.reach('extracted')
    if how == 'extract':
        return
    if how == 'event':
        # definitions for which an event returns False are left out
        skipped = lines[0]

        def event(self, target, href, title):
            return not w.eq(f'[{target}]:', skipped[:len(target) + 3])
        m2 = extract(d, events={'link_reference': event})
        got = [e.msgid for e in m2.pofile]
        w.reach('event')
        w.check(w.eq(got, [e.msgid for e in m.pofile if not w.eq(e.msgid, skipped)]), 'event:' + case['doc'], (d, got))
        return
    # translation of the definitions
    ents, tr = [], []
    for i, (x, ref) in enumerate(zip(defs, lines)):
        if how == 'first' and i:
            tr.append(x)
            continue
        y = x
        if how in ('dest', 'all', 'first'):
            for v in 'uvw':
                y = y.replace(f'«{v}»', f'«{v.upper()}»y')
        if how in ('title', 'all', 'first'):
            for v in 'ts':
                y = y.replace(f'«{v}»', f'«{v.upper()}»y')
        tr.append(y)
        ents.append((ref, fill(w, y, holes, prefix='x')))
    out = Po2Md(write_po(w, 'a.po', ents), wrapwidth=0)
    out.translate(d)
    w.obs('out', out.output)
    want = fill(w, body + '\n\n' + '\n'.join(tr) + '\n', holes, prefix='x')
    a, b = render(w, out.output), render(w, want)
    w.reach('translated')
    a, b = [[y for y in x if y[:4] != '<!--'] for x in (a, b)]
    w.check(w.eq(a, b), 'rendered:' + case['doc'], (out.output, a, b))
    # after the rest of the document, in order
    new = [fill(w, y, holes, prefix='x') for y in tr]
    last = out.output.rstrip('\n').split('\n')[-len(new):]
    w.check(w.eq(last, new), 'written:' + case['doc'], (out.output, new))
