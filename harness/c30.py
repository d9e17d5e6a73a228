"""C30: plain text extraction drops markup and nothing else."""
from harness.common import entry_key, extract, fill

# construct: plain text, titles
INLINE = {
    'text': ('«a»', '«a»', []), 'em': ('*«a»*', '«a»', []), 'em_': ('_«a»_', '«a»', []), 'strong': ('**«a»** «b»', '«a» «b»', []),
    'em-strong': ('***«a»** «b»*', '«a» «b»', []), 'code': ('`«a»`', '«a»', []), 'code2': ('`` «a»`«b» ``', '«a»`«b»', []),
    'code-em': ('*`«a»`*', '«a»', []), 'code-star': ('`*«a»*`', '*«a»*', []), 'strike': ('~~«a»~~', '«a»', []),
    'math': ('$«a»$', '«a»', []), 'math-display': ('$$«a»$$', '«a»', []), 'wikilink': ('[[«a»]]', '«a»', []),
    'link': ('[«a»](/«b»)', '«a»', []), 'link-title': ('[«a»](/«b» "«c»")', '«a»', ['«c»']),
    'link-title-quotes': ('[«a»](/«b» "\\"«c»\\" «d»")', '«a»', ['"«c»" «d»']), 'link-em': ('[*«a»* «b»](/«c» "«d»")', '«a» «b»', ['«d»']),
    'em-link': ('*[«a»](/«b» "«c»")*', '«a»', ['«c»']), 'link-code': ('[`«a»`](/«b»)', '«a»', []),
    'image': ('![«a»](/«b»)', '«a»', []), 'image-title': ("![«a»](/«b» '«c»')", '«a»', ['«c»']), 'image-em': ('![«a» **«b»**](/«c»)', '«a» «b»', []),
    'linked-image': ('[![«a»](/«b» "«c»")](/«d» "«e»")', '«a»', ['«e»', '«c»']), 'two-titles': ('[«a»](/«b» "«c»") ![«d»](/«e» "«f»")', '«a» «d»', ['«c»', '«f»']),
    'autolink': ('<http://«a».x>', 'http://«a».x', []), 'mail': ('<m@n.x> «a»', 'm@n.x «a»', []), 'escape': ('\\*«a»\\* \\_«b» \\[«c»\\]', '*«a»* _«b» [«c»]', []),
    'entity': ('«a» &amp; «b»', '«a» &amp; «b»', []), 'html': ('«a» <b>«b»</b>', '«a» <b>«b»</b>', []), 'comment': ('«a» <!-- «b» -->', '«a» <!-- «b» -->', []),
    'lone-star': ('«a» * «b»', '«a» * «b»', []), 'underscores': ('«a»_«b»_«c»', '«a»_«b»_«c»', []), 'autolink-text': ('«a» http://«b».x', '«a» http://«b».x', []),
    'escaped-code': ('\\`«a»\\`', '`«a»`', []), 'nested': ('**«a» *«b» `«c»`* ~~«d»~~**', '«a» «b» «c» «d»', []), 'link-math': ('[$«a»$](/«b»)', '«a»', []),
    'title-entity': ('[«a»](/«b» "«c» & «d»")', '«a»', ['«c» & «d»']), 'same-title': ('[«a»](/«b» "«a»")', '«a»', ['«a»']),
}
MULTI = {'soft': ('«a»\n«b»', '«a» «b»', []), 'hard': ('«a»  \n«b»', '«a» «b»', []), 'soft-em': ('*«a»\n«b»*', '«a» «b»', []),
         'soft-link': ('[«a»\n«b»](/«c»\n"«d»")', '«a» «b»', ['«d»']), 'soft-title': ('[«a»](/«b» "«c»\n«d»")', '«a»', ['«c» «d»'])}
REFS = {'ref': ('[«a»][r]', '«a»', ['«t»']), 'ref-image': ('![«a»][r]', '«a»', ['«t»']), 'ref-short': ('[r]', 'r', ['«t»'])}
# documents with @ for the construct: text, messages (with context and comment), disabled messages
DOCS = {
    'p': ('@\n', ['@'], []), 'two': ('x «y»\n\n@\n\nx «z»\n', ['x «y»', '@', 'x «z»'], []), 'h': ('# @\n', ['@'], []),
    'setext': ('@\n===\n', ['@'], []), 'ul': ('- @\n- x«y»\n', ['@', 'x«y»'], []), 'ol': ('1. @\n2. x«y»\n', ['@', 'x«y»'], []),
    'nested': ('- x«y»\n  1. @\n     > x«z»\n', ['x«y»', '@', 'x«z»'], []), 'loose': ('- x«y»\n\n  @\n', ['x«y»', '@'], []),
    'quote': ('> @\n>\n> x«y»\n', ['@', 'x«y»'], []), 'quote-ul': ('> - @\n', ['@'], []),
    'table': ('| @ | x«y» |\n| --- | --- |\n| x«z» | **x** |\n', ['@', 'x«y»', 'x«z»', 'x'], []),
}
OFF, ON = '<!-- mdpo-disable -->\n\n', '\n\n<!-- mdpo-enable -->\n\n'
NEXT, CTX, NOTE = '<!-- mdpo-disable-next-block -->\n\n', '<!-- mdpo-context C«c» -->\n', '<!-- mdpo-translator N«n» -->\n'
COMMANDS = {
    'disable': (OFF + '@' + ON + '«y»\n', ['«y»'], ['@']),
    'next': (NEXT + '@\n\n«y»\n', ['«y»'], ['@']),
    'next-twice': ('«y»\n\n<!-- mdpo-disable-next-line -->\n\n@\n\n@\n', ['«y»', '@'], ['@']),
    'enable-next': (OFF + '«y»\n\n<!-- mdpo-enable-next-block -->\n\n@\n\n@\n', ['@'], ['«y»', '@']),
    'enable-next-line': (OFF + '<!-- mdpo-enable-next-line -->\n\n@\n\n«y»\n', ['@'], ['«y»']),
    'context': (CTX + '\n@\n\n«y»\n', [('@', 'C«c»', ''), '«y»'], []),
    'translator': ('«y»\n\n' + NOTE + '\n@\n', ['«y»', ('@', '', 'N«n»')], []),
    'both': (CTX + NOTE + '\n@\n\n@\n', [('@', 'C«c»', 'N«n»'), '@'], []),
    'include': ('@\n\n<!-- mdpo-include I«i» -->\n\n@\n', ['@', 'I«i»', '@'], []),
    'code': ('@\n\n<!-- mdpo-include-codeblock -->\n\n```\nx = *«k»*\n```\n\n@\n', ['@', 'x = *«k»*\n', '@'], []),
    'codeblocks': ('<!-- mdpo-include-codeblocks -->\n\n    *«k»* `k`\n\n@\n', ['*«k»* `k`\n', '@'], []),
    'disabled-context': (NEXT + CTX + '\n@\n\n@\n', ['@'], ['@']),
    'disable-heading': (NEXT + '# @\n\n@\n', ['@'], ['@']),
    'disable-ul': (OFF + '- @\n- @' + ON + '- @\n', ['@'], ['@', '@']),
    'html': ('<div>\n\n@\n\n</div>\n\n<!-- other -->\n\n@\n', ['@', '@'], []),
}
OPTIONS = ('none', 'default', 'ignore', 'ignore-title', 'codeblocks', 'xheader', 'no-location', 'event', 'metadata')
BOUNDS = ('41 inline constructs, alone in each of 11 kinds of blocks and in the 15 documents with commands of harness/c30.py, their texts, titles, '
          'targets and the comments of the commands having one symbolic character, equal or not (three, and pairs of constructs, in the '
          'thorough tier); with default or ignored messages, metadata, generator header, code blocks, without locations and with an event that refuses a message')
REACH = ['plain', 'title', 'disabled', 'context', 'located', 'event']


def cases(tier):
    cs = []
    for i in INLINE:
        for d in DOCS:
            cs.append({'i': i, 'd': d})
    for i in MULTI:
        for d in ('p', 'two', 'setext', 'quote', 'ul', 'ol', 'loose', 'nested', 'quote-ul'):
            cs.append({'i': i, 'd': d})
    for i in REFS:
        for d in DOCS:
            cs.append({'i': i, 'd': d})
    some = ('text', 'strong', 'link-title', 'image-title', 'linked-image', 'code') if tier == 'quick' else [*INLINE, *REFS]
    for i in some:
        for d in COMMANDS:
            cs.append({'i': i, 'd': d})
    for i in ('em', 'link-title', 'image-title', 'same-title', 'ref'):
        for d in ('two', 'ul', 'next', 'context', 'code', 'disable'):
            for o in OPTIONS:
                # the commands before a refused message are for the next one
                if o == 'event' and d in ('next', 'context'):
                    continue
                cs.append({'i': i, 'd': d, 'o': o})
    if tier == 'thorough':
        for i in INLINE:
            for j in INLINE:
                cs.append({'i': i, 'j': j, 'd': 'two', 'p': 'x'})
        cs += [{'i': i, 'd': d, 'n': 3, 'p': 'x'} for i in INLINE for d in ('p', 'table', 'nested')]
    return cs


def seen(es):
    return [[entry_key(e), e.msgstr, e.comment or '', e.tcomment or '', list(e.occurrences), list(e.flags)] for e in es]


def run(w, case):
    allof = {**INLINE, **MULTI, **REFS}
    md, plain, titles = allof[case['i']]
    if 'j' in case:
        # the holes of the second construct are others
        a, b, c = [[x.replace('«', '«j') for x in y] if type(y) is list else y.replace('«', '«j') for y in INLINE[case['j']]]
        md, plain, titles = f'{md} and {a}', f'{plain} and {b}', titles + c
    t, messages, off = {**DOCS, **COMMANDS}[case['d']]
    t = t.replace('@', md)
    ref = case['i'].startswith('ref')
    if ref:
        t += '\n[r]: /«u» "«t»"\n'
    holes = {}
    n, p = case.get('n', 1), case.get('p', '')
    doc = w.write('d.md', fill(w, t, holes, n, prefix=p))
    text = fill(w, plain, holes, n, prefix=p)
    titles = [fill(w, x, holes, n, prefix=p) for x in titles]
    kw = {}
    o = case.get('o')
    if o == 'default':
        kw['msgstr'] = 'D'
    elif o == 'ignore':
        kw['ignore_msgids'] = [text, w.text('x', n, 'wletter')]
    elif o == 'ignore-title':
        kw['ignore_msgids'] = [titles[0] if titles else 'z']
    elif o == 'codeblocks':
        kw['include_codeblocks'] = True
    elif o == 'xheader':
        kw['xheader'] = True
    elif o == 'no-location':
        kw['location'] = False
    elif o == 'metadata':
        kw.update(metadata={'Language': 'es', 'X-Note': 'n'}, xheader=w.bool('xh'))
    refused = None
    if o == 'event':
        refused = text if w.bool('text') or not titles else titles[0]
        w.reach('event')
    calls = []

    def event(self, msgid, msgstr, msgctxt, tcomment, flags):
        if o == 'event' and msgid:
            calls.append(msgid)
            return not w.eq(msgid, refused)
    # the messages of normal mode, with the ignored and refused ones
    kn = {k: v for k, v in kw.items() if k != 'ignore_msgids'}
    normal = extract([doc], **kn)
    meta = dict(kw.get('metadata') or {})
    if o == 'metadata':
        kw['metadata'] = given = dict(meta)
    m = extract([doc], plaintext=True, events={'msgid': event} if o == 'event' else {}, **kw)
    if o == 'metadata':
        w.check(given == meta, 'metadata-mutated', given)

    def expected(messages, entries):
        """Of the messages of the template, and what normal mode gives for them."""
        es = [x for x in seen(entries) if x[0][0][:5] != '[r]: ']
        w.check(len(es) == len(messages), 'same-count', (es, messages))
        out = []
        for x, (_, *rest) in zip(messages, es):
            x, c, note = (x, '', '') if isinstance(x, str) else x
            for y in titles if x == '@' else []:
                out.append([(y, ''), rest[0], '', '', rest[3], []])
            out.append([(text if x == '@' else fill(w, x, holes, n, prefix=p), fill(w, c, holes, n, prefix=p)), rest[0], fill(w, note, holes, n, prefix=p), *rest[2:]])
        return out
    got = seen(m.found_entries)
    w.obs('plain', got)
    final = expected(messages, normal.found_entries)
    dis = [x[0][0] for x in expected(off, normal.disabled_entries)]
    if 'ignore_msgids' in kw:
        final = [x for x in final if not any(w.eq(x[0][0], y) for y in kw['ignore_msgids'])]
    if refused is not None:
        final = [x for x in final if not w.eq(x[0][0], refused)]
    w.reach('plain')
    if titles and final:
        w.reach('title')
    if dis:
        w.reach('disabled')
    if any(x[0][1] for x in final):
        w.reach('context')
    if any(x[4] for x in final):
        w.reach('located')
    w.check(w.eq(got, final), f'messages:{case["i"]}:{case["d"]}', (got, final))
    if refused is not None:
        w.check(any(w.eq(x, refused) for x in calls), 'event', (calls, refused))
        dis = [x for x in dis if not w.eq(x, refused)]
    w.check(w.eq([e.msgid for e in m.disabled_entries], dis), f'disabled:{case["i"]}:{case["d"]}', (m.disabled_entries, dis))
    w.check(m.pofile.metadata == normal.pofile.metadata, 'header', (m.pofile.metadata, normal.pofile.metadata))
