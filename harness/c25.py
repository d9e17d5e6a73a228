"""C25: mdpo2html follows the commands as md2po does."""
from md4c import HTMLRenderer

from mdpo.mdpo2html import MdPo2HTML

from harness import seqs
from harness.common import extract, is_ref, keys, write_po

BOUNDS = ('the HTML that md4c produces from the documents of harness/seqs.py without code blocks and references, with up to '
          '3 commands (4 in the thorough tier), each none or any of the six or a context, written in HTML or read from the '
          'Markdown, and texts of one symbolic character after a fixed one; all the messages have a translation for each '
          'context, and some for a context that is not used')
REACH = ['translated', 'disabled', 'context']


def cases(tier):
    docs = {d: t for d, t in {**seqs.DOCS, **seqs.LONG}.items() if tier == 'thorough' or seqs.slots(t) < 4}
    cs = []
    for d in docs:
        if d.startswith('ref'):
            continue
        if seqs.slots(docs[d]) > 2:
            cs += [{'d': d, 'c': c} for c in ('', 'context') + seqs.ABLE]
        else:
            cs.append({'d': d})
    return cs


def render(w, doc):
    return HTMLRenderer(0, tables=True).parse(doc)


def norm(w, html):
    """Tags and texts of an HTML, without the white space between them."""
    parts = ['']
    for j, part in enumerate(html.replace('\r', '').replace('\n', ' ').split('<')):
        if j:
            tag, _, part = part.partition('>')
            tag = tag[:-1] if tag[-1:] == '/' else tag
            if tag != '!-- z --':
                parts.append('<' + tag)
                parts.append('')
        parts[-1] = w.cat([parts[-1], ' ', part.strip(' ')]).strip(' ')
    return [x.replace('&quot;', '"') for x in parts if x]


def run(w, case):
    d = case['d']
    t = {**seqs.DOCS, **seqs.LONG}[d]
    options = ('', 'context') + seqs.ABLE
    kw, inside = {}, False
    if d == 'html' and w.bool('groups'):
        kw['ignore_grouper_tags'] = frozenset()
    elif d == 'html':
        inside = True  # the text inside the division is not translated
        options = ('', 'enable', 'disable')
    kinds = [w.pick(f'c{i}', options) for i in range(seqs.slots(t) - ('c' in case))]
    if 'c' in case:
        kinds.insert(0, case['c'])
    cmds = [(k, w.cat(['C', w.text(f'x{i}', 1)])) if k == 'context' else k for i, k in enumerate(kinds)]
    doc, tokens = seqs.document(w, t, cmds, lambda n: w.cat(['T', n, w.text(n, 1)]))
    # what md2po extracts
    m = extract(doc)
    want = list(zip([True] * len(m.found_entries), keys(m.found_entries)))
    off = keys(m.disabled_entries)
    w.obs('found', keys(m.found_entries))
    ents, tr = [], {}
    for i, (k, n, x) in enumerate(tokens):
        if k == 'text' and n not in tr:
            tr[n] = {'': f'Tr{n}0'}
            ents.append((x, f'Tr{n}0', {}))
            ents.append((x, 'No', {'msgctxt': 'Dother'}))
            for c in kinds_contexts(w, cmds):
                tr[n][c] = f'Tr{n}{len(tr[n])}'
                ents.append((x, tr[n][c], {'msgctxt': c}))
    # the same document with the translations written in it
    j = 0
    found = keys(m.found_entries)
    if inside:
        found, off = ([k for k in ks if k[0][:2] != 'Ta'] for ks in (found, off))
    out = []
    for i, part in enumerate(split(t)):
        if part == '@':
            if tokens[j][1]:
                out.append('<!-- z -->')
            j += 1
        elif part.startswith('«'):
            kind, n, x = tokens[j]
            j += 1
            if inside and n == 'a':
                out.append(x)
            elif found and w.eq(found[0][0], x):
                out.append(next(v for c, v in tr[n].items() if w.eq(c, found[0][1])))
                w.reach('context' if found[0][1] != '' else 'translated')
                found.pop(0)
            else:
                w.reach('disabled')
                w.check(bool(off) and w.eq(off[0][0], x), 'order-' + d, (doc, off, x))
                off.pop(0)
                out.append(x)
        else:
            out.append(part)
    expected = norm(w, render(w, w.cat(out)))
    got = MdPo2HTML(write_po(w, 'a.po', ents), **kw).translate(render(w, doc))
    w.obs('out', got)
    w.check(w.eq(norm(w, got), expected), 'html-' + d, (doc, got, expected))


def kinds_contexts(w, cmds):
    out = []
    for c in cmds:
        if isinstance(c, tuple) and not any(w.eq(c[1], x) for x in out):
            out.append(c[1])
    return out


def split(t):
    import re
    return re.split('(@|«[^»]*»)', t)
