"""C06: contexts and translator comments belong to exactly the next message."""
from harness import seqs
from harness.common import extract, is_ref, keys, translate, write_po

BOUNDS = ('the documents of harness/seqs.py, with up to 3 commands (4 in the thorough tier), each none or a context, a '
          'translator comment, an included message or a disabling of the next block, of one symbolic character after a fixed '
          'one, and texts of one symbolic character (that may be equal)')
REACH = ['context', 'comment', 'included', 'disabled', 'same-id', 'empty']
KINDS = ('', 'context', 'translator', 'include', 'disable-next-block')


def cases(tier):
    docs = {d: t for d, t in {**seqs.DOCS, **seqs.LONG}.items() if tier == 'thorough' or seqs.slots(t) < 4}
    cs = []
    for d in docs:
        if d.startswith('ref') and d != 'ref-end':
            continue
        if seqs.slots(docs[d]) > 2:
            cs += [{'d': d, 'c': c} for c in KINDS]
        else:
            cs.append({'d': d})
    cs += [{'d': d, 'same': True} for d in ('same', 'p3', 'ul-in', 'quote')]
    cs += [{'d': d, 'po': x} for d in ('p3', 'ul-in', 'quote', 'ol') +
           (('table', 'ul-nested') if tier == 'thorough' else ()) for x in ('other', 'none')]
    cs += [{'d': d, 'code': True} for d in seqs.CODE if seqs.slots(seqs.CODE[d]) < (3 if tier == 'quick' else 4)]
    return cs


def messages(w, tokens):
    """(id, context, comment, is included, is extracted) of the messages; the specification of the commands."""
    ctx = tc = ''
    off = False
    out = []
    for kind, name, x in tokens:
        if kind == 'command':
            if name == 'context':
                ctx = x
            elif name == 'translator':
                tc = x
            elif name == 'disable-next-block':
                off = True
            if name != 'include':
                continue
        out.append((x, ctx, tc, kind == 'command', not off))
        for v, label in ((ctx, 'context'), (tc, 'comment'), (kind == 'command', 'included'), (off, 'disabled')):
            if v:
                w.reach(label)
        ctx = tc = ''
        off = False
    return out


def run(w, case):
    d = case['d']
    t = {**seqs.DOCS, **seqs.LONG, **seqs.CODE}[d]
    kinds = [w.pick(f'k{i}', KINDS) for i in range(seqs.slots(t) - ('c' in case))]
    if 'c' in case:
        kinds.insert(0, case['c'])
    cmds = [(k, w.cat(['C', w.text(f'c{i}', 1)])) if k and k[0] != 'd' else k for i, k in enumerate(kinds)]
    ref = d == 'ref-end'
    doc, tokens = seqs.document(w, t, cmds, lambda n: w.cat(['T' if 'same' in case else 'T' + n, w.text(n, 1)]))
    if ref:
        for i, (k, n, x) in enumerate(tokens):
            if n == 'b':
                tokens[i] = (k, n, w.cat(['[', x, '][1]']))
        tokens = [x for x in tokens if x[1] != 'd' or x[0] == 'command']
    if 'code' in case:
        tokens = [x for x in seqs.codes(w, t, tokens) if x[2] != '']
    want = messages(w, tokens)
    m = extract(doc, include_codeblocks='code' in case)
    got = [(e.msgid, e.msgctxt or '', e.comment or '') for e in m.found_entries]
    w.obs('got', got)
    refs = [g for g in got if is_ref(g[0])]
    got = [g for g in got if not is_ref(g[0])]
    w.check(w.eq(got, [x[:3] for x in want if x[4]]), 'extracted-' + d, (doc, got, want))
    w.check(not any(w.any(r[1], r[2]) for r in refs), 'references-' + d, (doc, refs))
    off = [(e.msgid, e.msgctxt or '', e.tcomment or '') for e in m.disabled_entries]
    w.check(w.eq(off, [x[:3] for x in want if not x[4]]), 'disabled-' + d, (doc, off))
    # one entry for each id and context
    distinct = []
    for x in want:
        if x[4] and not any(w.eq(x[:2], y) for y in distinct):
            if any(w.eq(x[0], y[0]) for y in distinct):
                w.reach('same-id')
            distinct.append(x[:2])
    ks = [k for k in keys(m.pofile) if not is_ref(k[0])]
    w.check(w.eq(ks, distinct), 'entries-' + d, (doc, ks, distinct))
    # translation, with the translations of other contexts in the file too
    ents = []
    trans = {}
    eol = [('\n' if k[-1:] == '\n' else '') for k, _ in distinct]
    for i, (k, c) in enumerate(distinct):
        if case.get('po') == 'none' or (case.get('po') == 'other' and c == ''):
            tr = k
            if w.bool(f'e{i}'):
                w.reach('empty')
                ents.append((k, '', {'msgctxt': c or None}))
        else:
            tr = w.cat([f'Tr{i}', eol[i]])
            ents.append((k, tr, {'msgctxt': c or None}))
        trans[i] = tr
    for i, (k, c) in enumerate(distinct):
        ents.append((k, 'No' + eol[i], {'msgctxt': 'Dother'}))
        if c != '' and not any(w.eq((k, ''), x) for x in distinct):
            ents.append((k, 'Nope' + eol[i], {}))
    p = translate(doc, write_po(w, 'a.po', ents), wrapwidth=0)
    w.obs('out', p.output)
    out = []
    for x in want:
        if not x[3]:
            if x[4]:
                out.append(next(trans[i] for i, y in enumerate(distinct) if w.eq(x[:2], y)))
            else:
                out.append(x[0])
    re = [k for k, _ in keys(extract(p.output, include_codeblocks=True).found_entries) if not is_ref(k)]
    w.obs('re', re)
    w.check(w.eq(re, out), 'translated-' + d, (doc, p.output, re, out))
    te = [(e.msgid, e.msgctxt or '', e.tcomment or '') for e in p.translated_entries]
    if 'po' not in case:
        te = [x for x in te if not is_ref(x[0])]
        w.check(w.eq(te, [x[:3] for x in want if x[4] and not x[3]]), 'reported-' + d, (doc, te, want))
