"""C05: po2md disables exactly what md2po does not extract."""
from harness import seqs
from harness.common import extract, is_ref, keys, translate, write_po

BOUNDS = ('the documents of harness/seqs.py, with up to 3 commands (4 in the thorough tier), each none or any of the six (or '
          'a context, or an included message, in some documents), and texts of one symbolic character; all the messages '
          'have a translation; documents with code blocks only with code blocks extracted')
REACH = ['translated', 'disabled']


def cases(tier):
    docs = {d: t for d, t in {**seqs.DOCS, **seqs.LONG}.items() if tier == 'thorough' or seqs.slots(t) < 4}
    cs = []
    for d in docs:
        if seqs.slots(docs[d]) > 2:
            cs += [{'d': d, 'c': c} for c in ('',) + seqs.ABLE]
        else:
            cs.append({'d': d})
    cs += [{'d': d, 'other': x} for d in ('p3', 'ul-in', 'quote', 'quote-end') for x in ('include', 'context')]
    cs += [{'d': d, 'code': True} for d in seqs.CODE if seqs.slots(seqs.CODE[d]) < (3 if tier == 'quick' else 4)]
    return cs


def run(w, case):
    d = case['d']
    t = {**seqs.DOCS, **seqs.LONG, **seqs.CODE}[d]
    options = ('',) + seqs.ABLE
    if 'other' in case:
        options += ((case['other'], w.cat(['Other', w.text('i', 1)])),)
    cmds = [w.pick(f'c{i}', options) for i in range(seqs.slots(t) - ('c' in case))]
    if 'c' in case:
        cmds.insert(0, case['c'])
    doc, tokens = seqs.document(w, t, cmds, lambda n: w.cat(['T', n, w.text(n, 1)]) if n != 'd' or 'ref' not in d
                                else w.cat(['d', w.text(n, 1)]))
    check(w, doc, d, include_codeblocks='code' in case)


def check(w, doc, label, **kw):
    m = extract(doc, **kw)
    included = [k for k in keys(m.found_entries) + keys(m.disabled_entries) if k[0][:5] == 'Other']
    found = [k for k in keys(m.found_entries) if k not in included]
    disabled = [k for k in keys(m.disabled_entries) if k not in included]
    w.obs('found', found)
    ents, trans, seen = [], [], []
    for k, c in found + disabled:
        for i, x in enumerate(seen):
            if w.eq(x, (k, c)):
                trans.append(trans[i])
                break
        else:
            tr = k if is_ref(k) else w.cat(['Tr', str(len(ents)), '\n' if k[-1:] == '\n' else ''])
            trans.append(tr)
            ents.append((k, tr, {'msgctxt': c or None}))
        seen.append((k, c))
    p = translate(doc, write_po(w, 'a.po', ents), wrapwidth=0)
    w.obs('out', p.output)
    got = keys(p.translated_entries)
    w.check(w.eq(got, found), 'translated-' + label, (doc, got, found))
    off = keys(p.disabled_entries)
    w.check(w.eq(off, disabled), 'disabled-' + label, (doc, off, disabled))
    w.check('<!-- mdpo-' not in p.output, 'removed-' + label, p.output)
    if disabled:
        w.reach('disabled')
    if found:
        w.reach('translated')
    # what is in the output: translations of those found and the text of those disabled, each in its place
    e = extract(p.output, include_codeblocks=True)
    want = []
    for k, _ in keys(extract(strip(w, doc), include_codeblocks=True).found_entries):
        if not is_ref(k):
            want.append(k)
    out = [k for k, _ in keys(e.found_entries) if not is_ref(k)]
    w.obs('re', out)
    w.check(len(out) == len(want), 'placed-' + label, (doc, p.output, out, want))
    f, x = list(zip(found, trans)), list(disabled)
    for k, o in zip(want, out):
        if f and w.eq(f[0][0][0], k) and w.eq(o, f[0][1]):
            f.pop(0)
        else:
            w.check(bool(x) and w.eq(x[0][0], k) and w.eq(o, k), 'placed-' + label, (doc, p.output, out, want))
            x.pop(0)


def strip(w, doc):
    """The document with comments instead of commands."""
    return doc.replace('<!-- mdpo-', '<!-- no-')
