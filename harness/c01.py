"""C01: every extracted message is the key used to translate it."""
from harness.common import extract, fill, is_ref, keys, translate, write_po
from harness.docs import all_docs, compositions, document

BOUNDS = ('the document templates of harness/docs.py (every inline construct in every block wrapper, and the block '
          'documents), alone and composed (inside quotes and lists, and two of these; one after another; thorough: all the '
          'pairs, triples of units of every kind of block, and units inside containers of two levels), each hole and each translation having one symbolic character; thorough: two characters and no '
          'fixed prefix in the inline templates, so that holes may be equal')
REACH = []
SKIP = {'include'}  # messages that are not in the document


def cases(tier):
    cs = [{'d': d, 'n': 1, 'p': 'S'} for d in all_docs() + compositions(tier) if d not in SKIP]
    if tier == 'thorough':
        cs += [{'d': 'p/' + d.split('/')[1], 'n': 2, 'p': ''} for d in all_docs(['p']) if '/' in d]
    return cs


def run(w, case):
    doc = fill(w, document(case['d']), {}, case['n'], prefix=case['p'])
    m = extract(doc, include_codeblocks=True)
    ks = keys(m.pofile)
    w.obs('keys', ks)
    ents, want = [], []
    for i, (k, c) in enumerate(ks):
        if is_ref(k):
            t = k
        else:
            t = w.cat(['Tr', str(i), w.text('t', 1)])
            if k[-1:] == '\n':
                t = w.cat([t, '\n'])
            want.append((t, ''))
        ents.append((k, t, {'msgctxt': c or None}))
    p = translate(doc, write_po(w, 'a.po', ents), wrapwidth=0)
    w.obs('out', p.output)
    got = [(e.msgid, e.msgctxt or '') for e in p.translated_entries]
    w.check(all(any(w.eq(k, g) for g in got) for k in ks), 'translated:' + case['d'], (ks, got))
    m2 = extract(p.output, include_codeblocks=True)
    ks2 = [k for k in keys(m2.pofile) if not is_ref(k[0])]
    w.obs('re', ks2)
    w.check(w.eq(ks2, want), 'placed:' + case['d'], (p.output, ks2, want))
