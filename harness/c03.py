"""C03: translating is the same as writing the document in the other language."""
from harness.common import empty_po, extract, fill, keys, translate, write_po
from harness.docs import all_docs, compositions, document

BOUNDS = ('the document templates of harness/docs.py, alone and composed (as in C01), written in two languages, each hole having one symbolic character in '
          'each language')
REACH = []


def cases(tier):
    return [{'d': d} for d in all_docs() + compositions(tier)]


def run(w, case):
    t = document(case['d'])
    doc = fill(w, t, {}, 1, prefix='S')
    doc2 = fill(w, t, {}, 1, prefix='T')
    ks = keys(extract(doc, include_codeblocks=True).pofile)
    ks2 = keys(extract(doc2, include_codeblocks=True).pofile)
    w.obs('keys', ks)
    w.assume(len(ks) == len(ks2))
    po = write_po(w, 'a.po', [(k, k2, {'msgctxt': c or None}) for (k, c), (k2, _) in zip(ks, ks2)])
    p = translate(doc, po, wrapwidth=0)
    q = translate(doc2, empty_po(w), wrapwidth=0)
    w.obs('out', p.output)
    w.obs('ref', q.output)
    w.check(w.eq(p.output, q.output), 'as-written:' + case['d'], (p.output, q.output))
