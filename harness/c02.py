"""C02: missing or empty translations leave the text as it was."""
from harness.common import empty_po, extract, fill, keys, render, translate, write_po
from harness.docs import LOST, all_docs, compositions, document

BOUNDS = ('the document templates of harness/docs.py, alone and composed (as in C01), each hole having one symbolic character; '
          'ordered lists numbered from 1; each '
          'template alone also with a context for its first message')
REACH = ['context']
COMMAND = '<!-- mdpo-translator Note --'
SKIP = {'include'}  # messages that are not in the document


def lossy(d):
    return '+' in d and LOST & set(d.split('/')[1].split('+'))


def cases(tier):
    return ([{'d': d} for d in all_docs() + compositions(tier) if d not in SKIP and not lossy(d)]
            + [{'d': d, 'context': True} for d in all_docs() if not lossy(d)])


def infos(text):
    """Information strings, of which HTML only has the first word."""
    return [line.lstrip(' >-~`0123456789.') for line in text.split('\n') if 'title=' in line]


def run(w, case):
    doc = fill(w, document(case["d"]), {}, 1, prefix="S")
    if case.get('context'):
        # the first message has a context, and perhaps it is translated without it
        doc = w.cat(['<!-- mdpo-context C', w.text('C', 1), ' -->\n\n', doc])
        ks = keys(extract(doc, include_codeblocks=True).pofile)
        p = translate(doc, empty_po(w), wrapwidth=0)
        w.obs('out', p.output)
        es = [(k, '', {'msgctxt': c or None}) for k, c in ks]
        if any(c for _, c in ks):
            w.reach('context')
        q = translate(doc, write_po(w, 'a.po', es), wrapwidth=0)
        w.check(w.eq(p.output, q.output), 'empty-msgstr-context:' + case['d'], (p.output, q.output))
        return
    ks = keys(extract(doc, include_codeblocks=True).pofile)
    w.obs('keys', ks)
    p = translate(doc, empty_po(w), wrapwidth=0)
    w.obs('out', p.output)
    ks2 = keys(extract(p.output, include_codeblocks=True).pofile)
    w.check(w.eq(ks, ks2), 'same-messages:' + case['d'], (p.output, ks, ks2))
    w.check(w.eq([x for x in render(w, doc) if x != COMMAND], render(w, p.output)), 'same-html:' + case['d'], (doc, p.output))
    w.check(w.eq(infos(doc), infos(p.output)), 'same-info:' + case['d'], (doc, p.output))
    # entries with an empty translation do as much as no entries
    q = translate(doc, write_po(w, 'a.po', [(k, '', {'msgctxt': c or None}) for k, c in ks]), wrapwidth=0)
    w.check(w.eq(p.output, q.output), 'empty-msgstr:' + case['d'], (p.output, q.output))
