"""C04: disable and enable commands select exactly the messages extracted."""
from harness import seqs
from harness.common import dedupe, extract, is_ref, keys

BOUNDS = ('the documents of harness/seqs.py (paragraphs, headings, lists, quotes, tables, rules, HTML and nestings of them), '
          'with up to 3 commands (4 in the thorough tier), each none or any of the six, and texts of one symbolic '
          'character; and one command whose name has up to 10 symbolic letters')
REACH = ['extracted', 'disabled', 'is-command', 'not-command']
OTHER = ('context', 'include', 'translator')


def cases(tier):
    docs = {d: t for d, t in {**seqs.DOCS, **seqs.LONG}.items() if tier == 'thorough' or seqs.slots(t) < 4}
    cs = []
    for d in docs:
        if seqs.slots(docs[d]) > 2:
            cs += [{'d': d, 'c': c} for c in ('',) + seqs.ABLE]
        else:
            cs.append({'d': d})
    cs += [{'d': d, 'include': True} for d in ('p3', 'ul-in', 'quote')]
    for pre, n in (('', 6), ('', 7), ('', 10), ('disable', 9), ('disable', 10), ('enable', 9), ('x', 6)):
        cs.append({'name': pre, 'n': n})
    return cs


def name(w, case):
    """A command with any name."""
    n, pre = case['n'], case['name']
    if pre in ('disable', 'enable'):
        # -next-line and -next-block, with any letters
        last = w.text('last', n - 5, 'lower')
        c = w.cat([pre, '-', w.text('next', 4, 'lower'), '-', last])
    else:
        c = w.cat([pre, w.text('name', n, 'lower')])
    a, b, d, e = (w.cat([x, w.text('t', 1)]) for x in 'ABDE')
    doc = w.cat([a, '\n\n<!-- mdpo-disable -->\n\n', b, '\n\n<!-- mdpo-', c, ' Comment -->\n\n', d, '\n\n', e, '\n'])
    for x in seqs.ABLE + OTHER:
        if w.eq(c, x):
            w.reach('is-command')
            break
    else:
        w.reach('not-command')
        x = ''
    tokens = [('text', 0, a), ('command', 'disable', 0), ('text', 0, b), ('command', x, 'Comment'), ('text', 0, d),
              ('text', 0, e)]
    check(w, doc, tokens, 'name:' + case['name'])


def check(w, doc, tokens, label):
    m = extract(doc)
    w.obs('keys', keys(m.pofile))
    w.obs('disabled', keys(m.disabled_entries))
    want = seqs.extracted(tokens)
    live = [x for x, on in want if on]
    if live:
        w.reach('extracted')
    off = [x for x, on in want if not on]
    if off:
        w.reach('disabled')
    got = [k for k in keys(m.found_entries) if not is_ref(k[0])]
    w.check(w.eq([k for k, _ in got], live), 'extracted-' + label, (doc, got, live))
    w.check(w.eq([k for k in keys(m.pofile) if not is_ref(k[0])], dedupe(w, got)), 'in-file-' + label, (doc, got))
    w.check(w.eq([k for k, _ in keys(m.disabled_entries)], off), 'disabled-' + label, (doc, keys(m.disabled_entries), off))


def run(w, case):
    if 'name' in case:
        return name(w, case)
    t = {**seqs.DOCS, **seqs.LONG}[case['d']]
    options = ('',) + seqs.ABLE + ((('include', w.cat(['Included', w.text('i', 1)])),) if 'include' in case else ())
    cmds = [w.pick(f'c{i}', options) for i in range(seqs.slots(t) - ('c' in case))]
    if 'c' in case:
        cmds.insert(0, case['c'])
    doc, tokens = seqs.document(w, t, cmds, lambda n: w.cat(['T', n, w.text(n, 1)]) if n != 'd' or 'ref' not in case['d']
                                else w.cat(['d', w.text(n, 1)]))
    if 'ref' in case['d']:
        # the link and its reference are a message with the text before
        toks, link = [], None
        for k, n, x in tokens:
            if k == 'text' and n == 'b':
                x = w.cat(['[', x, '][1]'])
                if toks and toks[-1][0] == 'text':
                    toks[-1] = ('text', 'a', w.cat([toks[-1][2], ' ', x]))
                    continue
            if n != 'd':
                toks.append((k, n, x))
        tokens = toks
    check(w, doc, tokens, case['d'])
