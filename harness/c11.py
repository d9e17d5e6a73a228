"""C11: extracting again changes nothing."""
from harness import docs, pos
from harness.common import fill, extract, translate

BOUNDS = ('the scenarios of C09 with one entry (two in the thorough tier) and the document templates of harness/docs.py '
          'with new PO files, with texts of one symbolic character per hole; with and without locations, marking, removal, '
          'default translation, contexts and wrap widths 78, 12 and 0; po2md with wrap widths 80, 12 and 0')
REACH = ['changed', 'again', 'translated']
SETS = [(['t?'], ['', '']), (['ct?'], ['c', '']), (['?'], ['d', '']), (['rt?'], ['r', '']), (['tf'], ['l', 'i'])]
LONG = [(['t?', 't?'], ['', '']), (['t?', 'ct'], ['c', '']), (['r?', 't'], ['r', ''])]
OPTIONS = [{}, {'preserve_not_found': False}, {'mark_not_found_as_obsolete': False}, {'msgstr': 'Default'},
           {'location': False, 'wrapwidth': 0}]
WIDTHS = ((78, 80), (12, 12), (0, 0))


def cases(tier):
    cs = []
    for e, m in SETS + (LONG if tier == 'thorough' else []):
        for o in OPTIONS:
            cs.append({'e': e, 'm': m, 'o': o})
    for i, b in enumerate(docs.all_docs(['p'] if tier == 'quick' else ['p', 'ul', 'table'])):
        for j, ww in enumerate(WIDTHS):
            if tier == 'thorough' or i % 3 == j:
                cs.append({'d': b, 'w': ww})
    return cs


def again(w, info, **kw):
    before = w.read('a.po')
    w.obs('po', before)
    w.mtime_mark('a.po')
    _, changed = pos.update(w, w.read('d.md'), **kw)
    w.reach('again')
    w.check(w.eq(w.read('a.po'), before), 'same-bytes', info + (before, w.read('a.po')))
    w.check(not changed, 'no-change-reported', info)
    w.check(w.untouched('a.po'), 'not-rewritten', info)


def run(w, case):
    if 'd' in case:
        holes = {}
        doc = fill(w, docs.document(case['d']), holes, prefix='T')
        kw = {'wrapwidth': case['w'][0]}
        pos.update(w, doc, **kw)
        again(w, (case['d'],), **kw)
        kw = {'wrapwidth': case['w'][1]}
        p = translate(w.path('d.md'), w.path('a.po'), save=w.path('o.md'), **kw)
        before = w.read('o.md')
        w.mtime_mark('o.md')
        q = translate(w.path('d.md'), w.path('a.po'), save=w.path('o.md'), _check_saved_files_changed=True, **kw)
        w.reach('translated')
        w.check(w.eq(w.read('o.md'), before), 'same-markdown', (doc, before, q.output))
        w.check(w.eq(p.output, q.output), 'same-output', doc)
        w.check(q._saved_files_changed is False, 'no-markdown-change-reported', doc)
        w.check(w.untouched('o.md'), 'markdown-not-rewritten', doc)
        return
    es = pos.entries(w, case['e'])
    pos.write(w, 'a.po', es)
    doc, _ = pos.document(w, case['m'])
    po, changed = pos.update(w, doc, **case['o'])
    if changed:
        w.reach('changed')
    again(w, (es, doc), **case['o'])
