"""C10: exactly the entries not found are obsolete."""
from harness import pos

BOUNDS = ('PO files of up to 2 entries (4 in the thorough tier) as in C09, documents of up to 2 messages (3 in the thorough '
          'tier): paragraphs, headings, list items, included, disabled, with contexts and link references; marking missing '
          'entries, not marking them and removing them, with and without default translation')
REACH = ['live', 'recovered', 'obsoleted', 'still-obsolete', 'removed', 'both']
SETS = [
    (['t?'], ['', '']), (['t?'], ['c', '']), (['ct?'], ['c', '']), (['?'], ['']), (['t?'], ['d', '']), (['t?'], ['dl', 'h']),
    (['t?', 't'], ['d', '']), (['t?', 'to'], ['', '']), (['t?', 'ct'], ['c', '']), (['to', 'to'], ['', '']),
    (['t?'], []), (['t?'], ['d']), (['o', 'co'], ['i', 'c']), (['r?', 't'], ['r', '']), (['', 'r'], ['r', 'd']), (['ct?', 'c'], ['cd', 'c']),
]
LONG = [(['t?', 't?'], ['', '']), (['to', 'to', 'to'], ['', '']), (['to', 'o', 't', ''], ['', '']),
        (['t?', 't?'], ['', 'd', '']), (['ct?', 't?'], ['c', 'c', '']), (['t?', 'rt?', 'ct'], ['r', 'c'])]
OPTIONS = [{}, {'preserve_not_found': False}, {'mark_not_found_as_obsolete': False}, {'msgstr': 'Default'},
           {'msgstr': 'Default', 'preserve_not_found': False}]


def cases(tier):
    cs = []
    for e, m in SETS + (LONG if tier == 'thorough' else []):
        for o in OPTIONS[:2]:
            cs.append({'e': e, 'm': m, 'o': o})
    for e, m in SETS if tier == 'thorough' else SETS[:6]:
        for o in OPTIONS[2:]:
            cs.append({'e': e, 'm': m, 'o': o})
    return cs


def run(w, case):
    es = pos.entries(w, case['e'])
    pos.write(w, 'a.po', es)
    doc, ks = pos.document(w, case['m'])
    po, _ = pos.update(w, doc, **case['o'])
    w.obs('po', pos.show(po))
    info = (es, doc, pos.show(po))
    for k in ks:
        got = pos.found(w, k, po)
        if 'mark_not_found_as_obsolete' in case['o']:
            w.check(sum(not e.obsolete for e in got) == 1, 'one-live', info)
        else:
            w.check(len(got) == 1 and not got[0].obsolete, 'one-live', info)
        if len(got) == 2:
            w.reach('both')
    for e in es:
        here = pos.isin(w, e.key, ks)
        got = pos.found(w, e.key, po)
        if 'mark_not_found_as_obsolete' in case['o']:
            w.check(sum(bool(g.obsolete) == e.obsolete for g in got) == 1, 'mark-unchanged', info)
        elif here:
            w.reach('recovered' if e.obsolete else 'live')
        elif 'preserve_not_found' in case['o']:
            w.reach('removed')
            w.check(not got, 'removed', info)
        else:
            w.reach('still-obsolete' if e.obsolete else 'obsoleted')
            w.check(len(got) == 1 and bool(got[0].obsolete), 'marked', info)
    # nothing else
    for p in po:
        k = pos.entry_key(p)
        w.check(pos.isin(w, k, ks) or pos.isin(w, k, [e.key for e in es]), 'nothing-else', info)
