"""C09: updating a PO file never loses or alters a translation."""
from harness import pos

BOUNDS = ('PO files of up to 2 entries (3 in the thorough tier), with and without translation and context, all combinations '
          'of obsolete and fuzzy marks, and documents of up to 2 messages (3 in the thorough tier): paragraphs, headings, '
          'list items, included, disabled, with contexts and link references; ids, contexts and translations of one symbolic '
          'character after a fixed one, that may coincide in any way; marking missing entries or not, with and without '
          'default translation, and wrap widths 78 and 0')
REACH = ['kept', 'recovered', 'missing', 'new', 'removed']
# entries, messages, options
SETS = [
    (['t?'], ['', '']), (['t?'], ['c', '']), (['ct?'], ['c', '']), (['?'], ['']), (['t?'], ['d', '']), (['t?'], ['l', 'h']),
    (['t?', 't?'], ['']), (['t?', 'tf'], ['', '']), (['t?', 'to'], ['', '']), (['t?', 'ct'], ['c', '']), (['ct?', 'ct'], ['c']),
    (['t?', 'o'], ['', '']), (['t?', 'to'], ['i', '']), (['rt?', 't'], ['r', '']), (['r?', 't'], ['r', '']),
]
LONG = [(['tf', 't', 'to'], ['', '']), (['t?', 't?'], ['', '']), (['t?', 'ct?'], ['c', '']), (['t?', 't?', 't?'], ['', '']), (['t?', 't?'], ['', '', '']), (['ct?', 't?'], ['c', 'c', '']),
        (['ct?', 'ct?', 't'], ['c', '']), (['t?', 'rt?', 'ct'], ['r', 'c']), (['t', 'tf', 'to', 'tof'], ['', ''])]


def cases(tier):
    cs = []
    for j, (e, m) in enumerate(SETS + (LONG if tier == 'thorough' else [])):
        cs.append({'e': e, 'm': m, 'o': {}})
        if tier == 'thorough' or j % 2 == 0:
            cs.append({'e': e, 'm': m, 'o': {'mark_not_found_as_obsolete': False}})
    for e, m in SETS[:6] + (SETS[6:] if tier == 'thorough' else []):
        cs.append({'e': e, 'm': m, 'o': {'preserve_not_found': False}})
        cs.append({'e': e, 'm': m, 'o': {'msgstr': 'Default'}})
    cs += [{'e': ['t?'], 'm': ['', ''], 'o': {'wrapwidth': 0}}, {'e': ['t?'], 'm': [''], 'o': {'location': False}}]
    return cs


def run(w, case):
    es = pos.entries(w, case['e'])
    pos.write(w, 'a.po', es)
    doc, ks = pos.document(w, case['m'])
    po, _ = pos.update(w, doc, **case['o'])
    w.obs('po', pos.show(po))
    info = (es, doc, pos.show(po))
    for e in es:
        here = pos.isin(w, e.key, ks)
        if here:
            w.reach('recovered' if e.obsolete else 'kept')
        elif case['o'].get('preserve_not_found') is False:
            w.reach('removed')
            continue
        else:
            w.reach('missing')
        got = pos.found(w, e.key, po, False if here else None)
        w.check(len(got) == 1, 'entry', info)
        if len(got) != 1:
            continue
        if e.msgstr != '':
            w.check(w.eq(got[0].msgstr, e.msgstr), 'translation', info)
        elif 'msgstr' not in case['o'] and 'r' not in case['e'][0]:
            w.check(w.eq(got[0].msgstr, ''), 'nothing-invented', info)
        if e.msgstr != '' or not e.obsolete:
            w.check(not e.fuzzy or 'fuzzy' in got[0].flags, 'fuzzy-kept', info)
            if e.msgid[0] != '[':
                w.check(e.fuzzy or 'fuzzy' not in got[0].flags, 'fuzzy-not-added', info)
    for k in ks:
        if not pos.isin(w, k, [e.key for e in es]):
            w.reach('new')
            got = pos.found(w, k, po)
            w.check(len(got) == 1 and not got[0].obsolete, 'new-entry', info)
            for e in got:
                ref = k[0][:1] == '[' and ']: ' in k[0]
                w.check(w.eq(e.msgstr, k[0] if ref else case['o'].get('msgstr', '')), 'new-translation', info)
                w.check(('fuzzy' in e.flags) == ref, 'new-fuzzy', info)
