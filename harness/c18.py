"""C18: comparing entries is a total preorder consistent with equality of messages."""
import polib

from mdpo.po import find_entry_in_entries
from mdpo.polib import poentry__cmp__

BOUNDS = ('pairs and triples of entries with ids of 0 to 1 characters (2 for pairs in the thorough tier), contexts and '
          'plural ids None, empty or of one character, translations of one character, plural translations of one form, '
          'up to one location (two in pairs of the thorough tier), any obsolete marks, all BMP characters; all '
          'combinations of options for pairs, four for triples')
REACH = ['equal', 'less', 'found', 'missing']
BUDGET = {'quick': 60, 'thorough': 600}

OPTIONS = [{}, {'compare_obsolete': False}, {'compare_msgstr': False}, {'compare_occurrences': False},
           {'compare_obsolete': False, 'compare_msgstr': False},
           {'compare_obsolete': False, 'compare_occurrences': False},
           {'compare_msgstr': False, 'compare_occurrences': False},
           {'compare_obsolete': False, 'compare_msgstr': False, 'compare_occurrences': False}]
# (characters of the id, context, plural id, plural translations, locations); None stands for missing
SHAPES = [(1, None, None, 0, 0), (1, 1, None, 0, 0), (1, 0, None, 0, 1), (0, 1, 1, 1, 0), (1, None, 1, 1, 0),
          (1, None, 0, 0, 1), (1, None, 1, 0, 0)]


def cases(tier):
    cs = []
    sh = SHAPES + ([(2, 1, None, 0, 2), (1, 2, 1, 1, 1), (2, None, 2, 1, 0)] if tier == 'thorough' else [])
    for a in range(len(sh)):
        for b in range(a, len(sh)):
            for o in range(len(OPTIONS)):
                cs.append({'k': 'pair', 's': [list(sh[a]), list(sh[b])], 'o': o})
    tri = [0, 1, 2] if tier == 'quick' else [0, 1, 2, 4, 6]
    for a in tri:
        for b in tri:
            for c in tri:
                for o in (0, 4, 6, 7):
                    cs.append({'k': 'triple', 's': [list(sh[a]), list(sh[b]), list(sh[c])], 'o': o})
    for a in (0, 1, 4):
        for o in (0, 6, 7):
            cs.append({'k': 'find', 's': [list(sh[a]), list(sh[0]), list(sh[1])], 'o': o})
    return cs


def entry(w, name, shape):
    i, c, p, ps, occ = shape

    def text(f, n):
        return None if n is None else '' if n == 0 else w.text(name + f, n, 'any')
    e = polib.POEntry(msgid=text('id', i), msgctxt=text('ctx', c), msgstr=w.text(name + 'str', 1, 'any'),
                      occurrences=[(w.text(f'{name}o{k}', 1, 'any'), '1') for k in range(occ)],
                      obsolete=w.bool(name + 'obs'))
    e.msgid_plural = text('pl', p) or ''
    e.msgstr_plural = {0: w.text(name + 'ps', 1, 'any')} if ps else {}
    return e


def same(w, a, b, opts):
    """Are the entries equal, with those options?"""
    cs = [w.eq(a.msgid, b.msgid), w.eq(a.msgctxt or '', b.msgctxt or ''), w.eq(a.msgid_plural, b.msgid_plural)]
    if opts.get('compare_msgstr', True):
        cs += [w.eq(a.msgstr, b.msgstr), w.eq(sorted(a.msgstr_plural.items()), sorted(b.msgstr_plural.items()))]
    if opts.get('compare_obsolete', True):
        cs.append(w.iff(a.obsolete, b.obsolete))
    if opts.get('compare_occurrences', True):
        x, y = a.occurrences, b.occurrences
        cs.append(w.eq(x, y) if len(x) < 2 or len(y) < 2 else
                  w.any(w.eq(x, y), w.eq(x, y[::-1])))
    return w.all(*cs)


def sign(x):
    return (x > 0) - (x < 0)


def run(w, case):
    opts = OPTIONS[case['o']]
    es = [entry(w, 'abc'[k], s) for k, s in enumerate(case['s'])]
    if case['k'] == 'find':
        r = find_entry_in_entries(es[0], es[1:], **opts)
        idx = None if r is None else 1 if r is es[1] else 2
        w.obs('idx', idx)
        s1, s2 = same(w, es[0], es[1], opts), same(w, es[0], es[2], opts)
        if idx is None:
            w.reach('missing')
            w.check(w.all(w.neg(s1), w.neg(s2)), 'find-missing')
        else:
            w.reach('found')
            w.check(s1 if idx == 1 else w.all(w.neg(s1), s2), 'find-first')
        return
    a, b = es[0], es[1]
    ab = sign(poentry__cmp__(a, b, **opts))
    w.obs('ab', ab)
    if case['k'] == 'pair':
        ba = sign(poentry__cmp__(b, a, **opts))
        w.check(poentry__cmp__(a, a, **opts) == 0, 'reflexive')
        w.check(ab == -ba, 'antisymmetric', [ab, ba])
        w.reach('less' if ab else 'equal')
        w.check(w.iff(ab == 0, same(w, a, b, opts)), 'equal-iff-same:' + '-'.join(sorted(opts)), ab)
    else:
        bc = sign(poentry__cmp__(b, es[2], **opts))
        if ab <= 0 and bc <= 0:
            ac = sign(poentry__cmp__(a, es[2], **opts))
            w.check(ac <= 0, 'transitive', [ab, bc, ac])
            if ab < 0 or bc < 0:
                w.check(ac < 0, 'transitive-strict', [ab, bc, ac])
