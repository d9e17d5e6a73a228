"""C17: the obsolete, fuzzy and empty checks find exactly those entries."""
import polib

from mdpo.po import (
    check_empty_msgstrs_in_filepaths,
    check_fuzzy_entries_in_filepaths,
    check_obsolete_entries_in_filepaths,
)

from harness import pos
from harness.common import but

BOUNDS = ('PO files of up to 3 entries (4 in the thorough tier) of 13 shapes: with and without translation, context, '
          'comments, flags, locations, texts of several lines or wrapped, obsolete and fuzzy; one symbolic character in each '
          'of their texts, any BMP character for files of one entry that is not wrapped; headers without and with metadata, comments and fuzzy mark; wrap widths 78, 12 and 0; two files at '
          'once; and files written by md2po from documents of up to 2 messages')
REACH = ['obsolete', 'fuzzy', 'empty', 'none', 'program']
# c: context, t: translation, m: id of several lines, M: translation of several lines, W: long id, w: long translation,
# k: comments, f: fuzzy, p: another flag, l: locations, o: obsolete
SHAPES = ['', 't', 'c', 'ct', 'm', 'mt', 'mM', 'tf', 'fpk', 'o', 'otf', 'ock', 'Wl', 'wk', 'owW', 'tfcl', 'om', 'oM']
PAIRS = [('', 't'), ('t', ''), ('o', 'o'), ('otf', 'o'), ('tf', 'tf'), ('f', 'otf'), ('', 'ock'), ('m', 'm'), ('fpk', 'mM'),
         ('Wl', 'ow'), ('tfcl', ''), ('om', 'oM'), ('t', 'o'), ('W', 'fW')]
HEADS = ('', 'meta', 'fuzzy', 'comment', 'fuzzymeta')


def cases(tier):
    cs = [{'s': [s], 'h': h, 'w': ww} for s in SHAPES for h in HEADS for ww in ((78, 12) if tier == 'thorough' else (78,))]
    cs += [{'s': [s], 'h': '', 'w': ww} for s in ('W', 'w', 'owW', 'ck', 'ct', 'oct', 'm', 'Wf') for ww in (12, 0)]
    cs += [{'s': list(p), 'h': HEADS[i % len(HEADS)], 'w': 78} for i, p in enumerate(PAIRS)]
    cs += [{'s': [], 'h': h, 'w': 78} for h in HEADS]
    cs += [{'s': ['t', 'o', 'otf'], 'h': '', 'w': 78}, {'s': ['f', 'm', 'tf'], 'h': 'fuzzy', 'w': 78}]
    cs += [{'s': [s], 'h': 'meta', 'w': 78, 'two': t} for s, t in (('o', ['ot']), ('', ['t', 'f']), ('tf', ['']))]
    if tier == 'thorough':
        cs += [{'s': [a, b], 'h': h, 'w': 78} for a in SHAPES for b in SHAPES if 'o' not in a or 'o' in b
               for h in ('', 'fuzzymeta')]
        cs += [{'s': ['', 'tf', 'o', 'otf'], 'h': h, 'w': ww} for h in HEADS for ww in (78, 12, 0)]
    cs += [{'k': 'md2po', 'e': e, 'm': m, 'w': ww} for e, m in ((['t?'], ['', 'c']), (['?'], ['r']), (['c?'], ['']))
           for ww in (78, 12)]
    return cs


def lines(text):
    return text.count('\n')


def posfile(w, case, shapes, name):
    po = polib.POFile(wrapwidth=case['w'])
    if 'meta' in case['h']:
        po.metadata = {'Content-Type': 'text/plain; charset=utf-8', 'Project-Id-Version': w.text(name + 'h', 1, 'word')}
    if 'fuzzy' in case['h']:
        po.metadata_is_fuzzy = ['fuzzy']
    if 'comment' in case['h']:
        po.header = w.cat(['fuzzy ', w.text(name + 'H', 1, but('\n\r'))])
    at = lines(str(po))
    ranges = []
    dom = 'any' if len(shapes) == 1 and not set('wW') & set(shapes[0]) and not case['h'] else 'word'
    for i, s in enumerate(shapes):
        def t(f, base, s=s, i=i):
            x = w.cat([base, w.text(f'{name}{f}{i}', 1, dom)])
            if (f == 'id' and 'm' in s) or (f == 'str' and 'M' in s):
                x = w.cat([base, '\n', x])
            if (f == 'id' and 'W' in s) or (f == 'str' and 'w' in s):
                x = w.cat([base, ' lorem ipsum dolor', ' ', x, ' lorem ipsum dolor' * 5])
            return x
        comment = {}
        if 'k' in s:
            comment = {'comment': w.cat(['C', w.text(f'{name}k{i}', 1, but('\n\r')), '\nfuzzy']),
                       'tcomment': w.cat([w.text(f'{name}tk{i}', 1, but('\n\r')), 'fuzzy'])}
        flags = (['python-format'] if 'p' in s else []) + (['fuzzy'] if 'f' in s else [])
        e = polib.POEntry(
            msgid=t('id', 'I'), msgstr=t('str', 'S') if set(s) & set('tMw') else '',
            msgctxt=t('ctx', '') if 'c' in s else None, flags=flags, obsolete='o' in s,
            occurrences=[('a.md', 'block 1 (paragraph)'), ('fuzzy.md', 'block 2 (header)')] if 'l' in s else [], **comment)
        po.append(e)
        n = lines(e.__unicode__(case['w']))
        ranges.append((e, at + 2, at + 1 + n))
        at += 1 + n
    return po, ranges


def expect(w, label, got, ranges, prefix, info):
    """One location for each of those entries, in order."""
    w.obs(label, got)
    w.check(len(got) == len(ranges), 'number-' + label, (info, got, ranges))
    w.reach(label if ranges else 'none')
    if len(got) == len(ranges):
        for g, (p, e, a, b) in zip(got, ranges):
            w.check(g[:len(p) + 1] == p + ':' and a <= int(g[len(p) + 1:]) <= b, 'location-' + label, (info, got, ranges))


def run(w, case):
    files = []
    if 'k' in case:
        es = pos.entries(w, case['e'])
        pos.write(w, 'a.po', es)
        doc, _ = pos.document(w, case['m'])
        pos.update(w, doc, wrapwidth=case['w'])
        po = polib.pofile(w.path('a.po'), wrapwidth=case['w'])
        at = lines(str(po)) - sum(1 + lines(e.__unicode__(case['w'])) for e in po)
        ranges = []
        for e in [e for e in po if not e.obsolete] + [e for e in po if e.obsolete]:
            n = lines(e.__unicode__(case['w']))
            ranges.append((e, at + 2, at + 1 + n))
            at += 1 + n
        w.reach('program')
        files.append(('a.po', po, ranges))
    else:
        po, ranges = posfile(w, case, case['s'], 'e')
        po.save(w.path('a.po'))
        files.append(('a.po', po, ranges))
        if 'two' in case:
            po, ranges = posfile(w, case, case['two'], 'f')
            po.save(w.path('b.po'))
            files.append(('b.po', po, ranges))
    paths = [w.path(f) for f, _, _ in files]
    allr = [(w.path(f), e, a, b) for f, _, rs in files for e, a, b in rs]
    info = [str(po) for _, po, _ in files]
    expect(w, 'obsolete', list(check_obsolete_entries_in_filepaths(paths)), [r for r in allr if r[1].obsolete], paths, info)
    expect(w, 'fuzzy', list(check_fuzzy_entries_in_filepaths(paths)), [r for r in allr if 'fuzzy' in r[1].flags], paths, info)
    expect(w, 'empty', list(check_empty_msgstrs_in_filepaths(paths)), [r for r in allr if r[1].msgstr == ''], paths, info)
