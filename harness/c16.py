"""C16: exit codes report what the options ask for."""
import polib

from mdpo.md2po.__main__ import run as md2po
from mdpo.md2po2md.__main__ import run as md2po2md
from mdpo.mdpo2html.__main__ import run as mdpo2html
from mdpo.po import (
    check_empty_msgstrs_in_filepaths,
    check_fuzzy_entries_in_filepaths,
    check_obsolete_entries_in_filepaths,
)
from mdpo.po2md.__main__ import run as po2md

from harness import pos

BOUNDS = ('the four programs with combinations of --no-obsolete, --no-fuzzy, --no-empty-msgstr and --check (each one for PO files of one entry), saving or not; '
          'PO files of up to 3 entries (4 in the thorough tier), each free to be obsolete and fuzzy, with and without '
          'translation, one symbolic character in each text, one or two PO files or languages; documents of 1 message that may '
          'be one of the entries; previous outputs missing, or with the same content or other')
REACH = ['code-0', 'code-2', 'code-3', 'code-4', 'code-5', 'changed', 'same', 'many', 'none']
FLAGS = {'o': '--no-obsolete', 'f': '--no-fuzzy', 'e': '--no-empty-msgstr'}
PROGS = {'md2po': md2po, 'po2md': po2md, 'mdpo2html': mdpo2html, 'md2po2md': md2po2md}


def cases(tier):
    cs = []
    for p in PROGS:
        for e in ['?'], ['t?'], ['', 't'], ['tfo', 'to', 'o'], ['tf', 'f', 'tf'], ['', '', ''], []:
            cs.append({'p': p, 'e': e, 's': 1})
        if p != 'md2po2md':
            cs += [{'p': p, 'e': ['?'], 's': 0}, {'p': p, 'e': ['t', 'o'], 's': 0}]
        cs.append({'p': p, 'e': ['t'], 's': 1, 'prev': True})
        cs.append({'p': p, 'e': ['f'], 's': 1, 'prev': True})
        if p != 'md2po':
            cs += [{'p': p, 'e': [a], 'f': [b], 's': 1} for a, b in (('?', 't'), ('t', 't?'), ('to', 'tf'), ('', ''))]
        if tier == 'thorough':
            cs += [{'p': p, 'e': e, 's': 1} for e in (['t?', '?'], ['?', 't?', 't?'], ['tfo', 'f', 'to', ''])]
            cs += [{'p': p, 'e': e, 's': 1, 'prev': True} for e in (['t?'], ['?'])]
    return cs


def run(w, case):
    p = case['p']
    es = pos.entries(w, ['#' + e for e in case['e']])
    t = es[0].msgid if es and w.pick('known', [False, True]) else w.cat(['T', w.text('m', 1)])
    src = w.write('d.html', w.cat(['<p>', t, '</p>\n'])) if p == 'mdpo2html' else w.write('d.md', w.cat([t, '\n']))
    names = ['a.po'] if p != 'md2po2md' else ['o/es/d.md.po']
    pos.write(w, names[0], es)
    if 'f' in case:
        names.append('b.po' if p != 'md2po2md' else 'o/fr/d.md.po')
        pos.write(w, names[1], pos.entries(w, ['#' + e for e in case['f']], name='g'))
    args = [src, '-q']
    outs = []
    if p == 'md2po':
        args += ['-p', w.path(names[0])]
        if case['s']:
            args.append('-s')
            outs = names[:]
    elif p == 'md2po2md':
        for n in names:
            args += ['-l', n.split('/')[1]]
            outs.append(n[:-3])
        args += ['-o', w.path('o/{lang}')]
        outs += names
    else:
        for n in names:
            args += ['-p', w.path(n)]
        if case['s']:
            args += ['-s', w.path('out')]
            outs = ['out']
    prev = w.pick('prev', ['no', 'same', 'changed']) if 'prev' in case else 'no'
    if prev != 'no':
        w.main(PROGS[p], args)
        if prev == 'changed':
            n = w.pick('n', outs)
            if n[-3:] == '.po':
                pos.write(w, n, es)
            else:
                w.write(n, w.cat([w.read(n)[:-1], w.text('x', 1)]))
    sets = ('', 'o', 'f', 'e', 'of', 'fe', 'oe', 'ofe') if case['e'] in (['?'], ['t', 'o']) else ('', 'o', 'fe', 'ofe')
    flags = [FLAGS[c] for c in w.pick('flags', sets)]
    check = bool(outs) and w.pick('check', [False, True])
    before = [w.read(n) if w.exists(n) else None for n in outs]
    code, out, err = w.main(PROGS[p], args + flags + ['--check'] * check)
    code = code[1] if isinstance(code, tuple) else code
    w.obs('code', code)
    w.obs('err', err)
    after = [w.read(n) for n in outs]
    changed = any(b is None or not w.eq(a, b) for a, b in zip(after, before))
    if outs:
        w.reach('changed' if changed else 'same')
    want = 2 if check and changed else 0
    locs = []
    for o, n, f, is_one in (
        ('--no-obsolete', 3, check_obsolete_entries_in_filepaths, lambda e: e.obsolete),
        ('--no-fuzzy', 4, check_fuzzy_entries_in_filepaths, lambda e: 'fuzzy' in e.flags),
        ('--no-empty-msgstr', 5, check_empty_msgstrs_in_filepaths, lambda e: e.msgstr == ''),
    ):
        if o in flags:
            number = sum(bool(is_one(e)) for x in names for e in polib.pofile(w.path(x)))
            ls = list(f([w.path(x) for x in names]))
            w.check(len(ls) == number, 'number' + o, (ls, number))
            if number:
                want = n
            if number > 2:
                w.reach('many')
            locs += ls
    w.reach(f'code-{want}')
    if not locs:
        w.reach('none')
    info = (case, flags, code, err)
    w.check(code == want, 'exit-code', (want, info))
    got = [x for x in err.split('\n') if '.po:' in x]
    got = [x[x.index(w.root):] for x in got]
    # po2md and mdpo2html take the PO files in any order
    w.check(sorted(got) == sorted(locs), 'locations', (locs, info))
