"""C23: md2po2md does what md2po and po2md do."""
import os

from harness import pos
from harness.common import translate
from mdpo.md2po.__main__ import run as md2po
from mdpo.md2po2md import markdown_to_pofile_to_markdown
from mdpo.md2po2md.__main__ import run as md2po2md
from mdpo.po import (
    check_empty_msgstrs_in_filepaths,
    check_fuzzy_entries_in_filepaths,
    check_obsolete_entries_in_filepaths,
)
from mdpo.po2md.__main__ import run as po2md

SCHEMAS = ('out/{lang}', 'out/{lang}/', 'out/{lang}/{basename}', '{lang}/{basename}.md', 'out/{lang}/{basename}.{ext}',
           'out/{basename}/{lang}', 'out/x-{lang}/sub', 'o.p/{lang}', '{basename}.{lang}.txt', 'out/{lang}-{basename}')
# name: (md2po, po2md, md2po2md) options
OPTIONS = {
    'none': ([], [], []),
    'po-width': (['-w', '20'], [], ['--po-wrapwidth', '20']),
    'po-inf': (['-w', 'inf'], [], ['--po-wrapwidth', 'inf']),
    'md-width': ([], ['-w', '20'], ['--md-wrapwidth', '20']),
    'md-zero': ([], ['-w', '0'], ['--md-wrapwidth', '0']),
    'nolocation': (['--nolocation'], [], ['--nolocation']),
    'codeblocks': (['--include-codeblocks'], [], ['--include-codeblocks']),
    'alias': (['--command-alias', 'off:disable'], ['--command-alias', 'off:mdpo-disable'], ['--command-alias', 'off:disable']),
    'extension': (['-x', 'tables', 'strikethrough'], None, ['-x', 'tables', 'strikethrough']),
    'encoding': (['--md-encoding', 'latin-1'], ['--md-encoding', 'latin-1'], ['--md-encoding', 'latin-1']),
    'po-encoding': (['--po-encoding', 'utf-8'], ['--po-encoding', 'utf-8'], ['--po-encoding', 'utf-8']),
    'all': (['-w', '30', '--nolocation', '--include-codeblocks', '--command-alias', 'off:disable'],
            ['-w', '40', '--command-alias', 'off:disable'],
            ['--po-wrapwidth', '30', '--nolocation', '--include-codeblocks', '--command-alias', 'off:disable',
             '--md-wrapwidth', '40']),
}
DOCS = {
    'p': ['T{a}\n\nT{b}\n'],
    'more': ['T{a}\n\n- T{b} lorem ipsum dolor sit amet consectetur\n\n```\ncode T{c}\n```\n\n'
             '<!-- off -->\n\nT{d}\n\n<!-- mdpo-enable -->\n\n[T{e}][1] $x$ ~~sed~~\n\n[1]: https://foo\n'],
    'long': ['T{a} lorem ipsum dolor sit amet, consectetur adipiscing elit, sed do eiusmod tempor incididunt ut labore et '
             'dolore magna aliqua\n\nT{b}\n'],
    'two': ['T{a}\n\nT{b}\n', '# T{c}\n\nT{a}\n'],
    'empty': [''],
}
BOUNDS = ('10 path schemas, 12 groups of options, 1 to 3 languages (one of them with a dot, one named as a file), 1 or 2 '
          'Markdown files; previous PO files missing or with up to 3 entries (each may be a message of the document, be '
          'obsolete or fuzzy, and have a translation), previous Markdown outputs missing, equal or other; one symbolic '
          'character in each text; through the command line and the function')
REACH = ['changed', 'not-changed', 'obsolete', 'fuzzy', 'empty', 'translated', 'previous']


def cases(tier):
    cs = []
    for s in range(len(SCHEMAS)):
        for d in ('p', 'two'):
            cs += [{'s': s, 'd': d, 'o': 'none', 'l': ls, 'e': ['t']} for ls in (['es'], ['es', 'fr'])]
        cs += [{'s': s, 'd': 'p', 'o': 'none', 'l': ['es_ES.UTF-8'], 'e': []},
               {'s': s, 'd': 'two', 'o': 'none', 'l': ['d', 'es', 'pt_BR'], 'e': None}]
    for o in OPTIONS:
        cs += [{'s': 0, 'd': 'more', 'o': o, 'l': ['es', 'fr'], 'e': None}, {'s': 2, 'd': 'more', 'o': o, 'l': ['es'], 'e': ['t', 'tf']},
               {'s': 0, 'd': 'long', 'o': o, 'l': ['es'], 'e': ['t', 'o']}, {'s': 0, 'd': 'empty', 'o': o, 'l': ['es'], 'e': ['tf']}]
    for e in (['t', 't'], ['?'], ['t?'], ['t?', '?'], ['to', 'tf', '']):
        for d in ('p', 'two') if len(e) == 1 or tier == 'thorough' else ('p',):
            cs.append({'s': 0, 'd': d, 'o': 'none', 'l': ['es'], 'e': e})
    for d in ('p', 'two'):
        cs += [{'s': 0, 'd': d, 'o': 'none', 'l': ['es', 'fr'], 'e': e, 'again': True} for e in (None, ['t'], ['to', 'tf'])
               if d == 'p' or not e or tier == 'thorough']
    cs += [{'s': 0, 'd': d, 'o': o, 'l': ['es', 'fr'], 'e': ['t'], 'api': True} for d in ('p', 'two', 'more')
           for o in ('none', 'po-width', 'md-width', 'nolocation', 'codeblocks', 'alias', 'extension')]
    if tier == 'thorough':
        cs += [{'s': s, 'd': d, 'o': o, 'l': ['es', 'fr'], 'e': ['t']} for s in range(len(SCHEMAS)) for d in DOCS for o in OPTIONS]
        cs += [{'s': 0, 'd': d, 'o': o, 'l': ['es'], 'e': e} for d in ('p', 'two', 'more') for o in ('none', 'all')
               for e in (['t?', 't?'], ['t?', '?', 't'], ['f', 't?', 'o'])]
    return cs


def paths(schema, lang, name):
    """(PO file, Markdown file) of a schema."""
    base, ext = os.path.splitext(name)
    path = schema.replace('{lang}', lang).replace('{basename}', base).replace('{ext}', ext[1:])
    last = schema.split('/')[-1]
    if '.' not in last and last != '{basename}':  # a directory
        path = path.rstrip('/') + '/' + name
    return path + ('' if path.endswith('.po') else '.po'), path


def letter(w, name, options):
    return w.text(name, 1, ((0xe0, 0xf6),) if 'latin-1' in options else 'wletter')


def run(w, case):
    o1, o2, o3 = OPTIONS[case['o']]
    md_enc = 'latin-1' if 'latin-1' in o3 else 'utf-8'
    schema = SCHEMAS[case['s']]
    sources = []
    for i, d in enumerate(DOCS[case['d']]):
        parts = d.split('{')
        out = [parts[0]]
        for x in parts[1:]:
            out += [x[0], letter(w, x[0], o3), x[2:]]
        text = w.cat(out)
        path = w.write(f'src/{"de"[i]}.md', text, md_enc)
        sources.append(path)
    first = w.cat(['Ta', letter(w, 'a', o3)])
    w.write('alt/x', '')
    es = None
    if case['e'] is not None:
        es = pos.entries(w, ['#' + x for x in case['e']], dom=((0xe0, 0xf6),) if md_enc != 'utf-8' else 'wletter')
        # the first entry may be the first message
        if es and w.pick('known', [True, False]):
            es[0].msgid = first
    targets = [(f, lang, *paths(schema, lang, os.path.basename(f))) for f in sources for lang in case['l']]
    for n, (f, lang, po, md) in enumerate(targets):
        if es is not None:
            pos.write(w, po, es)
            pos.write(w, f'alt/{n}.po', es)
    run_, args = md2po2md, [w.path('src') + '/*.md', '-o', schema, *o3]
    for lang in case['l']:
        args += ['-l', lang]
    check = w.pick('check', [False, True])
    # the codes of the reports prevail over the one of the changes
    flags = [] if check else ['--no-obsolete', '--no-fuzzy', '--no-empty-msgstr']
    cwd = os.getcwd()
    os.chdir(w.root)
    try:
        if case.get('again'):
            w.main(run_, args)
            change = w.pick('change', ['', 'md', 'po'])
            n = w.pick('n', range(len(targets)))
            if change == 'md':
                w.write(targets[n][3], 'Other\n')
            elif change == 'po':
                pos.write(w, targets[n][2], pos.entries(w, ['#t'], name='z', dom=((0xe0, 0xf6),) if md_enc != 'utf-8' else 'wletter'))
            for i, (f, lang, po, md) in enumerate(targets):
                for src, dst in ((po, f'alt/{i}.po'), (md, f'alt/{i}.md')):
                    if w.exists(src):
                        w.write(dst, w.read(src))
            w.reach('previous')
        before = [w.read(x) if w.exists(x) else None for t in targets for x in t[2:]]
        if case.get('api'):
            kw = {'none': {}, 'po-width': {'po_wrapwidth': 20}, 'md-width': {'md_wrapwidth': 20}, 'nolocation': {'location': False},
                  'codeblocks': {'include_codeblocks': True}, 'alias': {'command_aliases': {'off': 'disable'}},
                  'extension': {'extensions': ['tables', 'strikethrough']}}[case['o']]
            r = markdown_to_pofile_to_markdown(case['l'], args[0], schema, _check_saved_files_changed=check, no_obsolete=True,
                                               no_fuzzy=True, no_empty_msgstr=True, **kw)
            lists = [list(x) for x in r[1:]]
            changed = r[0]
        else:
            code, _, err = w.main(run_, args + flags + ['--check'] * check)
            lines = err.split('\n')
            lists = None
            changed = code
    finally:
        os.chdir(cwd)
    after = [w.read(x, md_enc if x == t[3] else 'utf-8') for t in targets for x in t[2:]]
    w.obs('after', after)
    # the two programs
    codes, reports = [], [[], [], []]
    for n, (f, lang, po, md) in enumerate(targets):
        po_, md_ = w.path(f'alt/{n}.po'), w.path(f'alt/{n}.md')
        c, _, _ = w.main(md2po, [f, '-p', po_, '-s', '-q', '--check', *o1])
        codes.append(c)
        if o2 is None:
            p = translate(f, [po_], save=md_, extensions=['tables', 'strikethrough'], wrapwidth=80, _check_saved_files_changed=True)
            codes.append(2 if p._saved_files_changed else 0)
        else:
            c, _, _ = w.main(po2md, [f, '-p', po_, '-s', md_, '-q', '--check', *o2])
            codes.append(c)
        want = [w.read(f'alt/{n}.po'), w.read(f'alt/{n}.md', md_enc)]
        w.check(w.eq(after[2 * n], want[0]), f"po-file:{case['o']}", (case, po, after[2 * n], want[0]))
        w.check(w.eq(after[2 * n + 1], want[1]), f"md-file:{case['o']}", (case, md, after[2 * n + 1], want[1]))
        if es and es[0].msgstr and w.eq(es[0].msgid, first) and es[0].msgstr in want[1]:
            w.reach('translated')
        for x, g in zip(reports, (check_obsolete_entries_in_filepaths, check_fuzzy_entries_in_filepaths,
                                  check_empty_msgstrs_in_filepaths)):
            x += [loc.replace(po_, po) for loc in g([po_])]
    codes = [c[1] if isinstance(c, tuple) else c for c in codes]
    w.check(set(codes) <= {0, 2}, 'programs', codes)
    names = ('obsolete', 'fuzzy', 'empty')
    for x, n in zip(reports, names):
        if x:
            w.reach(n)
    w.reach('changed' if 2 in codes else 'not-changed')
    reports = [[x.replace(w.root + '/', '') for x in r] for r in reports]
    if lists is not None:
        lists = [[x.replace(w.root + '/', '') for x in r] for r in lists]
        w.check([sorted(x) for x in lists] == [sorted(x) for x in reports], 'reports', (lists, reports))
        w.check(changed == (2 in codes if check else None), 'changed', (changed, codes))
    else:
        got = sorted(x.split(' ')[-1].replace(w.root + '/', '') for x in lines if '.po:' in x)
        w.check(got == (sorted(sum(reports, [])) if flags else []), 'reports', (got, reports))
        want = 2 if check and 2 in codes else 0
        for x, n in zip(reports, (3, 4, 5)):
            if x and flags:
                want = n
        w.check(changed == want, 'changed', (changed, want, codes))
