"""C26: files are extracted independently of each other."""
import polib

from harness.common import entry_key, extract, fill
from mdpo.md2po.__main__ import run as md2po

DOCS = {
    'p': '«a»\n\n«b»\n',
    'end': '«a»\n\n@\n',
    'ends': '@\n\n«a»\n\n@\n',
    'first': '@\n\n«a»\n\n«b»\n',
    'code': '```\n«a»\n```\n\n«b»\n',
    'code-end': '«a»\n\n@\n\n```\n«b»\n```\n',
    'indented': '@\n\n    «a»\n\n«b»\n',
    'ref': '[«a»][1] [«b»][2]\n\n[1]: /«c»\n[2]: /«d» "«e»"\n',
    'ref-other': '[«a»][2]\n\n[1]: /«c»\n',
    'ref-none': '«a» [«b»][1] [2]\n',
    'ref-end': '[«a»][1]\n\n@\n\n[1]: /«b»\n',
    'open-code': '«a»\n\n```\n«b»\n',
    'open-html': '<div>\n«a»\n',
    'open-comment': '«a»\n\n<!-- mdpo-disable\n',
    'ul': '- «a»\n  - «b»\n',
    'ol': '1. «a»\n   1. «b»\n      - «c»\n',
    'ul-code': '- «a»\n\n  ```\n  «b»\n  ```\n',
    'quote': '> «a»\n>\n> > «b»\n',
    'quote-ul': '> 1. «a»\n>\n>    «b»\n',
    'table': '| «a» |\n| --- |\n| «b» |\n',
    'h': '# «a»\n\n«b»\n===\n',
    'math': '«a»\n\n$$«b»$$\n',
    'spans': '*«a»* [«b»](«c» "«d»") ![«e»](x) `«f»` [[«g»]]\n',
    'open-spans': '**«a» [«b» `«c»\n',
    'empty': '',
    'hr': '***\n\n«a»\n\n***\n',
}
COMMANDS = ('disable', 'disable-next-block', 'disable-next-line', 'enable-next-block', 'enable-next-line', 'include-codeblock',
            'disable-codeblock', 'include-codeblocks', 'disable-codeblocks', 'enable', ('context', 'Someone'),
            ('translator', 'Note'), ('include', 'Included'))
BOUNDS = ('2 files (and 3 in some cases, in all those of the thorough tier) from the 26 documents of harness/c26.py, with any of '
          'the commands at the end, the start or before code; with and without code blocks, with locations; plain text; texts of '
          'one symbolic character, different or free to be the same in all files; by a list, a glob or the command line')
REACH = ['together', 'command', 'repeated', 'reference']


def cases(tier):
    cs = []
    names = list(DOCS)
    for i, a in enumerate(names):
        if '@' in DOCS[a]:
            for b in ('p', 'code', 'ref', 'ul', 'table', 'open-code') if tier == 'quick' else names:
                cs.append({'d': [a, b], 'code': a == 'ref-end'})
            cs.append({'d': [a, 'code'], 'code': True})
        else:
            for j, b in enumerate(names):
                if '@' not in DOCS[b] and (tier == 'thorough' or (i + j) % 3 == 0):
                    cs.append({'d': [a, b], 'code': (i + j) % 2 == 0})
    cs += [{'d': d, 'code': c} for d in (['p', 'p', 'p'], ['ref', 'ref-none', 'ref'], ['ul', 'empty', 'ol'], ['end', 'empty', 'p'],
                                         ['code', 'hr', 'h'], ['end', 'code', 'code-end']) for c in (False, True)]
    cs += [{'d': d, 'code': True, 'same': True} for d in (['p', 'p'], ['ref', 'ref'], ['ul', 'quote'], ['end', 'p'], ['code', 'p'])]
    cs += [{'d': d, 'code': False, 'how': h} for d in (['p', 'ref'], ['end', 'code'], ['ref', 'p'], ['open-code', 'ul'])
           for h in ('glob', 'cli', 'plain')]
    if tier == 'thorough':
        cs += [{'d': [a, b, c], 'code': True} for a in ('ends', 'ref', 'open-code', 'spans') for b in ('empty', 'first', 'ol', 'ref')
               for c in ('code', 'p', 'ref-none', 'table')]
    return cs


def joined(entries):
    # locations with spaces are split when they are read from a PO file
    return [[k, t, ' '.join(':'.join(y for y in x if y) for x in o)] for k, t, o in entries]


def seen(m):
    return [[entry_key(e), e.tcomment or '', list(e.occurrences), 'fuzzy' in e.flags] for e in m.found_entries]


def run(w, case):
    files, slots = [], 0
    for i, d in enumerate(case['d']):
        t = DOCS[d]
        while '@' in t:
            c = w.pick(f'c{slots}', COMMANDS)
            slots += 1
            c, x = c if isinstance(c, tuple) else (c, '')
            t = t.replace('@', f'<!-- mdpo-{c} {x} -->' if x else f'<!-- mdpo-{c} -->', 1)
            w.reach('command')
        if 'same' in case:
            doc = fill(w, t.replace('«', f'T«x{i}'), {}, 1)
        else:
            doc = fill(w, t.replace('«', f'«{"uvw"[i]}'), {}, 1, prefix='T')
        files.append(w.write(f'src/{"dfg"[i]}.md', doc))
    how = case.get('how')
    kw = {'include_codeblocks': case['code']}
    if how == 'plain':
        kw['plaintext'] = True
    alone = [extract([f], **kw) for f in files]
    want = sum([seen(m) for m in alone], [])
    if how == 'glob':
        m = extract(w.path('src/*.md'), **kw)
        # in any order
        got = seen(m)
        orders = [sum([seen(alone[i]) for i in o], []) for o in ((0, 1), (1, 0))]
        w.check(any(w.eq(got, x) for x in orders), 'glob', (case, got, orders))
        return
    if how == 'cli':
        r = w.main(md2po, [*files, '-p', w.path('a.po'), '-s', '-q'])
        w.check(r[0] == 0 or r[0][-1] == 0, 'cli-exit', r)
        want = [x[:3] for x in want]
        got = [[entry_key(e), e.tcomment or '', list(e.occurrences)] for e in polib.pofile(w.path('a.po'))]
        once = []
        for x in want:
            if not any(w.eq(x[0], y[0]) for y in once):
                once.append(x)
        w.obs('cli', got)
        w.check(w.eq(joined(got), joined(once)), 'cli', (case, got, once))
        return
    m = extract(files, **kw)
    got = seen(m)
    w.obs('got', got)
    w.reach('together')
    w.check(w.eq(got, want), 'found', (case, got, want))
    w.check(w.eq([entry_key(e) for e in m.disabled_entries], [entry_key(e) for x in alone for e in x.disabled_entries]),
            'disabled', (case, got))
    if any(k[0][:1] == '[' and ']: ' in k[0] for k, *_ in got):
        w.reach('reference')
    # the PO file has each message once
    once = []
    for k, *_ in got:
        if any(w.eq(k, x) for x in once):
            w.reach('repeated')
        else:
            once.append(k)
    w.check(w.eq([entry_key(e) for e in m.pofile], once), 'file', (case, once))
