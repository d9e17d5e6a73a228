"""C15: saving reports a change exactly when the file changes."""
import contextlib

import polib
from mdpo.io import save_file_checking_file_changed
from mdpo.md2po.__main__ import run as md2po
from mdpo.md2po2md.__main__ import run as md2po2md
from mdpo.mdpo2html.__main__ import run as mdpo2html
from mdpo.po2md.__main__ import run as po2md

from harness.common import write_po

BOUNDS = ('the saving function: previous and new contents of every length up to 4 (quick) or 6 (thorough) over all BMP '
          'characters but the carriage return (files are read with universal newlines), and missing files; the '
          'programs: previous contents of every length up to 4 (quick) or 6 (thorough) of the same characters for po2md '
          'and mdpo2html, and previous PO files with a symbolic message and translation for md2po and '
          'md2po2md (whose previous Markdown has 2 or 7 characters), with and without check mode; and what is '
          'compiled as MO file')
ASSUMPTIONS = ['contents without carriage returns']
REACH = ['same', 'changed', 'created', 'po2md-same', 'html-same', 'md2po-same', 'md2po2md-same', 'mo']
NOCR = ((1, 0xC), (0xE, 0xD7FF), (0xE000, 0xFFFF))


def cases(tier):
    m = 4 if tier == 'quick' else 6
    cs = [{'k': 'fn', 'p': p, 'n': n} for p in [None, *range(m + 1)] for n in range(m + 1)]
    for k in ('po2md', 'html'):
        cs += [{'k': k, 'p': p, 'c': c} for p in [None, *range(2, m + 6 if k == 'html' else m + 1)] for c in (True, False)]
    cs += [{'k': 'md2po', 'p': p, 'c': c} for p in (None, 1) for c in (True, False)]
    cs += [{'k': 'md2po2md', 'p': p, 'm': q, 'c': c} for p in (None, 1) for q in (None, 2, 7) for c in (True, False)]
    cs += [{'k': 'mo', 'p': p, 's': s, 'o': o} for p in (None, 1) for s in (True, False) for o in (True, False)]
    return cs


@contextlib.contextmanager
def compiled():
    """Record what would be compiled: the bytes are written by polib."""
    calls, method = [], polib.POFile.save_as_mofile

    def record(self, path):
        calls.append((path, [(e.msgctxt, e.msgid, e.msgstr) for e in self.translated_entries()]))

    polib.POFile.save_as_mofile = record
    try:
        yield calls
    finally:
        polib.POFile.save_as_mofile = method


def nocr(w, name, n):
    t = w.text(name, n, 'any')
    for c in t:
        w.assume(c != '\r')
    return t


def previous(w, rel, prev):
    if prev is not None:
        w.write(rel, prev)
        w.mtime_mark(rel)


def exitcode(code):
    return code[1] if isinstance(code, tuple) else code


def program(w, k, f, args, files, check):
    """Run twice: with the previous contents of the files, and with what the first run left."""
    for rel, prev in files:
        previous(w, rel, prev)
    code = exitcode(w.main(f, args)[0])
    contents = [w.read(rel) for rel, _ in files]
    w.obs('contents', contents)
    changed = False
    for (rel, prev), content in zip(files, contents):
        if prev is not None and w.eq(content, prev):
            w.reach(k + '-same')
            if check:
                w.check(w.untouched(rel), k + '-not-rewritten', [prev])
        else:
            changed = True
    w.check(code == (2 if changed and check else 0), k + ('-check' if check else '-nocheck'), [files, contents, code])
    for rel, _ in files:
        w.mtime_mark(rel)
    code = exitcode(w.main(f, args)[0])
    w.check(code == 0, k + '-again', [contents, code])
    for (rel, _), content in zip(files, contents):
        w.check(w.eq(w.read(rel), content), k + '-again-content', content)
        if check:
            w.check(w.untouched(rel), k + '-again-not-rewritten', content)


def run(w, case):
    k = case['k']
    if k == 'fn':
        prev = None if case['p'] is None else nocr(w, 'prev', case['p'])
        new = nocr(w, 'new', case['n'])
        previous(w, 'f.txt', prev)
        r = save_file_checking_file_changed(w.path('f.txt'), new)
        same = prev is not None and w.eq(prev, new)
        w.obs('r', bool(r))
        w.check(w.eq(w.read('f.txt'), new), 'content', [prev, new])
        if same:
            w.reach('same')
            w.check(not r, 'unchanged', [prev, new, r])
            w.check(w.untouched('f.txt'), 'not-rewritten', [prev, new])
        else:
            w.reach('created' if prev is None else 'changed')
            w.check(r, 'changed', [prev, new, r])
        return
    check = ['--check'] if case.get('c') else []
    if k in ('po2md', 'html'):
        prev = None if case['p'] is None else nocr(w, 'prev', case['p'])
        a, t = w.text('a', 1), w.text('t', 1)
        po = write_po(w, 'a.po', [(w.cat(['Alpha', a]), t)])
        f, content = (po2md, ['Alpha', a, '\n']) if k == 'po2md' else (mdpo2html, ['<p>Alpha', a, '</p>'])
        program(w, k, f, [w.cat(content), '-q', '-p', po, '-s', w.path('f.txt'), *check], [('f.txt', prev)], case.get('c'))
        return
    a = w.text('a', 1)
    md = w.write('d.md', w.cat(['Alpha', a, '\n']))
    prev = None
    if case['p'] is not None:
        prev = w.cat(['#\nmsgid ""\nmsgstr ""\n\n#: ', md, ':block 1 (paragraph)\nmsgid "Alpha', w.text('b', 1),
                      '"\nmsgstr "', w.text('t', 1), '"\n'])
    if k == 'mo':
        previous(w, 'a.po', prev)
        args = [md, '-q', *(['-p', w.path('a.po')] if case['p'] or case['s'] else []), *(['-s'] if case['s'] else [])]
        with compiled() as calls:
            w.main(md2po, args + (['--mo-filepath', w.path('a.mo')] if case['o'] else []))
        if not case['o']:
            w.check(not calls, 'mo-not-asked', calls)
            return
        w.obs('calls', [c[1] for c in calls])
        w.check([c[0] for c in calls] == [w.path('a.mo')], 'mo-once', calls)
        # as many as the updated catalog has
        w.write('d.po', prev or '')
        po = polib.pofile(w.path('a.po')) if case['s'] else None
        if po is not None:
            w.check(w.eq(calls[0][1], [(e.msgctxt, e.msgid, e.msgstr) for e in po.translated_entries()]), 'mo-content', calls)
        elif prev is None:
            w.check(not calls[0][1], 'mo-content', calls)
        else:
            b = polib.pofile(w.path('d.po'))[0]
            if w.eq(b.msgid, w.cat(['Alpha', a])):
                w.reach('mo')
                w.check(w.eq(calls[0][1], [(None, b.msgid, b.msgstr)]), 'mo-content', calls)
            else:  # obsolete
                w.check(not calls[0][1], 'mo-content', calls)
        return
    if k == 'md2po':
        program(w, k, md2po, [md, '-q', '-s', '-p', w.path('a.po'), *check], [('a.po', prev)], case.get('c'))
    else:
        pmd = None if case['m'] is None else nocr(w, 'm', case['m'])
        program(w, k, md2po2md, [md, '-q', '-l', 'es', '-o', w.path('out/{lang}'), *check],
                [('out/es/d.md.po', prev), ('out/es/d.md', pmd)], case.get('c'))
