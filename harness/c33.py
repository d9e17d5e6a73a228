"""C33: programs read and write files with the encodings asked."""
import builtins
import contextlib
import io
import os

import polib

from harness.common import snap
from mdpo.md2po import markdown_to_pofile
from mdpo.md2po.__main__ import run as md2po
from mdpo.md2po2md import markdown_to_pofile_to_markdown
from mdpo.md2po2md.__main__ import run as md2po2md
from mdpo.mdpo2html import markdown_pofile_to_html
from mdpo.mdpo2html.__main__ import run as mdpo2html
from mdpo.po2md import pofile_to_markdown
from mdpo.po2md.__main__ import run as po2md

# characters written with other bytes in each encoding
DOM = ((0xe0, 0xef), (0xf1, 0xf4))
# (encoding of the Markdown or HTML files, of the PO files, where the PO one is declared)
PAIRS = [('latin-1', None, ''), (None, 'latin-1', 'option'), (None, 'latin-1', 'header'), ('latin-1', 'cp850', 'option'),
         ('cp850', 'latin-1', 'header'), ('mac-roman', 'cp1252', 'option'), ('mac-roman', 'mac-roman', 'header'), ('utf-16', None, ''),
         ('utf-16', 'utf-16', 'option'), ('cp1252', 'cp1252', 'both'), (None, None, '')]
PROGRAMS = ('md2po', 'po2md', 'mdpo2html', 'md2po2md')
BOUNDS = ('11 pairs of encodings of the Markdown or HTML files and of the PO files (among UTF-8, UTF-16, latin-1, cp850, '
          'cp1252 and mac-roman), the second given as an option, in the header of the PO file or in both; 1 or 2 files of '
          'each kind, the last with an encoding declared by each; previous outputs missing, equal or other; a file of ignored messages; results saved or '
          'not, through the command line and the function; with the encoding of the system being UTF-8 or ASCII; one symbolic accented letter in each text (up to 3 in the thorough tier)')
REACH = ['saved', 'printed', 'untouched', 'rewritten', 'declared', 'each', 'report']


def cases(tier):
    cs = []
    for n, (m, p, how) in enumerate(PAIRS):
        for prog in PROGRAMS:
            cs.append({'p': prog, 'n': n})
            if prog != 'md2po2md':
                cs.append({'p': prog, 'n': n, 'print': True})
            if n < 6 or tier == 'thorough':
                cs += [{'p': prog, 'n': n, 'api': True}, {'p': prog, 'n': n, 'check': True}]
            cs.append({'p': prog, 'n': n, 'report': True})
    cs += [{'p': prog, 'n': n, 'each': True, 'api': api} for prog in ('po2md', 'mdpo2html') for n in (2, 4, 6) for api in (False, True)]
    cs += [{'p': 'md2po', 'n': n, 'new': True, 'api': api} for n, x in enumerate(PAIRS) if x[2] != 'header' for api in (False, True)]
    cs += [{'p': 'md2po', 'n': n, 'files': True, 'api': api} for n in (0, 3, 5, 7) for api in (False, True)]
    cs += [{'p': 'md2po2md', 'n': n, 'new': True, 'api': api} for n, x in enumerate(PAIRS) if x[2] != 'header' for api in (False, True)]
    cs += [{'p': prog, 'n': n, 'locale': True, 'api': api, 'new': new} for prog in PROGRAMS for n in (0, 3, 10) for api in (False, True)
           for new in ((False, True) if prog.startswith('md2po') else (False,))]
    cs += [{'p': 'md2po', 'n': n, 'ignored': True, 'new': new, 'locale': n not in (1, 2)} for n in (0, 1, 2, 3, 4, 10)
           for new in ((False, True) if PAIRS[n][2] != 'header' else (False,))]
    if tier == 'thorough':
        cs += [{**c, 'k': k} for c in cs for k in (2, 3)]
    return cs


def po_text(entries, charset):
    po = polib.POFile(wrapwidth=0)
    if charset:
        po.metadata = {'Content-Type': f'text/plain; charset={charset}'}
    for msgid, msgstr in entries:
        po.append(polib.POEntry(msgid=msgid, msgstr=msgstr))
    return str(po) + '\n'


@contextlib.contextmanager
def ascii_locale():
    """Files opened without an encoding are in ASCII."""
    before = builtins.open, io.open

    def opener(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if encoding is None and 'b' not in mode:
            encoding = 'ascii'
        return before[0](file, mode, buffering, encoding, errors, newline, closefd, opener)
    builtins.open = io.open = opener
    try:
        yield
    finally:
        builtins.open, io.open = before


def main(w, run_, args):
    """(exit code, standard output) of a program."""
    code, out, err = w.main(run_, args)
    return [code[1] if isinstance(code, tuple) else code, out, err]


def program(w, case, encs, declared):
    """What a program makes of the files of the current directory, in some encodings."""
    prog, api, (md, po) = case['p'], case.get('api'), encs
    kw, args = {}, []
    kind = 'html' if prog == 'mdpo2html' else 'md'
    if md:
        kw[kind + '_encoding'] = md
        args += [f'--{kind}-encoding', md]
    if po and declared != 'header':
        kw['po_encoding'] = po
        args += ['--po-encoding', po]
    pofiles = ['a.po', 'b.po'] if case.get('each') else ['a.po']
    check = ['--check'] if case.get('check') else ['--no-obsolete', '--no-fuzzy', '--no-empty-msgstr'] if case.get('report') else []
    src = {'html': 'a.html', 'md': 'a.md'}[kind]
    if prog == 'md2po':
        srcs = ['a.md', 'b.md'] if case.get('files') else ['a.md']
        if case.get('print'):
            return main(w, md2po, [*srcs, '-p', 'a.po', *args]), []
        if api:
            r = w.call(markdown_to_pofile, srcs, po_filepath='a.po', save=True, **kw)
            return [r[0], snap(r[1]) if r[0] == 'ok' else r[1]], ['a.po']
        ignored = ['--ignore-msgids', 'ignored.txt'] if case.get('ignored') else []
        return main(w, md2po, [*srcs, '-p', 'a.po', '-s', '-q', *check, *ignored, *args]), ['a.po']
    if prog == 'md2po2md':
        if api:
            r = w.call(markdown_to_pofile_to_markdown, ['es'], 'a.md', '{lang}', **kw)
            return [r[0], None if r[0] == 'ok' else r[1:]], ['es/a.md.po', 'es/a.md']
        return main(w, md2po2md, ['a.md', '-l', 'es', '-o', '{lang}', *check, *args]), ['es/a.md.po', 'es/a.md']
    run_, func = {'po2md': (po2md, pofile_to_markdown), 'mdpo2html': (mdpo2html, markdown_pofile_to_html)}[prog]
    out = 'out.' + kind
    save = not case.get('print')
    if api:
        r = w.call(func, src, pofiles, save=out, **kw)
        return r, [out]
    return main(w, run_, [src, '-p', *pofiles, *check, *args, *(['-s', out] if save else [])]), [out] if save else []


def run(w, case):
    md, po, how = PAIRS[case['n']]
    dom = DOM
    a, b, x, y, z, q = [w.cat(['T', n, w.text(n, case.get('k', 1), dom)]) for n in 'abxyzq']
    # a difference between the previous output and the new one, or none
    old = '' if case.get('print') else w.pick('old', ['', 'same', 'other'])
    sides = {}
    for side, encs in (('ref', (None, None)), ('enc', (md, po))):
        m, p = encs[0] or 'utf-8', encs[1] or 'utf-8'
        charset = p if how in ('header', 'both') else None
        w.write(f'{side}/a.md', w.cat(['# ', a, '\n\n', b, '\n\n- ', q, '\n']), m)
        w.write(f'{side}/b.md', w.cat([y, '\n']), m)
        w.write(f'{side}/a.html', w.cat(['<h1>', a, '</h1>\n<p title="', b, '">', b, '</p>\n']), m)
        es = [(a, x), (b, '')]
        if case.get('report'):
            w.reach('report')
        if not case.get('new'):
            w.write(f'{side}/' + ('es/a.md.po' if case['p'] == 'md2po2md' else 'a.po'), po_text(es, charset), p)
        if case.get('ignored'):
            w.write(f'{side}/ignored.txt', w.cat([a, '\n', y, '\n']), 'utf-8' if how == 'header' else p)
        if case.get('each'):
            # the second file is in another encoding, the one of its header
            other = 'cp850' if side == 'enc' else 'utf-8'
            w.write(f'{side}/b.po', po_text([(b, z)], other), other)
            w.reach('each')
        cwd = os.getcwd()
        os.chdir(w.root + '/' + side)
        try:
            with ascii_locale() if side == 'enc' and case.get('locale') else contextlib.nullcontext():
                got, outs = program(w, case, encs, how)
            texts = []
            enc = {o: p if o.endswith('.po') else m for o in outs}
            if outs:
                w.reach('saved')
                w.check(all(w.exists(f'{side}/{o}') for o in outs), 'saved', [side, got])
            else:
                w.reach('printed')
            for o in outs:
                texts.append(w.read(f'{side}/{o}', enc[o]) if w.exists(f'{side}/{o}') else '')
            again = None
            if outs and old and all(texts):
                # another run: outputs are the same as before, or other
                if old == 'other' and not outs[-1].endswith('.po'):
                    w.write(f'{side}/{outs[-1]}', w.cat(['O', w.text('o', 1, dom), '\n']), m)
                for o in outs:
                    w.mtime_mark(f'{side}/{o}')
                got2, _ = program(w, case, encs, how)
                same = [w.untouched(f'{side}/{o}') for o in outs]
                again = [got2, same, [w.read(f'{side}/{o}', enc[o]) for o in outs]]
                w.reach('untouched' if all(same) else 'rewritten')
        finally:
            os.chdir(cwd)
        sides[side] = (got, texts, again)
        if charset:
            w.reach('declared')
            if outs and outs[0].endswith('.po') and not case.get('new'):
                w.check(w.eq(polib.pofile(texts[0]).metadata['Content-Type'], 'text/plain; charset=' + charset), 'header-kept', texts[0])
    (got, texts, again), (got_, texts_, again_) = sides['ref'], sides['enc']

    def entries(ts):
        return [snap(polib.pofile(t)) if o.endswith('.po') else t for o, t in zip(outs, ts)]
    w.obs('ref', [got, texts])
    if case.get('report') and po == 'utf-16':
        # files with two bytes in each character are not searched
        for g, g_ in ((got, got_), (again[0], again_[0])) if again and again_ else ((got, got_),):
            w.check(w.eq([g_[0], g_[2]], [g[0], g[2]]), 'reports-in-utf-16', [g, g_])
            g_[0], g_[2] = g[0], g[2]
    w.check(w.eq(got_[0], got[0]), 'same-status', [got, got_])
    w.check(got[0] in (5,) if case.get('report') else (0, 2, 'ok'), 'runs', got)
    if how in ('header', 'both') and not outs and case['p'] == 'md2po':
        got, got_ = [snap(polib.pofile(g[1])) for g in (got, got_)]
    w.check(w.eq(got_, got), 'same-result', [got, got_])
    w.check(w.eq(entries(texts_), entries(texts)), 'same-outputs', [texts, texts_])
    if again and again_:
        w.check(w.eq(again_[0], again[0]), 'same-result-again', [again, again_])
        w.check(again_[1] == again[1], 'same-writes-again', [again, again_])
        w.check(w.eq(entries(again_[2]), entries(again[2])), 'same-outputs-again', [again, again_])
