"""C34: the command lines do what the functions do."""
import itertools
import os
import sys

from harness import pos
from mdpo.md2po import markdown_to_pofile
from mdpo.md2po.__main__ import run as md2po
from mdpo.mdpo2html import markdown_pofile_to_html
from mdpo.mdpo2html.__main__ import run as mdpo2html
from mdpo.po2md import pofile_to_markdown
from mdpo.po2md.__main__ import run as po2md

# option: (arguments, arguments of the function)
MD2PO = {
    'ignore': (['-i', 'b.md'], {'ignore': ['b.md']}),
    'ignore-two': (['--ignore', 'c.md', '-i', 'x.md'], {'ignore': ['c.md', 'x.md']}),
    'width': (['-w', '20'], {'wrapwidth': 20}),
    'inf': (['--wrapwidth', 'inf'], {'wrapwidth': 'inf'}),
    'merge': (['-m'], {'mark_not_found_as_obsolete': False}),
    'merge-long': (['--merge-pofiles'], {'mark_not_found_as_obsolete': False}),
    'remove': (['-r'], {'preserve_not_found': False}),
    'remove-long': (['--remove-not-found'], {'preserve_not_found': False}),
    'nolocation': (['--nolocation'], {'location': False}),
    'no-location': (['--no-location'], {'location': False}),
    'tables': (['-x', 'tables'], {'extensions': ['tables']}),
    'two-extensions': (['-x', 'strikethrough', '--extension', 'latex_math_spans'], {'extensions': ['strikethrough', 'latex_math_spans']}),
    'xheader': (['-a'], {'xheader': True}),
    'codeblocks': (['-c'], {'include_codeblocks': True}),
    'codeblocks-long': (['--include-codeblocks'], {'include_codeblocks': True}),
    'plaintext': (['--plaintext'], {'plaintext': True}),
    'metadata': (['-d', 'Language: es', '--metadata', 'X-Foo: a, b'], {'metadata': {'Language': 'es', 'X-Foo': 'a, b'}}),
    'alias': (['--command-alias', 'off:disable', '--command-alias', 'on:mdpo-enable'], {'command_aliases': {'off': 'disable', 'on': 'mdpo-enable'}}),
    'event': (['-e', 'msgid: ev.py::f'], {'events': {'msgid': 'ev.py::f'}}),
    'ignored': (['--ignore-msgids', 'ignored.txt'], {'ignore_msgids': None}),
}
PO2MD = {
    'ignore': (['-i', 'b.po'], {'ignore': ['b.po']}),
    'width': (['-w', '20'], {'wrapwidth': 20}),
    'zero': (['-w', '0'], {'wrapwidth': 0}),
    'inf': (['--wrapwidth', 'inf'], {'wrapwidth': 'inf'}),
    'alias': (['--command-alias', 'off:disable', '--command-alias', 'on:mdpo-enable'], {'command_aliases': {'off': 'disable', 'on': 'mdpo-enable'}}),
    'event': (['--event', 'msgid:ev.py::f'], {'events': {'msgid': 'ev.py::f'}}),
}
HTML = {
    'ignore': (['-i', 'b.po'], {'ignore': ['b.po']}),
    'alias': (['--command-alias', 'off:disable', '--command-alias', 'on:mdpo-enable'], {'command_aliases': {'off': 'disable', 'on': 'mdpo-enable'}}),
}
PROGRAMS = {'md2po': (md2po, markdown_to_pofile, MD2PO), 'po2md': (po2md, pofile_to_markdown, PO2MD),
            'mdpo2html': (mdpo2html, markdown_pofile_to_html, HTML)}
# where the content comes from, and where the result goes
INPUTS = ('file', 'glob', 'files', 'content', 'stdin')
DOC = ('# T{a} lorem ipsum dolor sit amet **consectetur** adipiscing elit\n\nT{b} `x` $y$ ~~z~~\n\n```\nT{c}\n```\n\n'
       '<!-- off -->\n\nT{d}\n\n<!-- on -->\n\n| T{a} |\n| --- |\n| T{e} |\n')
HTML_DOC = ('<h1>T{a} lorem ipsum</h1>\n<p>T{b} <code>x</code></p>\n<!-- off -->\n<p>T{d}</p>\n<!-- on -->\n<p>T{e}</p>\n')
BOUNDS = ('20 options of md2po, 6 of po2md and 2 of mdpo2html, each alone and in pairs (and triples in the thorough tier); '
          'content given as one file, several files, a glob, text and standard input; results printed, printed quietly and saved; '
          'previous PO files with a message of the document, one that is not there and an obsolete one; one symbolic character in '
          'each of 5 texts and in the translations')
REACH = ['printed', 'saved', 'quiet', 'stdin', 'content', 'files']


def compatible(o):
    names = [n.split('-')[0] for n in o]
    groups = {'inf': 'width', 'zero': 'width', 'no': 'nolocation', 'two': 'tables'}
    names = [groups.get(n, n) for n in names]
    return len(set(names)) == len(names)


def cases(tier):
    cs = []
    for prog, (_, _, options) in PROGRAMS.items():
        ins = [i for i in INPUTS if prog == 'md2po' or i in ('file', 'content', 'stdin')]
        for i in ins:
            for out in ('print', 'quiet', 'save'):
                cs.append({'p': prog, 'i': i, 'o': [], 'out': out})
        for o in options:
            i = 'glob' if o.startswith('ignore') and o != 'ignored' and prog == 'md2po' else 'file'
            cs += [{'p': prog, 'i': i, 'o': [o], 'out': out} for out in ('print', 'save')]
            if tier == 'thorough':
                cs += [{'p': prog, 'i': x, 'o': [o], 'out': 'save'} for x in ins]
        names = list(options)
        k = 'glob' if prog == 'md2po' else 'file'
        cs += [{'p': prog, 'i': k, 'o': list(x), 'out': 'save'} for n in ((2,) if tier == 'quick' else (2, 3))
               for x in itertools.combinations(options, n) if compatible(x)]
    return cs


class Stdin:
    """Standard input with a content."""

    def __init__(self, text):
        self.text = text

    def isatty(self):
        return False

    def read(self):
        return self.text


def run(w, case):
    run_, func, options = PROGRAMS[case['p']]
    html = case['p'] == 'mdpo2html'
    letters = {}

    def doc(template):
        parts = template.split('{')
        out = [parts[0]]
        for x in parts[1:]:
            if x[0] not in letters:
                letters[x[0]] = w.text(x[0], 1)
            out += [x[0], letters[x[0]], x[2:]]
        return w.cat(out)
    content = doc(HTML_DOC if html else DOC)
    k = 'd' if w.pick('known', [False, True]) else 'e'
    known = w.cat(['T', k, letters[k]])
    first = w.cat(['Ta', letters['a'], ' lorem ipsum dolor sit amet **consectetur** adipiscing elit' if not html else ' lorem ipsum'])
    es = [pos.Entry(known, None, w.cat(['X', w.text('x', 1)]), False, False),
          pos.Entry(first, None, w.cat(['Y lorem ipsum dolor ', w.text('y', 1), ' sit amet']), False, True),
          pos.Entry('N', None, 'O', False, False), pos.Entry('Old', None, 'X', True, False)]
    other = [pos.Entry(known, None, w.cat(['Z', w.text('z', 1)]), False, False),
             pos.Entry(w.cat(['Tb', letters['b'], ' `x`' + ('' if html else ' $y$ ~~z~~')]), None, 'Two', False, False)]
    ext = 'html' if html else 'md'
    files = {'file': ['a'], 'glob': ['a', 'b', 'c'], 'files': ['a', 'c'], 'content': [], 'stdin': []}[case['i']]
    outs = {}
    for side in ('cli', 'api'):
        for f in files:
            w.write(f'{side}/{f}.{ext}', content if f == 'a' else w.cat([f, letters['e'], '\n']))
        pos.write(w, f'{side}/a.po', es)
        pos.write(w, f'{side}/b.po', other)
        w.write(f'{side}/ev.py', 'def f(self, msgid, *args):\n    return False if "lorem" in msgid else None\n')
        w.write(f'{side}/ignored.txt', w.cat([known, '\n', 'T']))
    args, kw = [], {}
    for o in case['o']:
        args += options[o][0]
        kw.update(options[o][1])
    if 'ignore_msgids' in kw:
        kw['ignore_msgids'] = [known, 'T']
    save = case['out'] == 'save'
    stdin = None
    if case['i'] == 'stdin':
        stdin, src = content, None
        w.reach('stdin')
    elif case['i'] == 'content':
        src = [content]
        w.reach('content')
    else:
        src = [f'*.{ext}'] if case['i'] == 'glob' else [f'{f}.{ext}' for f in files]
        w.reach('files')
    given = content if src is None else src if case['i'] == 'files' else src[0]
    if src is None:
        # final line breaks are not read
        given = given[:-1]
    if case['p'] == 'md2po':
        args += ['-p', 'a.po'] + (['-s'] if save else [])
        kw.update(po_filepath='a.po', save=save)
        out = 'a.po'
    else:
        args += ['-p', '*.po'] + (['-s', 'out'] if save else [])
        kw['save'] = 'out' if save else None
        out = 'out'
    if case['out'] == 'quiet':
        args.append('-q')

    def program(args):
        if stdin is not None:
            sys.stdin = Stdin(stdin)
        return run_(args=args)
    cwd = os.getcwd()
    before = w.listing()
    for f in before:
        w.mtime_mark(f)
    try:
        os.chdir(w.root + '/cli')
        code, stdout, err = w.main(program, (src or []) + args)
        code = code[1] if isinstance(code, tuple) else code
        os.chdir(w.root + '/api')
        r = w.call(func, given, **kw) if case['p'] == 'md2po' else w.call(func, given, '*.po', **kw)
    finally:
        os.chdir(cwd)
    w.check(r[0] == 'ok', 'function', r)
    w.check(code == 0, 'exit-code', [code, err])
    w.check(w.eq(err, ''), 'no-errors', err)
    result = w.cat([str(r[1]) if case['p'] == 'md2po' else r[1], '\n'])
    w.obs('result', result)
    if case['out'] == 'quiet' or save and case['p'] != 'md2po':
        w.reach('quiet')
        w.check(w.eq(stdout, ''), 'quiet', stdout)
    else:
        w.reach('printed')
        w.check(w.eq(stdout, result), 'printed', [stdout, result])
    texts = [w.read(f'{s}/{out}') if w.exists(f'{s}/{out}') else None for s in ('cli', 'api')]
    w.check(texts[0] is not None or not save, 'written', out)
    w.check(w.eq(texts[0], texts[1]), 'saved', texts)
    if save:
        w.reach('saved')
    # and no other file is written
    results = [f'{s}/{out}' for s in ('cli', 'api')] if save else []
    after = [f for f in w.listing() if '__pycache__' not in f]
    w.check(after == sorted({*before, *results}), 'files', after)
    touched = [f for f in before if f not in results and not w.untouched(f)]
    w.check(not touched, 'other-files', touched)
