"""C29: wrapping never changes the text."""
import polib

from harness.common import empty_po, extract, fill, is_ref, keys, render, translate, write_po
from harness.docs import all_docs, document

BOUNDS = ('the document templates of harness/docs.py with wrap widths 1, 7 and 12 (1 to 20 in the thorough tier for the '
          'paragraphs), and templates for wrapping with every width from 1 to 16 (40 in the thorough tier): words of one and '
          'six letters in each kind of block, and words made of one or two characters of those that start blocks; each hole '
          'having one symbolic letter; translations made of several words; PO files written with the same widths')
REACH = ['wrapped', 'same', 'po-wrapped']
WORDS = '«a:4» «b» «c:4» «d»'
WRAP = {
    'words': WORDS + ' «e:4» «f»\n',
    'p-words': '«z»\n\n' + WORDS + '\n\n«y»\n',
    'h-words': '# ' + WORDS + '\n\n«z»\n',
    'setext-words': WORDS + '\n===\n\n«z»\n',
    'ul-words': '- ' + WORDS + '\n- «z»\n',
    'ul-words-end': '- «z»\n- ' + WORDS + '\n\n«y»\n',
    'ol-words': '1. ' + WORDS + '\n2. «z»\n',
    'task-words': '- [ ] ' + WORDS + '\n- [x] «z»\n',
    'nested-words': '- «z»\n  - ' + WORDS + '\n- «y»\n',
    'li-p-words': '- «z»\n\n  ' + WORDS + '\n\n- «y»\n',
    'li-h-words': '- # ' + WORDS + '\n- «y»\n',
    'quote-words': '> ' + WORDS + '\n\n«z»\n',
    'quote-p-words': '> ' + WORDS + '\n>\n> «z»\n',
    'quote-h-words': '> # ' + WORDS + '\n>\n> «z»\n',
    'quote-ul-words': '> - ' + WORDS + '\n> - «z»\n',
    'li-quote-words': '- > ' + WORDS + '\n\n- «z»\n',
    'table-words': '| ' + WORDS + ' | «y» |\n| --- | --- |\n| «x» | «w» «v:6» «u» |\n\n«z»\n',
    'li-table-words': '- «z»\n\n  | ' + WORDS + ' |\n  | --- |\n  | «x» «y:6» «w» |\n',
    'code-words': '```\n' + WORDS + '\n```\n\n«z»\n',
    'indented-words': '    ' + WORDS + '\n\n«z»\n',
    'codespan-words': '«z» `' + WORDS + '` «y»\n',
    'em-words': '«z» *' + WORDS + '* «y»\n',
    'link-words': '«z» [' + WORDS + '](«y»)\n',
    'title-words': '[«z»](«y» "' + WORDS + '")\n',
    'img-words': '![' + WORDS + '](«y» "«z» «x:6»")\n',
    'angle-words': '[«z»](<' + WORDS + '>) «y»\n',
    'wikilink-words': '«z» [[«a:3» «b:3»]] «y»\n',
    'wikilink-text-words': '[[«a»|' + WORDS + ']] «y»\n',
    'query-words': '«z:6» [«a»](«b»?«c»=1&«d»!«e») «y»\n',
    'del-words': '~~' + WORDS + '~~\n',
    'latex-words': '«z» $' + WORDS + '$\n',
    'display-words': '$$' + WORDS + '$$\n',
    'html-words': '«z» <b class="«c» «d»">' + WORDS + '</b>\n',
    'ref-words': '[«a»][«b»] ' + WORDS + '\n\n[«b»]: «c» "' + WORDS + '"\n',
    'backtick': '«z» «y» `\n',
    'scriptio-continua': '«z» \u4e2d\u6587\u5b57 «y»\n',
}
# characters that may start a block
START = '#>+-*=_~|<1.)\\!:'
MARKS = {'one': 'alfa «x» «b» bravo\n', 'one-end': 'alfa bravo «x»\n', 'two': 'alfa «x»«y» «b» c\n', 'three': 'alfa «x»«x»«x» bravo\n',
         'two-words': 'alfa «x» «y» b\n', 'li': '- alfa «x» bravo\n', 'ol': '1. alfa «x» bravo\n', 'quote': '> alfa «x» bravo\n',
         'li-two': '- alfa «x»«y» bravo\n', 'html': 'alfa «z» <«t»> bravo\n', 'html-end': 'alfa «z» </«t»> bravo\n',
         'number': 'alfa «n»«p» bravo\n', 'number-li': '- alfa «n»«p» bravo\n', 'rule': 'alfa «z» «x» «x» «x»\n',
         'delimiter': 'alfa | bravo -«x»- | -«x»- «b»\n', 'bracket': 'alfa [«z»]«x» bravo\n'}
TAGS = ['div', 'p', 'b', 'script', 'hr/', 'a b', '!x', '?x?', '!-- x --']


def cases(tier):
    long = tier == 'thorough'
    top = 40 if long else 16
    cs = [{'t': t, 'w': [1, '-', top]} for t in WRAP]
    cs += [{'t': t, 'w': [1, '-', top], 'tr': 1} for t in ('words', 'h-words', 'ul-words', 'ol-words', 'quote-words', 'table-words', 'code-words', 'ref-words')]
    for m in MARKS:
        cs += [{'m': m, 'w': [5, '-', 9]}] if 'two' in m and not long else [{'m': m, 'w': [1, '-', 14]}]
    for d in all_docs():
        if d != 'include' and '/latex-display' not in d:
            cs.append({'d': d, 'w': [1, '-', 20] if long and d.startswith(('p/', 'ul/', 'quote/')) else [1, 8]})
    cs += [{'po': t, 'w': [6, '-', top]} for t in ('words', 'title-words', 'code-words', 'table-words', 'ref-words', 'codespan-words')]
    cs += [{'po': t, 'w': [6, '-', top], 'tr': 1} for t in ('words', 'ul-words')]
    return cs


def width(w, case):
    ws = case['w']
    return w.pick('w', list(range(ws[0], ws[-1] + 1)) if ws[1:2] == ['-'] else ws)


def text(w, case):
    if 'd' in case:
        return fill(w, document(case['d']), {}, 1, 'letter', prefix='S')
    if 'm' not in case:
        return fill(w, WRAP[case.get('t') or case.get('po')], {}, 1, 'letter', prefix='S')
    holes = {}
    t = MARKS[case['m']]
    small = 'two' in case['m']
    for n, size, dom in (('x', 1, START), ('y', 1, '#>+-=`1. ' if small else START), ('n', 1, '0129'), ('p', 1, '.)')):
        if f'«{n}»' in t:
            holes[n] = w.text(n, size, dom)
    if '«t»' in t:
        holes['t'] = w.pick('t', TAGS)
    return fill(w, t, holes, 1, 'letter')


def run_po(w, case):
    """PO files written by md2po with each width."""
    doc = text(w, case)
    name = case['po']
    n = width(w, case)
    ks = keys(extract(doc, include_codeblocks=True).pofile)
    ents = []
    if 'tr' in case:
        ents = [(k, w.cat([f'X{i}', w.text(f't{i}', 5, 'letter'), ' Y ', w.text(f'u{i}', 3, 'letter'), ' Z']), {'msgctxt': c or None}) for i, (k, c) in enumerate(ks)]
    out = []
    for width_ in (n, 0):
        rel = f'{width_}.po'
        write_po(w, rel, ents)
        extract(doc, include_codeblocks=True, po_filepath=w.path(rel), save=True, wrapwidth=width_)
        content = w.read(rel)
        po = polib.pofile(w.path(rel))
        out.append((content, [(e.msgid, e.msgctxt or '', e.msgstr, sorted(e.flags)) for e in po]))
    w.obs('po', out)
    (wrapped, a), (plain, b) = out
    info = (doc, n, wrapped, plain)
    w.check(w.eq(a, b), 'po-entries:' + name, info)
    w.check(w.eq([x[:2] for x in b], ks), 'po-messages:' + name, info)
    lines = wrapped.split('\n')
    w.reach('po-wrapped' if len(lines) > len(plain.split('\n')) else 'same')
    for x in plain.split('\n'):
        w.check(x[:1] != '"' or x[-3:] == '\\n"' or name == 'code-words', 'po-unwrapped:' + name, info)
    for x in lines:
        if x[:1] == '"' and len(x) > n + 2:
            w.check(' ' not in x[1:-2].strip(' '), 'po-width:' + name, (x, info))


def run(w, case):
    if 'po' in case:
        return run_po(w, case)
    doc = text(w, case)
    name = case.get('d') or case.get('t') or 'mark-' + case['m']
    n = width(w, case)
    ks = keys(extract(doc, include_codeblocks=True).pofile)
    ts = [k for k, _ in ks]
    if 'tr' in case:
        ts = [k if is_ref(k) else w.cat([f'X{i}', w.text(f't{i}', 5, 'letter'), ' Y ', w.text(f'u{i}', 3, 'letter'), ' Z', '\n' if k[-1:] == '\n' else ''])
              for i, (k, _) in enumerate(ks)]
        po = write_po(w, 'a.po', [(k, t, {'msgctxt': c or None}) for (k, c), t in zip(ks, ts)])
    else:
        po = empty_po(w)
    out = translate(doc, po, wrapwidth=n).output
    plain = translate(doc, po, wrapwidth=w.pick('no', [0, float('inf')]) if 'tr' in case else 0).output
    w.obs('out', out)
    w.obs('plain', plain)
    info = (doc, n, out, plain)
    w.reach('same' if len(out.split('\n')) == len(plain.split('\n')) else 'wrapped')
    a, b = (keys(extract(x, include_codeblocks=True).pofile) for x in (out, plain))
    w.check(w.eq(a, b), 'messages:' + name, info)
    w.check(w.eq(render(w, out), render(w, plain)), 'html:' + name, info)
    if 't' in case:
        lines = plain.split('\n')
        for t in ts:
            if t[-1:] != '\n':
                w.check(any(t in x for x in lines), 'unwrapped:' + name, info)
        if name in ('words', 'p-words', 'em-words', 'del-words'):
            for x in out.split('\n'):
                # the last word of a line may not fit in the width
                w.check(' ' not in x or x.rindex(' ') <= n, 'width:' + name, (x, info))
