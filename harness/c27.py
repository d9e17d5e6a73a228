"""C27: several PO files act as their union."""
from harness import pos
from harness.common import extract, is_ref, translate
from mdpo.mdpo2html import MdPo2HTML

BOUNDS = ('2 PO files (up to 4 in the thorough tier) of up to 2 entries each, with and without translation, context and fuzzy '
          'mark, with ids, contexts and translations of one symbolic character after a fixed one, that may coincide in '
          'any way, in all orders; one of the files ignored by path, name or directory, given twice, or found by a glob; '
          'documents of up to 2 messages, with contexts and link references; po2md, and mdpo2html on paragraphs')
REACH = ['translated', 'original', 'several', 'ignored', 'html']
SETS = [
    ([['t'], ['']], ['']), ([[''], ['t']], ['']), ([['t'], ['t']], ['']), ([['ct'], ['c']], ['c']), ([['c'], ['ct']], ['c']),
    ([['t'], ['c']], ['c']), ([['ct'], ['t']], ['', 'c']), ([['', 'ct'], ['t', 'c']], ['c']), ([['t', ''], ['', 't']], ['']),
    ([['tf'], ['']], ['']), ([['rt'], ['r']], ['r']), ([['t'], ['', 'c']], ['', '']), ([['ct'], ['ct']], ['c', 'c']),
    ([['']], ['']), ([['t']], ['c']), ([['ct']], ['c']), ([['t'], []], ['l']),
]
LONG = [([['t'], [''], ['t']], ['']), ([['ct'], ['c'], ['t']], ['c']), ([[''], ['t'], [''], ['c']], ['', 'c']),
        ([['t', 'ct'], ['', 'c']], ['', 'c']), ([['t', 't'], ['', '']], ['', ''])]


def cases(tier):
    cs = []
    for fs, m in SETS + (LONG if tier == 'thorough' else []):
        cs.append({'f': fs, 'm': m})
        if 'l' not in m[0] and 'r' not in m[0]:
            cs.append({'f': fs, 'm': m, 'html': True})
    for how in ('path', 'name', 'dir', 'glob', 'twice', 'str'):
        for fs, m in SETS[:3] + SETS[3:6] * (tier == 'thorough'):
            for k in (0, 1):
                cs.append({'f': fs, 'm': m, 'how': how, 'k': k})
    return cs


def html(w, doc):
    """Paragraphs and comments of the document, in HTML, without escapes."""
    out = []
    for part in doc.split('\n\n'):
        part = part.strip('\n')
        if part[:4] == '<!--' or part == '':
            out.append(part)
        else:
            out.append(w.cat(['<p>', part, '</p>']))
    return '\n\n'.join(out)


def run(w, case):
    files, paths, ignore = [], [], []
    how = case.get('how')
    for i, specs in enumerate(case['f']):
        es = [pos.entry(w, f'f{i}e{j}', s) for j, s in enumerate(specs)]
        for a in range(len(es)):
            for b in range(a):
                w.assume(w.neg(w.eq(es[a].key, es[b].key)))
        rel = f'd{i}/po{i}.po'
        pos.write(w, rel, es)
        if i == case.get('k') and how in ('path', 'name', 'dir'):
            ignore.append({'path': w.path(rel), 'name': f'po{i}.po', 'dir': f'd{i}'}[how])
            w.reach('ignored')
        elif i == case.get('k') and how == 'str':
            paths = w.path(rel)
            files = [es]
            break
        else:
            files.append(es)
        paths.append(w.path(rel))
    if how == 'glob':
        paths = [w.path('d*/*.po'), paths[case['k']]]
    elif how == 'twice':
        paths.insert(0, paths[case['k']])
    doc, ks = pos.document(w, case['m'])
    if 'html' in case:
        doc = html(w, doc)
        out = MdPo2HTML(paths, ignore=ignore).translate(doc)
        w.obs('out', out)
        got = [x.partition('</p>')[0] for x in out.split('<p>')[1:]]
        w.reach('html')
    else:
        out = translate(doc, paths, ignore=ignore).output
        w.obs('out', out)
        got = [e.msgid for e in extract(out).found_entries]
    info = (files, doc, out)
    w.check(len(got) == len(ks), 'messages', info)
    for k, g in zip(ks, got):
        options = [e.msgstr for es in files for e in es if e.msgstr != '' and w.eq(e.key, k)]
        if len(options) > 1:
            w.reach('several')
        w.reach('translated' if options else 'original')
        want = w.any(*[w.eq(o, g) for o in options]) if options else w.eq(k[0], g)
        w.check(want, 'union' + ('-html' if 'html' in case else '-' + how if how else ''), info + (k, g))
