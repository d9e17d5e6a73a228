"""C24: mdpo2html puts the translations into the HTML."""
import re

from md4c import HTMLRenderer

from mdpo.mdpo2html import MdPo2HTML

from harness import docs
from harness.c25 import norm
from harness.common import extract, fill, is_ref, keys, write_po

BOUNDS = ('the HTML that md4c (with tables) produces from the documents of harness/docs.py, with texts of one symbolic '
          'character after a fixed one (ASCII letters in documents with links or images, whose destinations md4c may encode), '
          'each message translated or not, with translations of plain text with a symbolic character, or with markup; '
          'for the inline markup that HTML does not tell from other (UNREAD in harness/c24.py) blocks may be left as they '
          'were but nothing else; and the same HTML with other tags for bold, italic and code, given or not as options, and '
          'with adjacent markups to join')
BUDGET = {'quick': 150}
REACH = ['translated', 'left', 'none', 'tags', 'merge']
TR = {'plain': ('Tr{}', ''), 'markup': ('*Tr*{} **a `', '`** [c](d "e") ![f](g)')}
# markup that is read as text or as other markup from the HTML
UNREAD = ('entity', 'entity-number', 'escaped-backtick', 'escaped-star', 'form-feed', 'html', 'html-attr', 'html-br',
          'html-inline-comment', 'latex-display', 'latex-display-soft', 'latex-display-star', 'link-angle', 'link-entity',
          'link-title-soft', 'tab', 'wikilink-same', 'next-line', 'line-separator', 'link-same-title', 'table-code-pipe')
# backticks alone would be read as the delimiters of the code of other translations
PLAIN = ('backtick-alone', 'latex-star')
# messages that are more than a text
COMPOSED = {'setext-lines': r'«a»\n\*«b»\n«c»\*', 'quote-lazy': '«a»\n«b»', 'quote-two-lines': '«a»\n> «b»', 'table-pipe': r'«c» \\\| «d»',
            **dict.fromkeys(('ref-titles', 'ref-img-titles', 'ref-img-untitled', 'ref-img-mixed'), r'!?\[«[ac]».*'),
            'table-code-pipe': r'`«a» \\\| «b»`|«d» \\\| «e» \\\| «f»'}
# other documents: the definitions of links are not in the HTML, nor included messages are written
SKIP = ('include', 'crlf', 'li-html-tight')
# the content of these tags is not translated by default
IGNORED = ('html-md',)


def cases(tier):
    cs = [{'d': d, 't': t} for d in docs.all_docs() for t in ('plain', 'markup') if d not in SKIP
          and (t == 'plain' or d.partition('/')[2] not in PLAIN)]
    cs += [{'d': d, 't': t} for d in docs.all_docs(['p', 'ul'] if tier == 'quick' else None) for t in TAGS
           if d not in SKIP and (tier == 'thorough' or '/' in d)]
    cs += [{'d': d, 't': 'merge'} for d in docs.all_docs(['p', 'h', 'ul', 'td'], ['strong', 'em', 'strong-em', 'code', 'link'])
           if tier == 'thorough' or '/' in d]
    return cs + [{'d': d, 't': 'none'} for d in docs.all_docs() if d not in SKIP]


# tags that mean the same as those of md4c, by default or because it is asked for
TAGS = {
    'default': ({'strong': 'b', 'em': 'i'}, {}),
    'custom': ({'strong': 'mark', 'em': 'cite', 'code': 'samp'},
               {'bold_tags': frozenset(['mark']), 'italic_tags': frozenset(['cite']), 'code_tags': frozenset(['samp'])}),
    'more': ({'strong': 'mark', 'em': 'i', 'code': 'kbd'},
             {'bold_tags': frozenset(['b', 'strong', 'mark']), 'code_tags': frozenset(['code', 'kbd'])}),
}


def renamed(h, tags):
    for a, b in tags.items():
        h = h.replace(f'<{a}>', f'<{b}>').replace(f'</{a}>', f'</{b}>')
    return h


def do_tags(w, d, t, doc, h):
    tags, kw = TAGS[t]
    back = {b: a for a, b in tags.items()}
    found = keys(extract(doc).pofile)
    on = [i > 2 or w.bool(f'on{i}') for i in range(len(found))]
    po = write_po(w, 'a.po', [(k, k if is_ref(k) else w.cat([f'Tr{i}', w.text(f't{i}', 1, 'letter'), ' **x** *y* `z`'])
                               if on[i] else '') for i, (k, _) in enumerate(found)])
    want = MdPo2HTML(po).translate(h)
    got = MdPo2HTML(po, **kw).translate(renamed(h, tags))
    w.obs('out', got)
    w.check(w.eq(norm(w, renamed(got, back)), norm(w, renamed(want, back))), f'tags-{t}-' + d, (got, want))
    w.reach('tags')


def do_merge(w, d, doc, h):
    """Adjacent markups of the kinds of the original are joined if asked for, and nothing else."""
    found = keys(extract(doc).pofile)
    on = [i > 2 or w.bool(f'on{i}') for i in range(len(found))]
    space = w.pick('space', [' ', '  ', '\n', ''])

    def translated(k, i, adjacent):
        parts = [f'Tr{i}', texts[i]]
        for mark, has in (('**', '**' in k), ('*', '*' in k.replace('**', ''))):
            sep = f'{mark}{space}{mark}' if has and adjacent and space else ' '
            parts += [' ', mark, 'x', texts[i], sep, 'y', mark]
        return w.cat(parts + [' `z`'])

    def po(adjacent):
        return write_po(w, 'a.po', [(k, k if is_ref(k) else translated(k, i, adjacent) if on[i] else '')
                                    for i, (k, _) in enumerate(found)])

    texts = [w.text(f't{i}', 1, 'letter') for i in range(len(found))]
    want = MdPo2HTML(po(False)).translate(h)
    got = MdPo2HTML(po(True), merge_adjacent_markups=True).translate(h)
    w.obs('out', got)
    w.check(w.eq(norm(w, got), norm(w, want)), 'merge-' + d, (got, want))
    w.reach('merge')


def html(doc):
    return HTMLRenderer(0, tables=True, tasklists=True).parse(doc)


def run(w, case):
    d = case['d']
    holes = {}
    template = docs.document(d)
    link = '](' in template or '][' in template or ']:' in template or 'href' in template
    doc = fill(w, template, holes, prefix='S', dom='letter' if link else 'wletter')
    h = html(doc)
    if case['t'] == 'merge':
        do_merge(w, d, doc, h)
        return
    if case['t'] in TAGS:
        do_tags(w, d, case['t'], doc, h)
        return
    if case['t'] == 'none':
        got = MdPo2HTML(write_po(w, 'a.po', [('Other', 'No')])).translate(h)
        w.obs('out', got)
        w.check(w.eq(norm(w, got), norm(w, h)), 'same-' + d, (got, h))
        w.reach('none')
        return
    kw = {'ignore_grouper_tags': frozenset()} if d in IGNORED else {}
    m = extract(doc)
    found = [k for k, _ in keys(m.pofile) if not is_ref(k)]
    t = TR[case['t']]
    tr = [w.cat([t[0].format(i), w.text(f't{i}', 1, 'letter'), t[1]]) for i in range(len(found))]
    on = [len(found) < 2 or i > 3 or w.bool(f'on{i}') for i in range(len(found))]
    ents = [(k, tr[i] if on[i] else '') for i, k in enumerate(found)]
    ents += [(k, k) for k, _ in keys(m.pofile) if is_ref(k)]
    got = MdPo2HTML(write_po(w, 'a.po', ents), **kw).translate(h)
    w.obs('out', got)
    # the document with the translations written in it
    block, _, inline = d.partition('/')
    composed = COMPOSED.get(d, r'\[«a»\]\[1\]' if d == 'html-ref' else r'^\S.*' if d.startswith('ref') else '{}')
    values = list(holes.values()) + ['Zulu', 'Yankee', 'Xray']
    others = [k for k in found if not any(w.eq(k, v) for v in values)]
    if not others and not (inline and '«a» «b»' != docs.INLINE[inline]):
        composed = '{}'
    parts, left = [], []
    for j, part in enumerate(re.split(f'({composed}|«[^»]*»|{{}}|Zulu|Yankee|Xray)', docs.BLOCK[block] if inline else template)):
        if not j % 2:
            parts.append(part)
            continue
        if part == '{}':
            part = docs.INLINE[inline]
        text = fill(w, part, dict(holes), prefix='S')
        simple = re.fullmatch('«[^»]*»|Zulu|Yankee|Xray', part)
        if simple:
            i = next((i for i, k in enumerate(found) if w.eq(k, text)), None)
        else:
            i = found.index(others.pop(0)) if others else None
        if i is not None and on[i]:
            w.reach('translated')
            left += parts[len(left):] + [tr[i] if simple else text]
            parts.append(tr[i])
        else:
            w.reach('left')
            parts.append(text)
    left += parts[len(left):]
    want = norm(w, html(w.cat(parts)))
    ok = w.eq(norm(w, got), want)
    if d in UNREAD or inline in UNREAD:
        ok = w.any(ok, w.eq(norm(w, got), norm(w, html(w.cat(left)))))
    w.check(ok, 'html-' + d, (doc, got, want))
