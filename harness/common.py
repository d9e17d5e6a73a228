"""Helpers shared by the harnesses."""
import polib
from md4c import HTMLRenderer

from mdpo.md4c import DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS
from mdpo.md2po import Md2Po, markdown_to_pofile
from mdpo.po2md import Po2Md, pofile_to_markdown


def fill(w, template, holes, n=1, dom='word', prefix=''):
    """Text of a template: every «name» is a hole of symbolic characters.

    «name» has n characters, «name:3» three; «name:0d» is of domain digit, see _dom.
    The same name stands for the same text.
    """
    out = []
    i = 0
    while True:
        j = template.find('«', i)
        if j < 0:
            out.append(template[i:])
            break
        k = template.index('»', j)
        out.append(template[i:j])
        spec = template[j + 1:k]
        name, _, size = spec.partition(':')
        shared = name.endswith('!')  # the same in all the documents
        if shared and name in w.shared:
            holes[name] = w.shared[name]
        elif name not in holes:
            d = dom
            size = size or str(n)
            for suffix, dd in (('w', 'wletter'), ('d', 'digit'), ('a', 'alnum'), ('l', 'letter'), ('L', 'lower')):
                if size.endswith(suffix):
                    d, size = dd, size[:-1] or str(n)
                    break
            h = w.text(name, int(size), d)
            holes[name] = w.cat([prefix, name, h]) if prefix and not shared else h
            if shared:
                w.shared[name] = holes[name]
        out.append(holes[name])
        i = k + 1
    return w.cat(out)


def extract(content, **kw):
    """md2po on a content; the Md2Po object, after extraction."""
    ekw = {k: kw.pop(k) for k in ('po_filepath', 'save', 'wrapwidth', 'md_encoding', 'po_encoding', 'mo_filepath')
           if k in kw}
    m = Md2Po(content, **kw)
    m.extract(**ekw)
    return m


def entry_key(e):
    return (e.msgid, e.msgctxt or '')


def keys(pofile):
    return [entry_key(e) for e in pofile]


def translate(content, pofiles, save=None, md_encoding='utf-8', **kw):
    p = Po2Md(pofiles, **kw)
    p.translate(content, save=save, md_encoding=md_encoding)
    return p


def po_text(entries, header=True):
    """A PO file from (msgid, msgstr, {attributes}) tuples, written by hand."""
    po = polib.POFile(wrapwidth=0)
    for e in entries:
        kw = e[2] if len(e) > 2 else {}
        obsolete = kw.get('obsolete', False)
        po.append(polib.POEntry(
            msgid=e[0], msgstr=e[1], msgctxt=kw.get('msgctxt'), flags=['fuzzy'] if kw.get('fuzzy') else [],
            occurrences=list(kw.get('occurrences', [])), comment=kw.get('comment', ''),
            tcomment=kw.get('tcomment', ''), obsolete=True if obsolete else False))
    return str(po) + '\n'


def write_po(w, rel, entries):
    return w.write(rel, po_text(entries))


def empty_po(w, rel='empty.po'):
    return w.write(rel, '#\nmsgid ""\nmsgstr ""\n')


def snap(pofile):
    """What a user sees of the entries of a PO file."""
    return [(e.msgid, e.msgctxt or '', e.msgstr, bool(e.obsolete), 'fuzzy' in e.flags, e.tcomment or '',
             e.comment or '', list(e.occurrences)) for e in pofile]


def dedupe(w, xs):
    """First occurrences (forks on symbolic equalities)."""
    out = []
    for x in xs:
        if not any(w.eq(x, y) for y in out):
            out.append(x)
    return out


def is_ref(msgid):
    """A message made of a link reference definition."""
    return msgid[:1] == '[' and ']: ' in msgid


def render(w, text):
    """HTML of a Markdown text, without the white space that does not matter."""
    h = HTMLRenderer(0, **dict.fromkeys(DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS, True)).parse(text)
    parts = ['']
    for j, part in enumerate(h.replace('\r', '').replace('\n', ' ').split('<')):
        if j:
            tag, _, part = part.partition('>')
            if tag not in ('p', '/p'):
                parts.append('<' + tag)
                parts.append('')
        parts[-1] = w.cat([parts[-1], ' ', part.strip(' ')]).strip(' ')
    return [x for x in parts if x]


SPACES = ''.join(chr(c) for c in range(1, 0x10000) if chr(c).isspace())


def but(chars):
    """Domain of a symbolic character: all the BMP ones but these."""
    out = []
    for lo, hi in ((1, 0xD7FF), (0xE000, 0xFFFF)):
        for c in sorted(set(ord(x) for x in chars)):
            if lo <= c <= hi:
                if c > lo:
                    out.append((lo, c - 1))
                lo = c + 1
        if lo <= hi:
            out.append((lo, hi))
    return tuple(out)
