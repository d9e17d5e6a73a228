"""PO files with symbolic entries, and documents with messages that may be those."""
import polib

from harness.common import entry_key, extract, po_text


class Entry:
    def __init__(self, msgid, msgctxt, msgstr, obsolete, fuzzy):
        self.msgid, self.msgctxt, self.msgstr, self.obsolete, self.fuzzy = msgid, msgctxt, msgstr, obsolete, fuzzy
        self.key = (msgid, msgctxt or '')

    def __repr__(self):
        return repr((self.key, self.msgstr, self.obsolete, self.fuzzy))


# letters of an entry: c: has a context, t: has a translation, f: fuzzy, o: obsolete, ?: f and o are free,
# r: is a link reference, #: with a text that no other has
def entry(w, name, spec, n=1, dom="word"):
    ctx = w.cat(['C', w.text(name + 'c', n, dom)]) if 'c' in spec else None
    if 'r' in spec:
        target = w.text(name + 'i', n, dom)
        msgid = w.cat(['[R', target, ']: U'])
        tr = w.cat(['[R', target, ']: X', w.text(name + 't', n, 'alnum')])
    else:
        msgid = w.cat(['T', name if '#' in spec else '', w.text(name + 'i', n, dom)])
        tr = w.cat(['X', w.text(name + 't', n, dom)])
    o = w.pick(name + 'o', [False, True]) if '?' in spec else 'o' in spec
    f = w.pick(name + 'f', [False, True]) if '?' in spec else 'f' in spec
    return Entry(msgid, ctx, tr if 't' in spec else '', o, f)


def entries(w, specs, n=1, name="e", dom="word"):
    """Entries of a PO file, with unique messages, the obsolete ones at the end."""
    es = [entry(w, f"{name}{i}", s, n, dom) for i, s in enumerate(specs)]
    for i, a in enumerate(es):
        for b in es[:i]:
            if (a.msgctxt is None) == (b.msgctxt is None) and a.msgid[:1] == b.msgid[:1]:
                w.assume(w.neg(w.eq(a.key, b.key)))
    return [e for e in es if not e.obsolete] + [e for e in es if e.obsolete]


def write(w, rel, es):
    return w.write(rel, po_text([(e.msgid, e.msgstr, {'msgctxt': e.msgctxt, 'obsolete': e.obsolete, 'fuzzy': e.fuzzy})
                                 for e in es]))


# letters of a message: c: has a context, d: is disabled, i: is included by a command, r: a link reference,
# k: a code block, l: list item
def message(w, name, spec, n=1):
    """(text, key or None)"""
    t = w.cat(['T', w.text(name, n)])
    out, ctx = [], ''
    if 'c' in spec:
        ctx = w.cat(['C', w.text(name + 'c', n)])
        out += ['<!-- mdpo-context ', ctx, ' -->\n\n']
    if 'd' in spec:
        out += ['<!-- mdpo-disable-next-block -->\n\n']
    key = (t, ctx)
    if 'i' in spec:
        out += ['<!-- mdpo-include ', t, ' -->\n']
    elif 'r' in spec:
        r = w.cat(['[R', t[1:], ']: U'])
        out += ['[R', t[1:], '] Zulu\n\n', r, '\n']
        return w.cat(out), [(w.cat(['[R', t[1:], '] Zulu']), ''), (r, '')]
    elif 'l' in spec:
        out += ['- ', t, '\n']
    elif 'h' in spec:
        out += ['# ', t, '\n']
    else:
        out += [t, '\n']
    return w.cat(out), [] if 'd' in spec else [key]


def document(w, specs, n=1):
    """A document and its messages."""
    parts, ks, last = [], [], []
    for i, s in enumerate(specs):
        d, k = message(w, f'm{i}', s, n)
        parts.append(d)
        parts.append('\n')
        ks += k[:1]
        last += k[1:]
    return w.cat(parts), ks + last


def update(w, doc, rel='a.po', **kw):
    """md2po on the document, saving; (PO file as saved, was it changed?)"""
    w.write('d.md', doc)
    m = extract(w.path('d.md'), po_filepath=w.path(rel), save=True, _check_saved_files_changed=True, **kw)
    return polib.pofile(w.path(rel)), m._saved_files_changed


def isin(w, key, ks):
    return any(w.eq(key, k) for k in ks)


def found(w, key, po, obsolete=None):
    """Entries of a key in a PO file."""
    return [e for e in po if w.eq(entry_key(e), key) and obsolete in (None, bool(e.obsolete))]


def show(po):
    return [(entry_key(e), e.msgstr, bool(e.obsolete), 'fuzzy' in e.flags) for e in po]
