"""C22: events see everything and skip exactly what they refuse."""
import md4c

import mdpo.md2po
import mdpo.po2md
from harness import docs, seqs
from harness.common import empty_po, entry_key, extract, fill, is_ref, keys, translate, write_po
from mdpo.event import parse_events_kwarg, raise_skip_event
from mdpo.md4c import DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS

PARSER = ('enter_block', 'leave_block', 'enter_span', 'leave_span', 'text')
VALUES = (False, None, True, 0, '', 'False', 0.0, ())
OTHER = (None, True, 0, '')
ORDER = ['p/em', 'p/code', 'p/link-title', 'p/img', 'p/link-img', 'p/del', 'p/latex', 'p/latex-display', 'p/wikilink-text',
         'p/strong-em', 'p/html', 'p/soft', 'h/code', 'ul/link', 'td/em', 'ul-nested', 'ol-in-ul', 'li-code-lines', 'quote-ul',
         'quote-code', 'task', 'table-align', 'hr', 'html', 'html-comment', 'ref', 'ref-title', 'ref-two', 'ref-mid', 'code',
         'indented', 'include', 'setext', 'empty']
COMMANDS = ('context', 'translator', 'disable', 'enable', 'disable-next-block', 'enable-next-line', 'include-codeblock', 'include')
SEQ = {'p3': seqs.DOCS['p3'], 'ul-in': seqs.DOCS['ul-in'], 'quote-ul': seqs.DOCS['quote-ul'], 'li-h': seqs.DOCS['li-h'],
       'code': '«a»\n\n@\n\n```\n«b»\n```\n\n@\n\n«c»\n'}
MSGS = {
    'p': '«a»\n\n«b»\n\n«c»\n',
    'h': '# «a»\n\n«b»\n\n## «c»\n\n«d»\n',
    'ul': '- «a»\n- «b»\n- «c»\n\n«d»\n',
    'ul-ol': '- «a»\n  1. «b»\n  2. «c»\n- «d»\n',
    'loose': '1. «a»\n\n   «b»\n\n2. «c»\n',
    'table': '| «a» | «b» |\n| --- | --- |\n| «c» | «d» |\n',
    'quote': '> «a»\n>\n> «b»\n\n«c»\n',
    'code': '«a»\n\n```\n«b»\n```\n\n«c»\n',
    'spans': '*«a»* `«e»`\n\n[«b»](x)\n\n~~«c»~~\n',
    'context': '<!-- mdpo-context One -->\n\n«a»\n\n«b»\n',
}
BOUNDS = ('calls of the functions: up to 3 functions with any of 8 values returned (False, None, True, 0, empty and other '
          'ones); order: 34 documents of harness/docs.py with two recording functions for each event, and with one while '
          'they are displayed (debug); refusals: each of the '
          'parser events of 25 of them, alone or with its counterpart (against the same run without these events), each '
          'subset of the messages of 10 documents, each subset of 2 or 3 commands of 8 kinds, each subset of 3 references, in '
          'md2po and po2md, one symbolic character in each text. What a parser does after a refused start of a block '
          'or span whose end is not refused is only required to be the same as if the start was not in the document')
REACH = ['skipped', 'not-skipped', 'order', 'refused', 'command-refused', 'reference-refused', 'msgid-refused', 'file']


def cases(tier):
    cs = [{'m': 'unit', 'n': n} for n in (0, 1, 2, 3)]
    cs += [{'m': 'kwarg', 'k': k} for k in ('function', 'list', 'path', 'method', 'no-function', 'no-file', 'missing')]
    for p in ('md2po', 'po2md'):
        cs += [{'m': 'order', 'p': p, 'd': d} for d in (ORDER if tier == 'quick' else docs.all_docs())]
        cs += [{'m': 'skip', 'p': p, 'd': d} for d in (ORDER[:25] if tier == 'quick' else ORDER)]
        cs += [{'m': 'msgid', 'p': p, 'd': d} for d in MSGS]
        cs += [{'m': 'command', 'p': p, 'd': d, 'c': c} for d in SEQ for c in COMMANDS]
        cs += [{'m': 'ref', 'p': p, 'd': d} for d in (0, 1)]
    return cs


def run(w, case):
    globals()['do_' + case['m']](w, case)


def do_unit(w, case):
    n, calls = case['n'], []
    values = [w.pick(f'r{i}', VALUES) for i in range(n)]
    x = w.text('x', 2)

    def function(i):
        def f(*args):
            calls.append((i, args))
            return values[i]
        return f
    events = {'msgid': [function(i) for i in range(n)], 'text': [lambda *a: calls.append('text')]}
    skip = raise_skip_event(events, 'msgid', 'self', x, None)
    want = any(v is False for v in values)
    w.reach('skipped' if want else 'not-skipped')
    w.check(skip is want, 'decision', (values, skip))
    w.check(w.eq(calls, [(i, ('self', x, None)) for i in range(n)]), 'calls', calls)
    if n == 0:
        w.check(raise_skip_event({}, 'msgid', x) is False and raise_skip_event({'text': [lambda *a: False]}, 'msgid', x) is False,
                'no events', n)


SOURCE = '''calls = []


def refuse(*args):
    calls.append(args)
    return False


class Events:
    def accept(*args):
        calls.append(args)
'''


def do_kwarg(w, case):
    k = case['k']
    f, g = (lambda *a: False), (lambda *a: None)
    path = w.write(f"events_{k.replace('-', '_')}.py", SOURCE)
    if k in ('function', 'list'):
        r = parse_events_kwarg({'text': f if k == 'function' else [f, g], 'msgid': g})
        w.check(list(r) == ['text', 'msgid'] and r['msgid'] == [g] and r['text'] == ([f] if k == 'function' else [f, g]),
                'functions', r)
    elif k in ('path', 'method'):
        name = 'refuse' if k == 'path' else 'Events.accept'
        r = parse_events_kwarg({'text': [f'{path}::{name}', f], 'msgid': f'{path}::refuse'})
        w.check([len(x) for x in r.values()] == [2, 1] and r['text'][1] is f, 'functions', r)
        x = w.text('x', 1)
        w.check(raise_skip_event({'text': r['text'][:1]}, 'text', x) is (k == 'path'), 'called', k)
        w.check(raise_skip_event(r, 'text', x) is True and raise_skip_event(r, 'msgid', x) is True, 'called', k)
        w.reach('file')
    else:
        arg = {'no-function': path, 'no-file': path + 'x::refuse', 'missing': path + '::other'}[k]
        r = w.call(parse_events_kwarg, {'text': arg})
        w.check(r[:2] == ('raise', 'FileNotFoundError' if k == 'no-file' else 'ValueError'), 'error', r)


# --- documents ---

def details(d):
    return sorted((k, v if isinstance(v, (int, bool, type(None))) or type(v).__name__ == 'SymStr' else str(v)
                   if not isinstance(v, (list, tuple)) else [tuple(x) for x in v]) for k, v in d.items()
                  if k != 'task_mark_offset')  # in bytes


def recorder(log, values=None, tag=None):
    """Functions for all the events, which add to the log."""
    def f(kind):
        def g(self, *args):
            args = tuple(args)
            if kind in PARSER[:4]:
                args = (args[0].name, details(args[1]))
            elif kind == 'text':
                args = (args[0].name, args[1])
            log.append((kind, args) if tag is None else (kind, args, tag))
            return values
        return g
    return {k: f(k) for k in PARSER + ('command', 'msgid', 'link_reference')}


def parsed(w, doc):
    """What the parser of Markdown reports."""
    log = []
    r = recorder(log)
    p = md4c.GenericParser(0, **dict.fromkeys(DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS, True))
    p.parse(doc, *[lambda a, b, k=k: r[k](None, a, b) and None for k in PARSER])
    return log


def execute(w, program, doc, events, po=None, **kw):
    """Everything that a run leaves."""
    if program == 'md2po':
        m = extract(doc, events=events, include_codeblocks=True, location=False, **kw)
        return [[entry_key(e) + (e.tcomment or '',) for e in m.found_entries], keys(m.disabled_entries), keys(m.pofile)]
    p = translate(doc, po or empty_po(w), wrapwidth=0, events=events, **kw)
    return [p.output, keys(p.translated_entries), keys(p.disabled_entries)]


def document(w, case):
    doc = fill(w, docs.document(case['d']), {}, 1, prefix='T')
    ks = keys(extract(doc, include_codeblocks=True).pofile)
    return doc, write_po(w, 'a.po', [(k, k if is_ref(k) else w.cat(['Tr', str(i), '\n' if k[-1:] == '\n' else '']),
                                      {'msgctxt': c or None}) for i, (k, c) in enumerate(ks)])


def do_order(w, case):
    doc, po = document(w, case)
    value, log = w.pick('value', OTHER), []
    a, b = recorder(log, value, 1), recorder(log, None, 2)
    got = execute(w, case['p'], doc, {k: [a[k], b[k]] for k in a}, po)
    w.obs('log', log)
    w.check(w.eq(got, execute(w, case['p'], doc, None, po)), 'same:' + case['d'], (doc, got))
    # showing them changes nothing
    shown = []
    r = w.call(execute, w, case['p'], doc, recorder(shown), po, debug=True)
    w.check(r[0] == 'ok' and w.eq(r[1], got) and w.eq(shown, [e[:2] for e in log[::2]]), 'debug:' + case['d'], (doc, r, shown))
    w.check(len(log) % 2 == 0 and all(w.eq(x + (1,), y) and w.eq(x + (2,), z)
                                      for x, y, z in zip([e[:2] for e in log[::2]], log[::2], log[1::2])),
            'twice:' + case['d'], log)
    seen = [e[:2] for e in log[::2]]
    blocks = [e for e in seen if e[0] in PARSER]
    want = parsed(w, doc)
    w.check(w.eq(blocks, want), 'parsed:' + case['d'], (blocks, want))
    msgs = [(e[1][0], e[1][2] or '') for e in seen if e[0] == 'msgid' and e[1][0]]
    if case['p'] == 'po2md':  # the references do not raise the event
        msgs += [k for k in got[1] if is_ref(k[0])]
    ks = [k[:2] for k in got[0]] if case['p'] == 'md2po' else got[1]
    w.check(w.eq(msgs, ks), 'messages:' + case['d'], (doc, msgs, ks))
    refs = [e for e in seen if e[0] == 'link_reference']
    n = len([k for k in ks if is_ref(k[0])])
    w.check(len(refs) == n, 'references:' + case['d'], (doc, refs, n))
    # messages and references are reported where they are found
    if refs:
        last = max(i for i, e in enumerate(seen) if e[0] in PARSER)
        w.check(all(i > last for i, e in enumerate(seen) if e[0] == 'link_reference'), 'references last:' + case['d'], seen)
    for i, e in enumerate(seen):
        if e[0] == 'msgid' and e[1][0]:
            texts = [x[1][1] for x in seen[:i] if x[0] == 'text']
            w.check(bool(texts), 'after its text:' + case['d'], seen)
            w.reach('order')


class Filtered:
    """The parser without some of its events."""
    drop = ()

    def __init__(self, *args, **kwargs):
        self.parser = REAL(*args, **kwargs)

    def parse(self, content, *functions):
        n = iter(range(10 ** 6))

        def call(f):
            def g(a, b):
                if next(n) not in Filtered.drop:
                    f(a, b)
            return g
        self.parser.parse(content, *[call(f) for f in functions])


REAL = md4c.GenericParser


def without(w, drop, f):
    """The run of f with the parser without some events."""
    Filtered.drop = drop
    mods = [(m, x) for m in (md4c, mdpo.md2po, mdpo.po2md) for x in ('GenericParser',) if hasattr(m, x)]
    old = [getattr(m, x) for m, x in mods]
    global REAL
    REAL = old[0]
    for m, x in mods:
        setattr(m, x, Filtered)
    try:
        return w.call(f)
    finally:
        for (m, x), o in zip(mods, old):
            setattr(m, x, o)


def do_skip(w, case):
    doc, po = document(w, case)
    stream = parsed(w, doc)
    n = len(stream)
    if not n:
        return
    k = w.pick('k', tuple(range(n)))
    drop = {k}
    if stream[k][0].startswith('enter') and w.pick('both', (True, False)):
        # with the end of what it starts
        kind, deep = stream[k][0][5:], 0
        for j in range(k, n):
            deep += (stream[j][0] == 'enter' + kind) - (stream[j][0] == 'leave' + kind)
            if deep == 0:
                drop.add(j)
                break
    count = iter(range(10 ** 6))
    refuse = {x: [lambda *a: None, lambda *a: next(count) not in drop and None, lambda *a: True] for x in PARSER}
    got = w.call(execute, w, case['p'], doc, refuse, po)
    want = without(w, drop, lambda: execute(w, case['p'], doc, None, po))
    w.obs('got', got[:2])
    w.check(w.eq(got[:2], want[:2]), 'skipped:' + case['d'], (doc, sorted(drop), [stream[x] for x in sorted(drop)], got, want))
    w.reach('refused')


def do_msgid(w, case):
    t = MSGS[case['d']]
    doc = fill(w, t, {}, 1, prefix='T')
    all_ = execute(w, 'md2po', doc, None)[0]
    refused = [w.pick(f'r{i}', (False, True)) for i in range(len(all_))]
    if case['d'] == 'context' and refused[0]:
        return  # the context goes to the next message
    i = iter(range(100))

    def event(self, msgid, *args):
        if msgid and refused[next(i)]:
            return False
        return None
    if any(refused):
        w.reach('msgid-refused')
    want = [k for k, r in zip(all_, refused) if not r]
    if case['p'] == 'md2po':
        got = execute(w, 'md2po', doc, {'msgid': [event]})
        w.check(w.eq(got[0], want), 'messages:' + case['d'], (doc, refused, got, want))
        return
    trans = [w.cat(['Tr', str(j), '\n' if k[0][-1:] == '\n' else '']) for j, k in enumerate(all_)]
    po = write_po(w, 'a.po', [(k, tr, {'msgctxt': c or None}) for (k, c, _), tr in zip(all_, trans)])
    out, done, disabled = execute(w, 'po2md', doc, {'msgid': [event]}, po)
    w.obs('out', out)
    w.check(w.eq(done, [k[:2] for k in want]) and not disabled, 'translated:' + case['d'], (doc, refused, done, want))
    texts = [tr for tr, r in zip(trans, refused) if not r]
    rest = out
    for tr in texts:
        j = rest.find(tr.strip())
        w.check(j >= 0, 'written:' + case['d'], (doc, out, texts))
        rest = rest[j + len(tr.strip()):]
    w.check(not any(x in out for x in ('Ta', 'Tb', 'Tc', 'Td', 'Te')), 'originals:' + case['d'], (doc, out))
    w.check(sum(out.count(x.strip()) for x in trans) == len(texts), 'refused:' + case['d'], (doc, refused, out))


def do_command(w, case):
    t, c = SEQ[case['d']], case['c']
    n = seqs.slots(t)
    use = [w.pick(f'u{i}', (True, False)) for i in range(n)]
    refused = [w.pick(f'r{i}', (True, False)) for i in range(n)]
    comment = {'context': 'One', 'translator': 'Note', 'include': 'Other'}.get(c)
    text = {x: w.cat(['T', x, w.text(x, 1)]) for x in 'abcd'}
    tail = '' if comment is None else f' {comment}'

    def doc(refuse):
        out, i = [], 0
        for part in seqs.re.split('(@|«[^»]*»)', t):
            if part == '@':
                out.append('<!-- Nothing. -->' if refuse and refused[i] else
                           f'<!-- mdpo-{c if use[i] else "no-command"}{tail} -->')
                i += 1
            else:
                out.append(text[part[1]] if part.startswith('«') else part)
        return w.cat(out)
    calls, i = [], iter(range(100))

    def event(self, command, comment, original):
        j = next(i)
        calls.append((command, comment, original))
        return False if refused[j] else None
    events = {'command': [event, lambda *a: None]}
    po = write_po(w, 'a.po', [(text[x] + e, 'Tr' + x + e, {'msgctxt': y}) for x in 'abcd' for y in (None, 'One')
                              for e in ('', '\n')] + [('Other', 'Trother')])
    kw = {} if case['p'] == 'po2md' else {'include_codeblocks': False}
    d = doc(False)
    if case['p'] == 'md2po':
        got, want = (entries(w, x, e) for x, e in ((d, events), (doc(True), None)))
    else:
        got, want = (execute(w, 'po2md', x, e, po) for x, e in ((d, events), (doc(True), None)))
        for g in (got, want):
            g[0] = [x for x in ' '.join(y for y in g[0].split('\n')
                                        if '<!--' not in y and '-->' not in y and y.strip('> ')).split(' ') if x]
    w.obs('got', got)
    if any(refused):
        w.reach('command-refused')
    names = [(f'mdpo-{c}' if u else 'mdpo-no-command', comment) for u in use]
    w.check(w.eq([x[:2] for x in calls], names), 'called:' + case['d'], (d, calls, names))
    w.check(w.eq(got, want), 'commands:' + case['d'], (d, refused, got, want))


def entries(w, doc, events):
    m = extract(doc, events=events, location=False)
    return [[entry_key(e) + (e.tcomment or '',) for e in m.found_entries], keys(m.disabled_entries), keys(m.pofile)]


def do_ref(w, case):
    ends = ('[1]: /«d»\n[2]: /«e» "«f»"\n[3]: /«g:2»\n', '[3]: «d»\n\n[2]: <«e»>\n[1]: /«f» (T «g»)\n')[case['d']]
    holes = {}
    doc = fill(w, '[«a»][1] [«b»][2]\n\n[«c»][3]\n\n' + ends, holes, 1, prefix='T')
    refused = [w.pick(f'r{i}', (False, True)) for i in range(3)]
    i, calls = iter(range(100)), []

    def event(self, target, href, title):
        calls.append(target)
        return False if refused[next(i)] else None
    events = {'link_reference': [lambda *a: None, event]}
    base, got = execute(w, 'md2po', doc, None), execute(w, 'md2po', doc, events)
    refs = [k for k in base[0] if is_ref(k[0])]
    w.check(len(refs) == 3, 'references', (doc, refs))
    lost = [k for k, r in zip(refs, refused) if r]
    if lost:
        w.reach('reference-refused')
    if case['p'] == 'md2po':
        w.check(w.eq(got[0], [k for k in base[0] if not any(w.eq(k, x) for x in lost)]), 'refused', (doc, refused, got))
        w.check(calls == ['1', '2', '3'][::1 if not case['d'] else -1], 'calls', calls)
        return
    i = iter(range(100))
    calls.clear()
    po = write_po(w, 'a.po', [(k[0], w.cat(['[', k[0][1], ']: Tr', str(j)]), {}) for j, k in enumerate(refs)])
    p, q = execute(w, 'po2md', doc, None, po), execute(w, 'po2md', doc, events, po)
    w.check(calls == ['1', '2', '3'][::1 if not case['d'] else -1], 'calls', calls)
    want = [line for line in p[0].split('\n') if not any(r and line[:3] == k[0][:3] and line[3:4] == ':' for r, k in zip(refused, refs))]
    w.check(w.eq([x for x in q[0].split('\n') if x], [x for x in want if x]), 'refused', (doc, refused, q[0], want))
    w.check(w.eq(q[1], [k for k in p[1] if not any(w.eq(k, x[:2]) for x in lost)]), 'translated', (doc, refused, q))
