"""C07: code blocks are extracted exactly when asked for."""
from harness import seqs
from harness.common import extract

BOUNDS = ('the documents with code blocks of harness/seqs.py (fenced and indented, in lists and quotes, empty), with up to 3 '
          'commands (4 in the thorough tier), each none, any of the four of code blocks, or a disabling of the next block or '
          'of everything, with the option given or not, and texts of one symbolic character')
REACH = ['included', 'not-included', 'disabled']
CMDS = ('', 'include-codeblock', 'disable-codeblock', 'include-codeblocks', 'disable-codeblocks', 'disable-next-block',
        'disable', 'enable-next-block')


def cases(tier):
    cs = []
    for d in seqs.CODE:
        for o in (False, True):
            if seqs.slots(seqs.CODE[d]) > 2:
                cs += [{'d': d, 'o': o, 'c': c} for c in CMDS]
            else:
                cs.append({'d': d, 'o': o})
            if tier == 'thorough':
                cs.append({'d': d, 'o': o, 'pre': True})
    cs += [{'d': d, 'o': o} for d in ('p3', 'ul-in') for o in (False, True)]
    return cs


def run(w, case):
    d = case['d']
    t = {**seqs.DOCS, **seqs.CODE}[d]
    if 'pre' in case:
        t = '@\n\n«z»\n\n' + t
    cmds = [w.pick(f'c{i}', CMDS) for i in range(seqs.slots(t) - ('c' in case))]
    if 'c' in case:
        cmds.insert(0, case['c'])
    doc, tokens = seqs.document(w, t, cmds, lambda n: w.cat(['T' + n, w.text(n, 1)]))
    live, off = [], []
    every, disabled, inc, exc, dis, en = case['o'], False, False, False, False, False
    for kind, name, x in seqs.codes(w, t, tokens):
        if kind == 'command':
            if name == 'include-codeblocks':
                every = True
            elif name == 'disable-codeblocks':
                every = False
            inc = inc or name == 'include-codeblock'
            exc = exc or name == 'disable-codeblock'
            dis = dis or name == 'disable-next-block'
            en = en or name == 'enable-next-block'
            disabled = disabled or name == 'disable'
            continue
        if kind == 'code':
            given = (every or inc) and not exc
            inc = exc = False
            w.reach('included' if given else 'not-included')
            if not given or x == '':
                continue
        if en or not (dis or disabled):
            live.append(x)
        else:
            w.reach('disabled')
            off.append(x)
        dis = en = False
    m = extract(doc, include_codeblocks=case['o'])
    got = [e.msgid for e in m.found_entries]
    goff = [e.msgid for e in m.disabled_entries]
    w.obs('got', got)
    w.obs('off', goff)
    w.check(w.eq(got, live), 'extracted-' + d, (doc, got, live))
    w.check(w.eq(goff, off), 'disabled-' + d, (doc, goff, off))
