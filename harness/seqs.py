"""Documents with slots for commands («x» are holes with text, @ are slots)."""
import re

DOCS = {
    'p3': '«a»\n\n@\n\n«b»\n\n@\n\n«c»\n',
    'p3-two': '@\n@\n\n«a»\n\n@\n\n«b»\n\n«c»\n',
    'p-first-last': '@\n\n«a»\n\n«b»\n\n@\n',
    'h-p': '@\n# «a»\n\n@\n«b»\n---\n\n«c»\n',
    'tight-p': '@\n«a»\n@\n\n«b»\n\n«c»\n',
    'hr': '@\n\n***\n\n«a»\n\n@\n\n***\n\n«b»\n',
    'html': '@\n\n<div>\n\n«a»\n\n</div>\n\n@\n\n<hr>\n\n«b»\n',
    'ul': '@\n\n- «a»\n- «b»\n\n@\n\n«c»\n',
    'ol': '@\n\n1. «a»\n2. «b»\n\n@\n\n«c»\n',
    'ul-in': '- «a»\n\n  @\n\n- «b»\n\n  @\n\n- «c»\n',
    'ul-tight-in': '- «a»\n  @\n- «b»\n  @\n- «c»\n',
    'li-p': '- «a»\n\n  @\n\n  «b»\n\n- «c»\n',
    'ul-nested': '- «a»\n\n  @\n\n  - «b»\n\n    @\n\n  - «c»\n\n«d»\n',
    'ul-nested-out': '- «a»\n  - «b»\n    @\n- «c»\n\n@\n\n«d»\n',
    'ol-nested': '1. «a»\n\n   @\n\n   1. «b»\n\n2. «c»\n\n@\n\n«d»\n',
    'ol-in-ul': '- «a»\n\n  @\n\n  1. «b»\n\n- «c»\n',
    'quote': '@\n\n> «a»\n>\n> @\n>\n> «b»\n\n«c»\n',
    'quote-end': '> «a»\n>\n> @\n\n«b»\n\n@\n\n> «c»\n',
    'quote-ul': '> @\n>\n> - «a»\n> - «b»\n\n@\n\n«c»\n',
    'table': '@\n\n| «a» | «b» |\n| --- | --- |\n| «c» | «d» |\n\n@\n\n«e»\n',
    'table-p': '«a»\n\n@\n\n| «b» |\n| --- |\n| «c» |\n\n«d»\n',
    'li-h': '- @\n\n  # «a»\n\n  «b»\n\n@\n\n- «c»\n',
    'li-quote': '- «a»\n\n  @\n\n  > «b»\n\n@\n\n«c»\n',
    'same': '«a»\n\n@\n\n«b»\n\n@\n\n«a»\n',
    'ref': '@\n\n«a» [«b»][1]\n\n@\n\n«c»\n\n[1]: «d»\n',
    'ref-end': '[«b»][1]\n\n«c»\n\n@\n\n[1]: «d»\n\n@\n',
    'comment': '@\n\n<!-- other: comment -->\n\n«a»\n\n@\n<!--\nlines\n-->\n\n«b»\n',
}
LONG = {
    'p4': '@\n\n«a»\n\n@\n\n«b»\n\n@\n\n«c»\n\n@\n\n«d»\n',
    'p-twos': '@\n@\n\n«a»\n\n@\n@\n\n«b»\n\n«c»\n',
    'mixed': '@\n\n# «a»\n\n@\n\n- «b»\n- «c»\n\n@\n\n> «d»\n\n«e»\n',
    'mixed2': '@\n\n1. «a»\n   - «b»\n\n@\n\n| «c» |\n| --- |\n| «d» |\n\n@\n\n***\n\n«e»\n',
}
CODE = {
    'code-p': '@\n\n```\n«a»\n```\n\n@\n\n«b»\n',
    'p-code-p': '@\n\n«a»\n\n```\n«b»\n```\n\n@\n\n«c»\n',
    'two-codes': '@\n\n```\n«a»\n```\n\n@\n\n```\n«b»\n\n«c»\n```\n\n«d»\n',
    'codes-twos': '@\n@\n\n```\n«a»\n```\n\n«b»\n\n```\n«c»\n```\n',
    'indented': '@\n\n    «a»\n      «b»\n\n«c»\n\n@\n\n    «d»\n',
    'li-code': '- «a»\n\n  @\n\n  ```\n  «b»\n  ```\n\n- «c»\n\n@\n\n```\n«d»\n```\n',
    'li-tight': '- «a»\n  @\n  ```\n  «b»\n  ```\n- «c»\n\n@\n\n«d»\n',
    'quote-code': '> @\n>\n> ```\n> «a»\n> ```\n>\n> «b»\n\n@\n\n```\n«c»\n```\n',
    'empty-code': '@\n\n```\n```\n\n@\n\n```\n«a»\n```\n\n«b»\n',
    'h-code': '# «a»\n\n@\n\n~~~python\n«b»\n~~~\n\n@\n\n    «c»\n',
    'punctuation': '@\n\n```\n*«a»* <b> &amp; \\` [«b»](«c») \n# «d»\n```\n\n@\n\n    - `«e»`\n    > «f» $\n\n«g»\n',
    'three-codes': '@\n\n```\n«a»\n```\n\n@\n\n```\n«b»\n```\n\n@\n\n```\n«c»\n```\n',
}
EN_NEXT = ('enable-next-block', 'enable-next-line')
DIS_NEXT = ('disable-next-block', 'disable-next-line')
ABLE = ('enable', 'disable') + EN_NEXT + DIS_NEXT


def document(w, template, commands, text):
    """Text of a template, and its tokens: ('command', name, comment) and ('text', name, text)."""
    out, tokens, done = [], [], {}
    for part in re.split('(@|«[^»]*»)', template):
        if part == '@':
            c = commands[sum(t[0] == 'command' for t in tokens)]
            name, comment = c if isinstance(c, tuple) else (c, None)
            tokens.append(('command', name, comment))
            if name:
                out.append(w.cat(['<!-- mdpo-', name, '' if comment is None else w.cat([' ', comment]), ' -->']))
        elif part.startswith('«'):
            name = part[1:-1]
            if name not in done:
                done[name] = text(name)
            tokens.append(('text', name, done[name]))
            out.append(done[name])
        else:
            out.append(part)
    return w.cat(out), tokens


def slots(template):
    return template.count('@')


def extracted(tokens):
    """For each text or included message, is it extracted?; the specification of the commands."""
    disabled = dis = en = False
    out = []
    for kind, name, x in tokens:
        if kind == 'command':
            if name in EN_NEXT:
                en = True
            elif name in DIS_NEXT:
                dis = True
            elif name == 'enable':
                disabled = False
            elif name == 'disable':
                disabled = True
            if name != 'include':
                continue
        out.append((x, en or not (disabled or dis)))
        dis = en = False
    return out


def codes(w, t, tokens):
    """Tokens of a template with the contents of code blocks, as one token ('code', '', content) each."""
    out, i = [], 0
    code, fence = None, False  # content of the block, is it fenced?
    for line in t.split('\n'):
        bare = line.lstrip('> ')
        indented = line.startswith('    ') and bool(bare)
        if bare[:3] in ('```', '~~~'):
            if fence:
                out.append(('code', '', w.cat(code)))
                code, fence = None, False
            else:
                code, fence = [], True
            continue
        if code is not None and not fence and bare and not indented:
            while code[-1] == '\n':
                code.pop()
            out.append(('code', '', w.cat(code)))
            code = None
        if indented and code is None:
            code = []
        part = []
        for x in re.split('(@|«[^»]*»)', line[4:] if indented else bare if fence else ''):
            if x[:1] in ('@', '«') and x:
                part.append(tokens[i][2])
                i += 1
            else:
                part.append(x)
        if code is not None:
            code.append(w.cat(part + ['\n']))
        else:
            for x in re.findall('@|«[^»]*»', line):
                out.append(tokens[i])
                i += 1
    if code:
        while code[-1] == '\n':
            code.pop()
        out.append(('code', '', w.cat(code)))
    return out
