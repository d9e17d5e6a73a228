"""Document templates («name» are symbolic holes, see common.fill)."""
import re

INLINE = {
    'plain': '«a» «b»',
    'soft': '«a»\n«b»',
    'hard': '«a»  \n«b»',
    'backslash-break': '«a»\\\n«b»',
    'em': '«a» *«b»* «c»',
    'em-underscore': '«a» _«b»_ «c»',
    'strong': '«a» **«b»** «c»',
    'strong-underscore': '__«b»__ «c»',
    'em-strong': '***«b»*** «c»',
    'strong-em': '«a» **«b» *«c»* «d»**',
    'em-in-word': '«a»*«b»*',
    'code': '«a» `«b»` «c»',
    'code2': '«a» ``«b»`«c»`` «d»',
    'code3': '«a» ```«b»``«c»``` «d»',
    'code-space': '«a» `` ` `` «b»',
    'two-codes': '`«a»` ``«b»`«c»``',
    'code-soft': '«a» `«b»\n«c»` «d»',
    'code-star': '`*«a»*` «b»',
    'code-backslash': '`«a»\\` «b»',
    'link': '«a» [«b»](«c») «d»',
    'link-title': '[«a»](«b» "«c»")',
    'link-title-quote': '[«a»](«b» "«c»\\"«d»")',
    'link-em': '[«a» *«b»* «c»](«d»)',
    'link-strong': '[**«b»**](«d»)',
    'link-code': '[`«a»`](«b»)',
    'link-code2': '[``«a»`«c»``](«b»)',
    'link-del': '[~~«a»~~](«b»)',
    'link-latex': '[$«a»$](«b»)',
    'link-soft': '[«a»\n«c»](«b»)',
    'link-img': '[![«a»](«b»)](«c»)',
    'link-img-title': '[![«a»](«b» "«d»")](«c»)',
    'em-link': '*[«a»](«b»)* «c»',
    'strong-link': '«c» **«d» [«a»](«b»)**',
    'two-links': '[«a»](«b») [«c»](«d»)',
    'autolink': '«a» <https://site.org> «c»',
    'email': '«a» <me@site.org> «d»',
    'link-self': '[https://site.org](https://site.org) «a»',
    'img': '«a» ![«b»](«c») «d»',
    'img-title': '![«b»](«c» "«d»")',
    'img-em': '![«b» *«a»*](«c»)',
    'del': '«a» ~~«b»~~ «c»',
    'del-em': '~~«a» *«b»*~~ «c»',
    'latex': '«a» $«b»$ «c»',
    'latex-display': '$$«a»$$',
    'latex-display-text': '«b» $$«a»$$ «c»',
    'wikilink': '«a» [[«b»]] «c»',
    'wikilink-quote': '«a» [[«b»"«c»]] «d»',
    'wikilink-backslash': '«a» [[«b»\\«c»|«d»]]',
    'link-wikilink': '[«a» [[«b»]]](«c»)',
    'wikilink-em': '[[«b»|*«c»* «d»]] «a»',
    'wikilink-code': '[[«b»|`«c»` «d»]] «a»',
    'wikilink-link': '[[«b»|[«c»](«d»)]] «a»',
    'latex-star': '«a» $*$ $`$ «b»',
    'latex-display-star': '$$*$$',
    'link-latex-display': '[$$«a»$$](«b»)',
    'em-latex-display': '*$$«a»$$* «b»',
    'two-latex-display': '$$«a»$$ $$«b»$$',
    'img-title-quote': '![«b»](«c» "«d»\\"«e»")',
    'img-alt-quote': '![«b»"«c»"](«d»)',
    'img-code': '![`«a»` «b»](«c»)',
    'img-soft': '![«a»\n«b»](«c»)',
    'code2-soft': '«a» ``«b»`\n«c»`` «d»',
    'code-spaces': '«a» `«b»  «c»   «d»` «e»',
    'code-space2': '«a» `  «b»  ` «c»',
    'link-entity': '[«a» &amp; «b»](«c»?x=1&amp;y=2)',
    'link-angle': '[«a»](<«b» «c»>)',
    'link-parens': '[«a»](«b»(«c»))',
    'link-empty': '[«a»]() «b»',
    'link-empty-text': '[](«a») «b»',
    'link-bracket': '[«a» \\[«b»\\]](«c»)',
    'wikilink-text': '[[«b»|«c»]] «a»',
    'escaped-star': '«a» \\*«b»\\* «c»',
    'escaped-backtick': '«a» \\`«b»\\` «c»',
    'escaped-bracket': '«a» \\[«b»\\](«c»)',
    'escaped-underscore': '«a» \\_«b»\\_ «c»',
    'escaped-backslash': '«a» \\\\ «b»',
    'escaped-tilde': '«a» \\~~«b»~~ «c»',
    'escaped-dollar': '«a» \\$«b»$ «c»',
    'star-alone': '«a» * «b»',
    'backtick-alone': '«a» ` «b»',
    'quote-char': '«a» "«b»" «c»',
    'entity': '«a» &amp; &copy; «b»',
    'less': '«a» < «b» > «c»',
    'html': '«a» <b>«b»</b> «c»',
    'html-br': '«a»<br>«b»',
    'html-inline-comment': '«a» <!-- «b!»: --> «c»',
    'backslash': '«a»\\«b»',
    'hash': '«a» #«b»',
    'number-dot': '«a» 1. «b»',
    'bang': '«a»! «b»',
    'unicode-space': '«a»\u00a0«b»',
    'tab': '«a»\t«b»',
    'link-same': '[«a»](«a») «b»',
    'link-same-title': '[«a»](«a» "«b»")',
    'link-title-soft': '[«a»](«b» "«c»\n«d»")',
    'link-in-parens': '([«a»](«b»))',
    'wikilink-same': '[[«a»|«a»]] «b»',
    'latex-display-soft': '$$«a»\n«b»$$',
    'em-soft': '*«a»\n«b»* «c»',
    'link-del-em': '[~~«a» *«b»*~~](«c»)',
    'two-spaces': '«a»  «b»',
    'url': '«a» https://«b».org «c»',
    'line-separator': '«a»\u2028«b»',
    'next-line': '«a»\x85«b»',
    'form-feed': '«a»\x0c«b»',
    'html-attr': '«a» <a href="«b»" title="«c»">«d»</a>',
    'entity-number': '«a»&#35;«b» &#x22; «c»',
}

BLOCK = {
    'p': '{}\n',
    'p-p': '{}\n\nZulu\n',
    'h': '## {}\n\nZulu\n',
    'ul': '- {}\n- Zulu\n',
    'ol': '1. {}\n2. Zulu\n',
    'quote': '> {}\n',
    'table': '| {} | Zulu |\n| --- | --- |\n| Yankee | Xray |\n',
    'td': '| Zulu | Yankee |\n| --- | --- |\n| Xray | {} |\n',
    'ul-loose': '- {}\n\n- Zulu\n',
}

BLOCKS = {
    'setext-lines': '«a»\n*«b»\n«c»*\n===\n\n«d»\n',
    'setext': '«a»\n===\n\n«b»\n---\n\n«c»\n',
    'h1-6': '# «a»\n\n## «b»\n\n### «c»\n\n#### «d»\n\n##### «e»\n\n###### «f»\n',
    'h-closed': '## «a» ##\n\n«b»\n',
    'h-p-tight': '# «a»\n«b»\n',
    'three-p': '«a»\n\n«b»\n\n«c»\n',
    'ul-star': '* «a»\n* «b»\n\n«c»\n',
    'ul-plus': '+ «a»\n+ «b»\n',
    'two-uls': '- «a»\n\n* «b»\n',
    'ul-nested': '- «a»\n  - «b»\n  - «c»\n- «d»\n',
    'ul-nested3': '- «a»\n  - «b»\n    - «c»\n- «d»\n',
    'ul-nested-end': '- «a»\n  - «b»\n\n«c»\n',
    'ol-nested': '1. «a»\n   1. «b»\n   2. «c»\n2. «d»\n',
    'ol-paren': '1) «a»\n2) «b»\n',
    'li-hr-star': '* ---\n* «a»\n', 'ol-start': '5. «a»\n6. «b»\n',
    'ul-in-ol': '1. «a»\n   - «b»\n   - «c»\n2. «d»\n',
    'ol-in-ul': '- «a»\n  1. «b»\n  2. «c»\n- «d»\n',
    'ol-in-ul-loose': '- «a»\n\n  1. «b»\n\n  2. «c»\n\n- «d»\n',
    'ol-in-ul2': '- «a»\n  - «b»\n    1. «c»\n       - «d»\n    2. «e»\n- «f»\n',
    'ul-nested-loose': '- «a»\n\n  - «b»\n\n  - «c»\n\n- «d»\n',
    'ol-nested-loose': '1. «a»\n\n   1. «b»\n\n   2. «c»\n\n2. «d»\n',
    'ul-in-ol-loose': '1. «a»\n\n   - «b»\n\n   - «c»\n\n2. «d»\n',
    'ol-in-ul-p': '- «a»\n  1. «b»\n\n«c»\n',
    'mixed4': '1. «a»\n   - «b»\n     1. «c»\n     2. «d»\n   - «e»\n2. «f»\n\n«g»\n',
    'task-nested': '- [ ] «a»\n  - [x] «b»\n',
    'task': '- [ ] «a»\n- [x] «b»\n- [X] «c»\n- «d»\n',
    'li-two-p': '- «a»\n\n  «b»\n\n- «c»\n',
    'li-code': '- «a»\n\n  ```\n  «b»\n  ```\n\n- «c»\n',
    'li-code-tight': '- «a»\n  ```\n  «b»\n  ```\n- «c»\n',
    'li-indented-code': '- «a»\n\n      «b»\n\n- «c»\n',
    'li-h-after': '- «a»\n  # «b»\n- «c»\n',
    'li-hr-tight': '- «a»\n  ***\n- «c»\n',
    'li-html-tight': '- «a»\n  <div>\n- «c»\n',
    'li-code-lines': '- «a»\n\n  ```\n  «b»\n    «c»\n\n  «d»\n  ```\n\n- «e»\n',
    'li-code-p': '- «a»\n  ```\n  «b»\n  ```\n  «c»\n- «d»\n',
    'ol-code': '1. «a»\n   ```\n   «b»\n   ```\n2. «c»\n',
    'ol-indented-code': '1. «a»\n\n       «b»\n\n2. «c»\n',
    'li-quote': '- «a»\n  > «b»\n- «c»\n',
    'li-h': '- # «a»\n- «b»\n',
    'li-hr': '- «a»\n\n  ***\n\n- «c»\n',
    'li-table': '- «a»\n\n  | «b» | «c» |\n  | --- | --- |\n  | «d» | «e» |\n',
    'li-empty': '-\n- «a»\n',
    'ul-p-ul': '- «a»\n\n«b»\n\n- «c»\n',
    'quote-two-lines': '> «a»\n> «b»\n',
    'quote-lazy': '> «a»\n«b»\n',
    'quote-two-p': '> «a»\n>\n> «b»\n\n«c»\n',
    'quote-nested': '> «a»\n>\n> > «b»\n\n«c»\n',
    'quote-ul': '> - «a»\n> - «b»\n\n«c»\n',
    'quote-ol': '> 1. «a»\n> 2. «b»\n\n«c»\n',
    'quote-h': '> # «a»\n>\n> «b»\n',
    'quote-code': '> «a»\n>\n> ```\n> «b»\n> ```\n',
    'quote-code-lines': '> ```\n> «a»\n>\n>  «b»\n> ```\n>\n> «c»\n',
    'quote-indented': '> «a»\n>\n>     «b»\n>\n> «c»\n',
    'quote-hr': '> «a»\n>\n> ***\n>\n> «b»\n',
    'quote-table': '> | «a» | «b» |\n> | --- | --- |\n> | «c» | «d» |\n',
    'quote-p': '> «a»\n\n«b»\n',
    'quote-nested-after': '> «a»\n>\n> > «b»\n>\n> «c»\n\n«d»\n',
    'quote-nested3': '> > > «a»\n> >\n> > «b»\n>\n> «c»\n\n«d»\n',
    'quote-nested-tight': '> «a»\n> > «b»\n> > > «c»\n\n«d»\n',
    'quote-nested-ul': '> > - «a»\n> > - «b»\n>\n> «c»\n',
    'quote-nested-h': '> > # «a»\n> >\n> > «b»\n\n«c»\n',
    'quote-nested-code': '> > ```\n> > «a»\n> >\n> > «b»\n> > ```\n>\n> «c»\n',
    'quote-nested-indented': '> >     «a»\n> >     «b»\n\n«c»\n',
    'quote-nested-hr': '> > ***\n>\n> «c»\n',
    'quote-nested-html': '> > <div>\n> > «a!»\n> > </div>\n\n«b»\n',
    'quote-nested-table': '> > | «a» |\n> > | --- |\n> > | «b» |\n\n«c»\n',
    'quote-ul-quote': '> - «a»\n>   > «b»\n> - «c»\n',
    'quote-html-lines': '> <div>\n> «a!»\n>  «b!»\n> </div>\n\n«c»\n',
    'quote-html-between': '> «a»\n>\n> <span>\n>\n> «b»\n',
    'quote-html-quote': '> <span>\n>\n> > «a»\n',
    'table-code-pipe': '| `«a» \\| «b»` | «c» |\n| --- | --- |\n| «d» \\| «e» \\| «f» | «g» |\n',
    'two-quotes': '> «a»\n\n«b»\n\n> «c»\n',
    'quote-html': '> <span>\n',
    'quote-html-p': '> <span>\n>\n> «a»\n',
    'table-align': '| «a» | «b» | «c» | «d» |\n| :--- | :---: | ---: | --- |\n| «e» | «f» | «g» | «h» |\n\n«i»\n',
    'table-empty-cell': '| «a» | «b» |\n| --- | --- |\n|  | «c» |\n',
    'table-only-head': '| «a» | «b» |\n| --- | --- |\n',
    'table-pipe': '| «a» | «b» |\n| --- | --- |\n| «c» \\| «d» | «e» |\n',
    'table-nopipe': '«a» | «b»\n--- | ---\n«c» | «d»\n',
    'two-tables': '| «a» |\n| --- |\n| «b» |\n\n| «c» |\n| --- |\n| «d» |\n',
    'p-table': '«z»\n\n| «a» |\n| --- |\n| «b» |\n',
    'code': '«a»\n\n```\n«b»\n```\n\n«c»\n',
    'code-lang': '```«l!»\n«b»\n«c»\n```\n',
    'code-tilde': '~~~\n«b»\n~~~\n\n«c»\n',
    'code-long-fence': '````\n```\n«b»\n```\n````\n\n«c»\n',
    'code-info': '```«l!» «m!»\n«b»\n```\n\n«c»\n',
    'code-empty-line': '```\n«b»\n\n«c»\n```\n\n«d»\n',
    'code-indent-inside': '```\n  «b»\n    «c»\n```\n',
    'code-blank-end': '```\n«a»\n\n\n```\n\n«b»\n',
    'code-blank': '```\n\n```\n\n«b»\n',
    'code-lang': '```python\n«b»\n```\n\n«c»\n',
    'code-info': '```python title="a &amp; b.py" linenums\n«b»\n```\n\n«c»\n',
    'code-tilde-info': '«a»\n\n~~~ {.python title="c.py"}\n«b»\n~~~\n',
    'li-code-info': '- «a»\n\n  ```python title="d.py"\n  «b»\n  ```\n',
    'code-tildes-in': '~~~~\n~~~\n```\n«a»\n~~~~\n\n«b»\n',
    'code-empty': '```\n```\n\n«a»\n',
    'indented': '«a»\n\n    «b»\n\n«c»\n',
    'indented2': '    «b»\n      «c»\n\n«d»\n',
    'indented-blank': '    «b»\n\n    «c»\n\n«d»\n',
    'html-comment-word': '«a»\n\n<!-- «b!» -->\n\n«c»\n',
    'hr': '«a»\n\n***\n\n«b»\n',
    'hr-first': '---\n\n«b»\n',
    'html': '<div>\n«a!»\n</div>\n\n«b»\n',
    'html-md': '<div>\n\n«a»\n\n</div>\n',
    'html-comment': '<!-- «a!»: «c!». -->\n\n«b»\n',
    'html-comment-lines': '<!--\n«a!»\n«c!».\n-->\n\n«b»\n',
    'html-end': '«a»\n\n<div>\n«b!»\n</div>\n',
    'html-ref': '<p>\n\n[«a»][1]\n\n</p>\n\n[1]: «b»\n',
    'html-tight': '«a»\n\n<hr>\n\n«b»\n',
    'ref': '[«a»][«b»] «c»\n\n[«b»]: «d»\n',
    'ref-title': '[«a»][«b»] «c»\n\n[«b»]: «d» "«e»"\n',
    'ref-short': '[«b»] «c»\n\n[«b»]: «d»\n',
    'ref-collapsed': '[«b»][] «c»\n\n[«b»]: «d»\n',
    'ref-img': '![«a»][«b»] «c»\n\n[«b»]: «d»\n',
    'ref-two': '[«a»][1] [«c»][2]\n\n[1]: «d:2»\n[2]: «e:3» "«f»"\n',
    'ref-title-quote': "[«a»][«b»] «c»\n\n[«b»]: «d» '«e»\"«f»'\n",
    'ref-img-title': '![«a»][«b»] «c»\n\n[«b»]: «d» "«e»"\n',
    'ref-img-title-quote': "![«a»][«b»] «c»\n\n[«b»]: «d» '«e»\"«f»'\n",
    'ref-same-href': '[«a»][1] [«b»][2]\n\n[1]: «c»\n[2]: «c»\n',
    'ref-titles': '[«a»][1] «b»\n\n[«c»][2] «d»\n\n[1]: /u "«e»"\n[2]: /u "«f»"\n',
    'ref-img-titles': '![«a»][1] «b»\n\n![«c»][2] «d»\n\n[1]: /u "«e»"\n[2]: /u "«f»"\n',
    'ref-img-untitled': '![«a»][1] «b»\n\n![«c»][2] «d»\n\n[1]: /u "«e»"\n[2]: /u\n',
    'ref-img-mixed': '![«a»](/u) «b»\n\n![«c»][2] [«d»][1]\n\n[1]: /u "«e»"\n[2]: /v\n',
    'ref-angle': '[«a»][1]\n\n[1]: <«c»>\n',
    'ref-in-code': '[«a»](«b»)\n\n```\n[«c»]: «d»\n```\n',
    'ref-unused': '«a» [«c»](/«g:2»)\n\n[«b»]: «d»\n',
    'ref-mid': '[«a»][«b»]\n\n[«b»]: «d»\n\n«c»\n',
    'ref-inline': '[«a»][«b»] [«c»](«d»)\n\n[«b»]: «d»\n',
    'same-p': '«a»\n\n«a»\n',
    'empty': '',
    'blank': '\n\n',
    'front-newlines': '\n\n«a»\n\n\n\n«b»\n\n\n',
    'no-eol': '«a»\n\n«b»',
    'crlf': '«a»\r\n«b»\r\n\r\n«c»\r\n',
    'include': '<!-- mdpo-include «a» -->\n\n«b»\n',
    'h-code': '# «a»\n\n```\n«b»\n```\n',
    'p-ul-tight': '«a»\n- «b»\n- «c»\n',
    'ul-code': '- «a»\n\n```\n«b»\n```\n',
    'indented-separators': '    «a»\u2028«b»\x0c«c»\x1c«d»\n\n«e»\n',
    'code-separators': '```\n«a»\u2028«b»\x0c«c»\x1c«d»\n```\n\n«e»\n',
    'p-hr-h': '«a»\n\n---\n\n# «b»\n\n---\n',
}


# blocks to compose
UNITS = {
    'P': '«a»\n',
    'H': '# «a»\n',
    'UL': '- «a»\n- «b»\n',
    'OL': '1. «a»\n2. «b»\n',
    'Q': '> «a»\n',
    'C': '```\n«a»\n```\n',
    'I': '    «a»\n',
    'T': '| «a» |\n| --- |\n| «b» |\n',
    'HR': '***\n',
    'HTML': '<div>\n«a!»\n</div>\n',
    'COM': '<!-- «a!»: «b!». -->\n',
    'CMD': '<!-- mdpo-translator Note -->\n',
}
CONTAINER = {'q': ('> ', '> '), 'ul': ('- ', '  '), 'ol': ('1. ', '   ')}


def simple(name, n=0):
    """'block' or 'block/inline' or 'block/inline+inline'."""
    if '/' in name:
        b, i = name.split('/')
        i, _, j = i.partition('+')
        text = BLOCK[b].replace('{}', INLINE[i] + (' ' + INLINE[j].replace('«', '«x') if j else ''))
    else:
        text = BLOCKS[name] if name in BLOCKS else UNITS[name]
    if n:
        text = text.replace('«', '«' + 'zyxwvutsrq'[n - 1]).replace('[1]', f'[{2 * n + 1}]').replace('[2]', f'[{2 * n + 2}]')
    return text


def document(name):
    """Documents: a name, 'container:document', 'document & document' and '(document)'."""
    if re.fullmatch(r'[\w/+-]+', name):
        return simple(name)
    tokens, leaves = re.findall(r'\w+:|[\w/+-]+|[&()]', name), [0]

    def term():
        token = tokens.pop(0)
        if token == '(':
            text = sequence()
            tokens.pop(0)
            return text
        if token[-1] == ':':
            first, other = CONTAINER[token[:-1]]
            lines = [(other if n else first) + line for n, line in enumerate(term().rstrip('\n').split('\n'))]
            return '\n'.join(line.rstrip(' ') if not line.strip('> ') else line for line in lines) + '\n'
        leaves[0] += 1
        return simple(token, leaves[0] - 1)

    def sequence():
        parts = [term()]
        while tokens and tokens[0] == '&':
            tokens.pop(0)
            parts.append(term())
        return '\n'.join(p.rstrip('\n') + '\n' for p in parts)

    return sequence()


def fits(block, inline):
    t = INLINE[inline]
    if '\n' in t and block in ('h', 'table', 'td'):
        return False
    if '|' in t and block in ('table', 'td'):
        return False
    return True


def pairs(block='p'):
    """Documents with every two inline templates."""
    return [f'{block}/{i}+{j}' for i in INLINE for j in INLINE if fits(block, i) and fits(block, j)]


NOT_COMPOSED = {'include', 'html-comment-word', 'empty', 'blank', 'no-eol', 'crlf', 'ol-start', 'ref-same-href'}
# front matter is not such inside other blocks; items of bulleted lists whose first block is a heading end
# there for md4c if a blank line follows
NOT_NESTED = NOT_COMPOSED | {'front-newlines'}
HEADED = ('ul:h-p-tight', 'ul:setext', 'ul:setext-lines')


def sequences(firsts=None, seconds=None):
    """Two documents one after the other."""
    return [f'{a} & {b}' for a in (firsts or BLOCKS) for b in (seconds or BLOCKS) if not {a, b} & NOT_COMPOSED]


def nested(names=None):
    """Documents inside containers."""
    return [f'{c}:{d}' for c in CONTAINER for d in (names or BLOCKS) if d not in NOT_NESTED and f'{c}:{d}' not in HEADED]


# inlines of which something is lost (known findings of C02), which is reported of each of them alone
LOST = {'hard', 'backslash-break', 'escaped-bracket', 'escaped-dollar', 'escaped-tilde', 'escaped-underscore'}


def nested_inlines():
    return [f'{c}:p/{i}' for c in CONTAINER for i in INLINE if i not in LOST]


def nested2(names=None):
    return [f'{c}:{d}' for c in CONTAINER for d in nested(names)]


def composed(quick=False):
    """Compositions of units, without those whose first block is a heading inside a bulleted list (see HEADED)."""
    ds = []
    for a in UNITS:
        for b in UNITS:
            ds += [f'{c}:({a} & {b})' for c in CONTAINER]
            ds += [f'{c}:{a} & {b}' for c in CONTAINER]
            # commands are removed, and what they separate may be joined then
            if not quick and 'CMD' not in (a, b):
                ds += [f'{a} & {b} & {c}' for c in UNITS if c != 'CMD']
                ds += [f'{c}:({a} & {d}:{b} & P)' for c in CONTAINER for d in CONTAINER]
                ds += [f'{c}:(P & {d}:({a} & {b}))' for c in CONTAINER for d in CONTAINER]
                ds += [f'{c}:({d}:{a} & {b})' for c in CONTAINER for d in CONTAINER]
    return [d for d in ds if 'ul:(H' not in d]


def compositions(tier):
    if tier == 'quick':
        return nested() + nested2(['ul-nested', 'quote-nested', 'li-code', 'table-align', 'mixed4', 'two-quotes']) + composed(True) + \
            nested_inlines() + sequences(seconds=['ul-nested']) + sequences(firsts=['html-end']) + ['p/backtick-alone+code3', 'p/latex-star+code3']
    return nested() + nested2() + composed() + nested_inlines() + sequences() + pairs()


def all_docs(blocks=None, inlines=None):
    return [f'{b}/{i}' for b in (blocks or BLOCK) for i in (inlines or INLINE) if fits(b, i)] + list(BLOCKS)
