"""Regular expression matching on symbolic strings.

A backtracking matcher over CPython's own parse of the pattern (re._parser), with
the same preferences as the sre engine; every character test may fork the path.
"""
import re
import re._constants as C
import re._parser as P

from . import core as S
from . import iv as I

_cache = {}


def compiled(pattern, flags):
    k = (pattern, flags)
    r = _cache.get(k)
    if r is None:
        r = _cache[k] = P.parse(pattern, flags)
    return r


CATS = {
    C.CATEGORY_DIGIT: ('re_digit', False), C.CATEGORY_NOT_DIGIT: ('re_digit', True),
    C.CATEGORY_SPACE: ('re_space', False), C.CATEGORY_NOT_SPACE: ('re_space', True),
    C.CATEGORY_WORD: ('re_word', False), C.CATEGORY_NOT_WORD: ('re_word', True),
}
ASC = {'re_digit': I.DIGIT, 're_space': I.of(' \t\n\r\f\v'), 're_word': I.union(I.ALNUM, I.of('_'))}


def cat(c, flags):
    n, neg = CATS[c]
    s = ASC[n] if flags & re.ASCII else I.pred(n)
    return I.compl(s) if neg else s


_sets = {}


def in_set(items, flags):
    k = (tuple(map(tuple, items)), flags & (re.IGNORECASE | re.ASCII))
    r = _sets.get(k)
    if r is None:
        neg = False
        ivs = []
        for op, av in items:
            if op is C.NEGATE:
                neg = True
            elif op is C.LITERAL:
                ivs.append((av, av))
            elif op is C.RANGE:
                ivs.append((av[0], min(av[1], I.MAX)))
            elif op is C.CATEGORY:
                ivs.extend(cat(av, flags))
            else:
                raise S.PathDegraded(f'regex set item {op}')
        r = I.norm(ivs)
        if flags & re.IGNORECASE:
            ex = []
            for lo, hi in r:
                for c in range(lo, hi + 1):
                    for f in (chr(c).lower(), chr(c).upper()):
                        if len(f) == 1:
                            ex.append((ord(f), ord(f)))
            r = I.union(r, ex)
        if neg:
            r = I.compl(r)
        _sets[k] = r
    return r


class M:
    def __init__(self, es, flags, end):
        self.es = es
        self.n = end
        self.flags = flags

    def m(self, ops, k, i, g, cont):
        """Match ops[k:] at i with groups g, then cont(i, g); returns result or None."""
        if k == len(ops):
            return cont(i, g)
        op, av = ops[k]
        es, n, flags = self.es, self.n, self.flags

        def nxt(i, g):
            return self.m(ops, k + 1, i, g, cont)
        if op is C.LITERAL:
            if flags & re.IGNORECASE:
                if i < n and self.lit(es[i], av):
                    return self.m(ops, k + 1, i + 1, g, cont)
                return None
            j = k + 1
            while j < len(ops) and ops[j][0] is C.LITERAL:
                j += 1
            if i + j - k > n:
                return None
            run = tuple(chr(o[1]) for o in ops[k:j])
            r = S.str_eq(S.SymStr(es[i:i + j - k]), S.SymStr(run))
            if r is False or r is not True and not r:
                return None
            return self.m(ops, j, i + j - k, g, cont)
        if op is C.NOT_LITERAL:
            if i < n and not self.lit(es[i], av):
                return self.m(ops, k + 1, i + 1, g, cont)
            return None
        if op is C.ANY:
            if i < n and (flags & re.DOTALL or not S.char_is(es[i], '\n')):
                return self.m(ops, k + 1, i + 1, g, cont)
            return None
        if op is C.IN:
            if i < n and S.char_in(es[i], in_set(av, flags)):
                return self.m(ops, k + 1, i + 1, g, cont)
            return None
        if op is C.SUBPATTERN:
            gid, addf, delf, sub = av
            sm = self
            if addf or delf:
                sm = M(es, (flags | addf) & ~delf, n)
            st = i

            def done(j, g):
                if gid is not None:
                    g = dict(g)
                    g[gid] = (st, j)
                    g['last'] = gid
                return nxt(j, g)
            return sm.m(list(sub), 0, i, g, done)
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.m(list(alt), 0, i, g, nxt)
                if r is not None:
                    return r
            return None
        if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            if op is C.POSSESSIVE_REPEAT:
                j, gg, c = i, g, 0
                while hi is C.MAXREPEAT or c < hi:
                    r = self.m(sub, 0, j, gg, lambda a, b: (a, b))
                    if r is None or (r[0] == j and c >= lo):
                        break
                    j, gg = r
                    c += 1
                return nxt(j, gg) if c >= lo else None
            if len(sub) == 1 and sub[0][0] in (C.LITERAL, C.NOT_LITERAL, C.IN, C.ANY):
                return self.simple_repeat(op, lo, hi, sub[0], i, g, nxt)
            return self.repeat(op, lo, hi, sub, 0, i, g, nxt, -1)
        if op is C.ATOMIC_GROUP:
            r = self.m(list(av), 0, i, g, lambda a, b: (a, b))
            return None if r is None else nxt(*r)
        if op is C.AT:
            return nxt(i, g) if self.at(av, i) else None
        if op is C.GROUPREF:
            if av not in g:
                return None
            a, b = g[av]
            if i + b - a > n:
                return None
            for x in range(b - a):
                if not S.el_eq_fork(es[a + x], es[i + x]):
                    return None
            return nxt(i + b - a, g)
        if op in (C.ASSERT, C.ASSERT_NOT):
            d, sub = av
            sub = list(sub)
            if d >= 0:
                r = self.m(sub, 0, i, g, lambda a, b: (a, b))
            else:
                lo, hi = P.SubPattern.getwidth(av[1])
                r = None
                if i - lo >= 0:
                    r = self.m(sub, 0, i - lo, g, lambda a, b: (a, b) if a == i else None)
            if op is C.ASSERT:
                return None if r is None else nxt(i, r[1])
            return nxt(i, g) if r is None else None
        if op is C.GROUPREF_EXISTS:
            gid, yes, no = av
            sub = yes if gid in g else (no or [])
            return self.m(list(sub), 0, i, g, nxt)
        raise S.PathDegraded(f'regex op {op}')

    def lit(self, el, av):
        if self.flags & re.IGNORECASE:
            return S.char_in(el, in_set(((C.LITERAL, av),), self.flags))
        if type(el) is S.CV:
            return S.ENG.char_in(el, I.single(av))
        return ord(el) == av

    def one(self, item, i):
        op, av = item
        el = self.es[i]
        if op is C.LITERAL:
            return self.lit(el, av)
        if op is C.NOT_LITERAL:
            return not self.lit(el, av)
        if op is C.IN:
            return S.char_in(el, in_set(av, self.flags))
        return bool(self.flags & re.DOTALL) or not S.char_is(el, '\n')

    def simple_repeat(self, op, lo, hi, item, i, g, nxt):
        c = 0
        while c < lo:
            if i + c >= self.n or not self.one(item, i + c):
                return None
            c += 1
        if op is C.MIN_REPEAT:
            while True:
                r = nxt(i + c, g)
                if r is not None:
                    return r
                if (hi is not C.MAXREPEAT and c >= hi) or i + c >= self.n or not self.one(item, i + c):
                    return None
                c += 1
        while (hi is C.MAXREPEAT or c < hi) and i + c < self.n and self.one(item, i + c):
            c += 1
        while c >= lo:
            r = nxt(i + c, g)
            if r is not None:
                return r
            c -= 1
        return None

    def repeat(self, op, lo, hi, sub, c, i, g, nxt, prev):
        def again(j, gg):
            if j == i and c >= lo:
                return None
            return self.repeat(op, lo, hi, sub, c + 1, j, gg, nxt, i)
        can = hi is C.MAXREPEAT or c < hi
        if c < lo:
            return self.m(sub, 0, i, g, again)
        if op is C.MAX_REPEAT:
            if can:
                r = self.m(sub, 0, i, g, again)
                if r is not None:
                    return r
            return nxt(i, g)
        r = nxt(i, g)
        if r is not None:
            return r
        return self.m(sub, 0, i, g, again) if can else None

    def at(self, av, i):
        es, n = self.es, self.n
        ml = self.flags & re.MULTILINE
        if av is C.AT_BEGINNING or av is C.AT_BEGINNING_STRING:
            if i == 0:
                return True
            return bool(ml and av is C.AT_BEGINNING and S.char_is(es[i - 1], '\n'))
        if av is C.AT_END_STRING:
            return i == n
        if av is C.AT_END:
            if i == n:
                return True
            if ml:
                return S.char_is(es[i], '\n')
            return i == n - 1 and S.char_is(es[i], '\n')
        w = ASC['re_word'] if self.flags & re.ASCII else I.pred('re_word')
        if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            a = i > 0 and S.char_in(es[i - 1], w)
            b = i < n and S.char_in(es[i], w)
            return (a != b) == (av is C.AT_BOUNDARY)
        raise S.PathDegraded(f'regex at {av}')


class SymMatch:
    def __init__(self, s, g, start, end, pat, pos, endpos):
        self.string = s
        self.g = g
        self._s = start
        self._e = end
        self.re = pat
        self.pos, self.endpos = pos, endpos

    def _gi(self, k):
        if isinstance(k, str):
            return self.re.groupindex[k]
        k = k.__index__()
        if k < 0 or k > self.re.groups:
            raise IndexError('no such group')
        return k

    def span(self, k=0):
        k = self._gi(k)
        if k == 0:
            return (self._s, self._e)
        return self.g.get(k, (-1, -1))

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    def _get(self, k, default=None):
        a, b = self.span(k)
        if a < 0:
            return default
        return sub(self.string, a, b)

    def group(self, *ks):
        if not ks:
            return self._get(0)
        if len(ks) == 1:
            return self._get(ks[0])
        return tuple(self._get(k) for k in ks)

    def groups(self, default=None):
        return tuple(self._get(k, default) for k in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self._get(k, default) for n, k in self.re.groupindex.items()}

    def __getitem__(self, k):
        return self._get(k)

    @property
    def lastindex(self):
        return self.g.get('last')

    def expand(self, template):
        return expand(template, self)

    def __bool__(self):
        return True


def sub(s, a, b):
    return s[a:b]


def _prep(pat, s):
    p = pat.pattern
    if isinstance(p, bytes):
        p = p.decode('latin-1')
    tree = list(compiled(p, pat.flags))
    flags = pat.flags
    if isinstance(pat.pattern, bytes):
        flags |= re.ASCII
    return tree, flags


_runs = {}


def required(tree, flags):
    """Literal runs every match contains."""
    if flags & re.IGNORECASE:
        return []
    out, cur = [], []

    def end():
        if cur:
            out.append(tuple(cur))
            cur.clear()

    def go(ops):
        for op, av in ops:
            if op is C.LITERAL:
                cur.append(chr(av))
            elif op is C.SUBPATTERN and not av[1] & re.IGNORECASE:
                go(av[3])
            elif op is C.AT:
                pass
            else:
                end()
                if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT) and av[0] >= 1:
                    go(av[2])
                    end()
    go(tree)
    end()
    return out


def can_occur(run, es, i, n):
    k = len(run)
    for j in range(i, n - k + 1):
        for x, c in zip(es[j:j + k], run):
            if type(x) is S.CV:
                if not I.has(x.iv, ord(c)):
                    break
            elif x != c:
                break
        else:
            return True
    return False


def match_at(pat, s, i, n, full=False, nonempty=False):
    tree, flags = _prep(pat, s)
    key = (pat.pattern, flags)
    req = _runs.get(key)
    if req is None:
        req = _runs[key] = required(tree, flags)
    for run in req:
        if not can_occur(run, s.e, i, n):
            return None
    m = M(s.e, flags, n)

    def fin(j, g):
        if full and j != n or nonempty and j == i:
            return None
        return (j, g)
    return m.m(tree, 0, i, {}, fin)


def search(pat, s, pos=0, endpos=None):
    n = len(s.e) if endpos is None else min(endpos, len(s.e))
    for i in range(pos, n + 1):
        r = match_at(pat, s, i, n)
        if r is not None:
            return SymMatch(s, r[1], i, r[0], pat, pos, n)
    return None


def match(pat, s, pos=0, endpos=None):
    n = len(s.e) if endpos is None else min(endpos, len(s.e))
    r = match_at(pat, s, pos, n)
    return None if r is None else SymMatch(s, r[1], pos, r[0], pat, pos, n)


def fullmatch(pat, s, pos=0, endpos=None):
    n = len(s.e) if endpos is None else min(endpos, len(s.e))
    r = match_at(pat, s, pos, n, True)
    return None if r is None else SymMatch(s, r[1], pos, r[0], pat, pos, n)


def finditer(pat, s, pos=0, endpos=None):
    n = len(s.e) if endpos is None else min(endpos, len(s.e))
    out = []
    i = pos
    empty = False  # an empty match was just found here
    while i <= n:
        r = match_at(pat, s, i, n, False, empty)
        if r is None:
            i += 1
            empty = False
            continue
        out.append(SymMatch(s, r[1], i, r[0], pat, pos, n))
        empty = r[0] == i
        i = r[0]
    return out


def findall(pat, s, pos=0, endpos=None):
    out = []
    for m in finditer(pat, s, pos, endpos):
        if pat.groups == 0:
            out.append(m.group())
        elif pat.groups == 1:
            out.append(m._get(1, ''))
        else:
            out.append(m.groups(''))
    return out


def expand(template, m):
    if isinstance(template, S.SymStr):
        for x in template.e:
            if type(x) is S.CV and S.char_is(x, '\\'):
                raise S.PathDegraded('symbolic template')
        parts = [template]
        if '\\' in ''.join(x for x in template.e if type(x) is str):
            raise S.PathDegraded('symbolic template')
    else:
        parts = P.parse_template(template, m.re)
    out = []
    for p in parts:
        if isinstance(p, int):
            v = m._get(p, '')
            out.extend(S.elems(v))
        else:
            out.extend(S.elems(p))
    return S.mk(out)


def subn(pat, repl, s, count=0):
    out = []
    last = 0
    n = 0
    for m in finditer(pat, s):
        if count and n >= count:
            break
        out.extend(s.e[last:m.start()])
        r = repl(m) if callable(repl) else expand(repl, m)
        if r is not None:
            out.extend(S.elems(r))
        last = m.end()
        n += 1
    out.extend(s.e[last:])
    return S.mk(out), n


def split(pat, s, maxsplit=0):
    out = []
    last = 0
    n = 0
    for m in finditer(pat, s):
        if maxsplit and n >= maxsplit:
            break
        out.append(sub(s, last, m.start()))
        out.extend(m.groups())
        last = m.end()
        n += 1
    out.append(sub(s, last, len(s.e)))
    return out


def call_pattern(pat, name, args, kwargs):
    """Pattern method on symbolic arguments."""
    args = list(args)
    bytesmode = isinstance(pat.pattern, bytes)

    def prep(x):
        if isinstance(x, (S.SymBytes, bytes)):
            return S.lift(S._bs(x))
        return S.lift(x)
    if name in ('search', 'match', 'fullmatch', 'findall', 'finditer'):
        s = kwargs.get('string', args[0] if args else None)
        rest = [a.__index__() for a in args[1:]]
        if not isinstance(s, (str, bytes)):
            raise TypeError(f'expected string or bytes-like object, got {type(s).__name__!r}')
        r = globals()[name](pat, prep(s), *rest)
        if bytesmode and isinstance(r, SymMatch):
            return BytesMatch(r)
        return iter(r) if name == 'finditer' else r
    if name in ('sub', 'subn'):
        repl = kwargs.get('repl', args[0] if args else None)
        s = kwargs.get('string', args[1] if len(args) > 1 else None)
        count = kwargs.get('count', args[2] if len(args) > 2 else 0)
        r = subn(pat, repl, prep(s), count)
        return r[0] if name == 'sub' else r
    if name == 'split':
        s = kwargs.get('string', args[0] if args else None)
        ms = kwargs.get('maxsplit', args[1] if len(args) > 1 else 0)
        return split(pat, prep(s), ms)
    raise S.PathDegraded(f'Pattern.{name}')


class BytesMatch:
    def __init__(self, m):
        self.m = m

    def group(self, *k):
        r = self.m.group(*k)
        return S.SymBytes(S.elems(r)) if isinstance(r, str) else r

    def __getattr__(self, n):
        return getattr(self.m, n)
