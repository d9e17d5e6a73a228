"""Models of the C and stdlib functions the code under test calls with symbolic values.

Foreign functions (md4c, HTML parser and renderer, html.unescape, line wrapping) are
called for real: symbolic characters restricted to letters and digits without meaning
to them are passed as unique letters and put back into the results (their behaviour
does not depend on which such letter they see).
"""
import builtins
import codecs
import collections.abc
import functools
import glob
import html
import html.parser
import io
import itertools
import math
import os
import posixpath
import re
import sys
import textwrap
import types

import z3

from . import core as S
from . import hooks as H
from . import iv as I
from . import rx
from .hooks import MODELS, model

# letters of Unicode category Lo, line break class AL, without case
PH = [chr(c) for c in range(0x1200, 0x135B) if chr(c).isalpha()]
PHSET = frozenset(PH)
PHD = [chr(b + i) for b in (0x660, 0x6F0, 0x966, 0x9E6, 0xA66, 0xAE6, 0xB66, 0xBE6, 0xC66, 0xCE6)
       for i in range(10)]
FILEBASE = 0xE100


def ph_char(cv, digits=False):
    e = S.ENG
    one = cv.one()
    if one is not None:
        return one
    if not e.char_in(cv, I.WORD):
        return e.concretize_char(cv)
    one = cv.one()
    if one is not None:
        return one
    isd = digits and e.char_in(cv, I.DIGIT)
    key = (cv.name, 'd' if isd else 'l')
    c = e.ph_map.get(key)
    if c is None:
        # characters that are the same on this path have the same placeholder
        for (n, kind), p in e.ph_map.items():
            if kind == key[1] and e.entailed(e.ph_rev[p].z == cv.z):
                e.ph_map[key] = p
                return p
        pool = PHD if isd else PH
        i = sum(1 for k in e.ph_map if k[1] == key[1])
        if i >= len(pool):
            raise S.PathDegraded('too many symbolic characters')
        c = pool[i]
        e.ph_map[key] = c
        e.ph_rev[c] = cv
    return c


def width_class(cv):
    e = S.ENG
    one = cv.one()
    if one is not None:
        return one
    if not e.char_in(cv, I.WORD):
        return e.concretize_char(cv)
    if cv.one() is not None:
        return cv.one()
    if e.char_in(cv, I.LETTER):
        return 'a'
    return '1' if e.char_in(cv, I.DIGIT) else '\xe9'


def to_ph(s, digits=False):
    if not isinstance(s, S.SymStr):
        return s
    return ''.join(ph_char(x, digits) if type(x) is S.CV else x for x in s.e)


def from_ph(x):
    if type(x) is str:
        rev = S.ENG.ph_rev
        if not rev:
            return x
        es = [rev.get(c, c) for c in x]
        return S.mk(es)
    if type(x) is list:
        return [from_ph(y) for y in x]
    if type(x) is tuple:
        return tuple(from_ph(y) for y in x)
    if type(x) is dict:
        return {k: from_ph(v) for k, v in x.items()}
    return x


def from_ph_url(s):
    """As from_ph, undoing the percent encoding of placeholders."""
    rev = S.ENG.ph_rev
    if not rev or '%' not in s:
        return from_ph(s)

    def r(m):
        try:
            t = bytes.fromhex(m.group(0).replace('%', '')).decode('utf-8')
        except UnicodeDecodeError:
            return m.group(0)
        if all(c in rev for c in t):
            return t
        return m.group(0)
    return from_ph(re.sub(r'(?:%E1%[0-9A-F]{2}%[0-9A-F]{2})+', r, s))


# ------------------------------------------------------------ foreign
def install_foreign():
    import md4c
    import md_ulb_pwrap
    RealGP, RealHR = md4c.GenericParser, md4c.HTMLRenderer

    class GenericParser:
        def __init__(self, *a, **k):
            self.p = RealGP(*a, **k)

        def parse(self, content, enter_block, leave_block, enter_span, leave_span, text):
            if not isinstance(content, str):
                return self.p.parse(content, enter_block, leave_block, enter_span, leave_span, text)
            ev = []
            # details of enter and leave events of one node may be shared; copy
            self.p.parse(
                to_ph(content),
                lambda b, d: ev.append((0, b, dict(d))), lambda b, d: ev.append((1, b, dict(d))),
                lambda s, d: ev.append((2, s, dict(d))), lambda s, d: ev.append((3, s, dict(d))),
                lambda t, x: ev.append((4, t, x)))
            fs = (enter_block, leave_block, enter_span, leave_span, text)
            for k, a, b in ev:
                fs[k](a, from_ph(b))

    class HTMLRenderer:
        def __init__(self, *a, **k):
            self.r = RealHR(*a, **k)

        def parse(self, content):
            return from_ph_url(self.r.parse(to_ph(content)))

    md4c.GenericParser = GenericParser
    md4c.HTMLRenderer = HTMLRenderer

    real_wrap = md_ulb_pwrap.ulb_wrap_paragraph

    def wrap(text, width, first, *a, **k):
        width, first = S.concretize(width), S.concretize(first)
        if not isinstance(text, S.SymStr):
            return real_wrap(text, width, first, *a, **k)
        if sum(3 if type(x) is S.CV else len(x.encode('utf-8', 'surrogatepass')) for x in text.e) < min(width, first, 60000):
            # no line can be long enough to be wrapped
            return from_ph(real_wrap(to_ph(text), width, first, *a, **k))
        # the place of breaks depends on the UTF-8 length of characters and on being digits
        given = [width_class(x) if type(x) is S.CV else x for x in text.e]
        flat = [(y, x) for x, c in zip(text.e, given) for y in (c if type(x) is str else (c,))]
        out, i = [], 0
        for c in real_wrap(''.join(y for y, _ in flat), width, first, *a, **k):
            # spaces are replaced by breaks or removed
            while i < len(flat) and flat[i][0] != c and flat[i][0].isspace():
                i += 1
                if c == '\n':
                    break
            if i < len(flat) and flat[i][0] == c:
                x = flat[i][1]
                out.append(x if type(x) is S.CV else c)
                i += 1
            elif c == '\n':
                out.append(c)
            else:
                raise S.PathDegraded('wrapping not understood')
        return S.mk(out)
    md_ulb_pwrap.ulb_wrap_paragraph = wrap

    class Rec(html.parser.HTMLParser):
        def __init__(self, convert_charrefs):
            super().__init__(convert_charrefs=convert_charrefs)
            self.ev = []

        def _add(self, name, *a):
            self.ev.append((name, a, self.get_starttag_text()))

    for n in ('handle_starttag', 'handle_endtag', 'handle_startendtag', 'handle_data', 'handle_comment',
              'handle_decl', 'handle_pi', 'unknown_decl', 'handle_charref', 'handle_entityref'):
        setattr(Rec, n, functools.partialmethod(Rec._add, n))
    real_feed = html.parser.HTMLParser.feed

    def feed(self, data):
        if not isinstance(data, S.SymStr) and not S.ENG.ph_rev:
            return real_feed(self, data)
        r = Rec(self.convert_charrefs)
        real_feed(r, to_ph(data))
        for name, a, st in r.ev:
            self._HTMLParser__starttag_text = from_ph(st)
            getattr(self, name)(*[from_ph(x) for x in a])
    H.MODELS[id(real_feed)] = feed
    html.parser.HTMLParser.feed = feed
    real_unescape = html.unescape

    def unescape(s):
        if not isinstance(s, S.SymStr):
            return real_unescape(s)
        return from_ph(real_unescape(to_ph(s)))
    html.unescape = unescape
    real_escape = html.escape

    def escape(s, quote=True):
        if not isinstance(s, S.SymStr):
            return real_escape(s, quote)
        s = s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
        if quote:
            s = S.lift(s).replace('"', '&quot;').replace("'", '&#x27;')
        return s
    html.escape = escape

    for n in ('wrap', 'fill', 'shorten', 'dedent', 'indent'):
        f = getattr(textwrap, n)

        def g(text, *a, _f=f, **k):
            if not isinstance(text, S.SymStr):
                return _f(text, *a, **k)
            a = [S.concretize(x) if type(x) in (S.SymInt, S.SymBool) else x for x in a]
            k = {n: S.concretize(x) if type(x) in (S.SymInt, S.SymBool) else x for n, x in k.items()}
            a = [to_ph(x) for x in a]
            k = {n: to_ph(x) for n, x in k.items()}
            return from_ph(_f(to_ph(text), *a, **k))
        setattr(textwrap, n, g)


# ------------------------------------------------------------ files
class FS:
    def __init__(self):
        self.root = None
        self.enc = {}  # encodings, other than UTF-8, of the files written


fs = FS()
_open = builtins.open


def file_ph(s):
    """Text for the disk: every symbolic character as a private use character."""
    e = S.ENG
    out = []
    for x in S.elems(s):
        if type(x) is S.CV:
            key = (x.name, 'f')
            c = e.ph_map.get(key)
            if c is None:
                n = sum(1 for k in e.ph_map if k[1] == 'f')
                c = chr(FILEBASE + n)
                e.ph_map[key] = c
                e.file_rev[c] = x
            out.append(c)
        else:
            out.append(x)
    return ''.join(out)


def from_file(text):
    rev = S.ENG.file_rev
    if not rev:
        return text
    return S.mk([rev.get(c, c) for c in text])


ASCII = ((0, 127),)


@functools.lru_cache(maxsize=None)
def encodable(name):
    """Characters of an encoding."""
    out = []
    for c in range(0x10000):
        try:
            chr(c).encode(name)
        except UnicodeEncodeError:
            continue
        if out and out[-1][1] == c - 1:
            out[-1] = (out[-1][0], c)
        else:
            out.append((c, c))
    return tuple(out)


class SymFile:
    def __init__(self, path, mode, encoding=None, newline=None, errors=None):
        self.path, self.mode, self.enc, self.newline = path, mode, encoding or 'utf-8', newline
        if encoding is not None:
            codecs.lookup(encoding)
        self.binary = 'b' in mode
        self.name = path
        self.encoding = encoding or 'utf-8'
        self.closed = False
        self.w = any(c in mode for c in 'wax+')
        self.pos = 0
        self.buf = []
        self.f = _open(path, mode.replace('b', '').replace('t', ''), encoding='utf-8', newline='')
        if 'w' in mode and not self.binary:
            name = codecs.lookup(self.enc).name
            if name != 'utf-8':
                fs.enc[os.path.abspath(path)] = name
            else:
                fs.enc.pop(os.path.abspath(path), None)
        self.data = None
        if 'r' in mode:
            self._load()

    def _load(self):
        d = from_file(self.f.read())
        if fs.enc and not self.binary:
            own = codecs.lookup(self.enc).name
            wrote = fs.enc.get(os.path.abspath(self.path), 'utf-8')
            if own != wrote and any(not S.char_in(x, ASCII) for x in S.elems(d)):
                if own in ('utf-8', 'ascii'):
                    raise UnicodeDecodeError(own, b'?', 0, 1, 'invalid byte')
                raise S.PathDegraded(f'{wrote} read as {own}')
        if not self.binary:
            for x in S.elems(d):
                if type(x) is not S.CV and ord(x) > 127 or type(x) is S.CV:
                    break
            if self.newline is None:
                d = H.mcall(H.mcall(d, 'replace', '\r\n', '\n'), 'replace', '\r', '\n')
        self.data = d

    def read(self, n=-1):
        n = len(self.data) if n is None or n < 0 else n
        r = self.data[self.pos:self.pos + n]
        self.pos += len(r)
        return self._out(r)

    def _out(self, r):
        if self.binary:
            if isinstance(r, S.SymStr):
                return S.SymBytes(r.e)
            return r.encode('utf-8')
        return r

    def _lines(self):
        rest = self.data[self.pos:]
        self.pos = len(self.data)
        out = []
        start = 0
        es = S.elems(rest)
        for i, x in enumerate(es):
            if S.char_is(x, '\n'):
                out.append(S.mk(es[start:i + 1]))
                start = i + 1
        if start < len(es):
            out.append(S.mk(es[start:]))
        return [self._out(x) for x in out]

    def readlines(self, *a):
        return self._lines()

    def readline(self, *a):
        es = S.elems(self.data)
        i = self.pos
        while i < len(es) and not S.char_is(es[i], '\n'):
            i += 1
        i = min(i + 1, len(es))
        r = S.mk(es[self.pos:i])
        self.pos = i
        return self._out(r)

    def __iter__(self):
        return iter(self._lines())

    def write(self, s):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        if self.binary:
            if isinstance(s, S.SymBytes):
                s = s.decode()
            else:
                s = bytes(s).decode('latin-1')
        elif not isinstance(s, str):
            raise TypeError(f'write() argument must be str, not {type(s).__name__}')
        name = codecs.lookup(self.enc).name
        if name != 'utf-8' and not self.binary:
            for x in S.elems(s):
                if type(x) is S.CV and not S.char_in(x, encodable(name)):
                    raise UnicodeEncodeError(name, '?', 0, 1, 'not in the encoding')
                if type(x) is not S.CV:
                    x.encode(name)
        self.f.write(file_ph(s))
        return len(s)

    def writelines(self, ls):
        for x in ls:
            self.write(x)

    def seek(self, p, *a):
        self.pos = p
        self.f.seek(p)
        return p

    def tell(self):
        return self.pos

    def truncate(self, *a):
        return self.f.truncate(*a)

    def flush(self):
        self.f.flush()

    def readable(self):
        return 'r' in self.mode

    def writable(self):
        return self.w

    def close(self):
        if not self.closed:
            self.f.close()
            self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


class SymStringIO(io.StringIO):
    def __init__(self, initial_value='', newline='\n'):
        super().__init__()
        self._s = '' if initial_value is None else initial_value
        self._p = 0

    def _check(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')

    def getvalue(self):
        self._check()
        return self._s

    def write(self, s):
        self._check()
        if not isinstance(s, str):
            raise TypeError(f'string argument expected, got {type(s).__name__!r}')
        s = S.tostr(s)
        if len(self._s) < self._p:
            self._s = self._s + '\0' * (self._p - len(self._s))
        self._s = self._s[:self._p] + s + self._s[self._p + len(s):]
        self._p += len(s)
        return len(s)

    def writelines(self, ls):
        for x in ls:
            self.write(x)

    def read(self, n=-1):
        self._check()
        r = self._s[self._p:] if n is None or n < 0 else self._s[self._p:self._p + n]
        self._p += len(r)
        return r

    def readline(self, n=-1):
        self._check()
        es = S.elems(self._s)
        i = self._p
        while i < len(es) and not S.char_is(es[i], '\n'):
            i += 1
        i = min(i + 1, len(es))
        r = S.mk(es[self._p:i])
        self._p = i
        return r

    def readlines(self, hint=-1):
        return list(self)

    def __iter__(self):
        while True:
            r = self.readline()
            if not len(r):
                return
            yield r

    def __next__(self):
        r = self.readline()
        if not len(r):
            raise StopIteration
        return r

    def seek(self, p, whence=0):
        self._check()
        self._p = p if whence == 0 else len(self._s)
        return self._p

    def tell(self):
        self._check()
        return self._p

    def truncate(self, n=None):
        self._check()
        n = self._p if n is None else n
        self._s = self._s[:n]
        return n


def under_root(p):
    if fs.root is None:
        return False
    try:
        return os.path.abspath(p).startswith(fs.root)
    except TypeError:
        return False


def sx_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if hasattr(type(file), '__fspath__'):
        file = file.__fspath__()
    if isinstance(file, S.SymStr):
        file = S.concretize(file)
    if isinstance(file, (str, os.PathLike)) and under_root(file) and 'b' not in mode or (
            isinstance(file, (str, os.PathLike)) and under_root(file) and 'r' in mode):
        return SymFile(os.fspath(file), mode, encoding, newline, errors)
    if isinstance(file, (str, os.PathLike)) and any(c in mode for c in 'wax+') and not under_root(file) and file not in ('/dev/null', os.devnull):
        raise S.PathDegraded(f'write outside the scratch directory: {file}')
    return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)


def install_files():
    builtins.open = sx_open
    io.open = sx_open

    def copen(file, mode='r', encoding=None, errors='strict', buffering=-1):
        return sx_open(file, mode, encoding=encoding)
    codecs.open = copen
    # posixpath on symbolic paths: the stdlib source, instrumented
    from . import instr
    src = _open(posixpath.__file__, encoding='utf-8').read().replace('from posix import _path_normpath', 'from posix import _absent')
    mod = types.ModuleType('symx_posixpath')
    mod.__file__ = posixpath.__file__
    exec(instr.transform(src, posixpath.__file__, 'symx_posixpath'), mod.__dict__)
    for n in ('basename', 'dirname', 'split', 'join', 'splitext', 'normpath', 'isabs', 'splitroot',
              'splitdrive', 'normcase', 'commonpath', 'relpath', 'abspath', 'expanduser'):
        real = getattr(posixpath, n)
        twin = getattr(mod, n)

        def g(*a, _r=real, _t=twin, **k):
            if H.anysym(a, k):
                return _t(*a, **k)
            return _r(*a, **k)
        MODELS[id(real)] = g
        MODELS[id(twin)] = g
        H._keep.append(real)
    H._keep.append(mod)
    realfs = os.fspath

    def sx_fspath(p):
        if isinstance(p, S.SymStr):
            return p
        f = getattr(type(p), '__fspath__', None)
        return f(p) if f is not None else realfs(p)
    MODELS[id(realfs)] = sx_fspath
    MODELS[id(io.StringIO)] = SymStringIO
    MODELS[id(sys.intern)] = lambda s: s if isinstance(s, S.SymStr) else sys.intern(s)
    H._keep.extend([realfs, sys.intern])

    for n in ('isfile', 'exists', 'isdir', 'islink', 'lexists'):
        real = getattr(os.path, n)

        def g(p, _r=real):
            if isinstance(p, S.SymStr):
                return _file_probe(p, _r)
            return _r(p)
        MODELS[id(real)] = g
        H._keep.append(real)
    rg = glob.glob

    def gl(p, **k):
        if isinstance(p, S.SymStr):
            return []
        return rg(p, **k)
    MODELS[id(rg)] = gl
    ri = glob.iglob
    MODELS[id(ri)] = lambda p, **k: iter(()) if isinstance(p, S.SymStr) else ri(p, **k)
    for n in ('makedirs', 'mkdir', 'remove', 'unlink', 'rename', 'replace', 'listdir', 'stat', 'rmdir', 'access'):
        real = getattr(os, n)

        def g(*a, _r=real, **k):
            a = [S.concretize(x) for x in a]
            if _r.__name__ in ('remove', 'unlink', 'rename', 'replace', 'makedirs', 'mkdir', 'rmdir') \
                    and not under_root(a[0]):
                raise S.PathDegraded(f'{_r.__name__} outside the scratch directory')
            return _r(*a, **k)
        MODELS[id(real)] = g
        H._keep.append(real)


def _file_probe(p, real):
    """A symbolic string as a path: it can only name the files of the scratch directory,
    which have names the harness chose; document texts are assumed not to be file names."""
    if len(p.e) and type(p.e[0]) is not S.CV and ''.join(
            x for x in p.e[:len(fs.root or '/')] if type(x) is str) == fs.root:
        return real(S.concretize(p))
    return False


# ------------------------------------------------------------ builtins
def install_builtins():
    def sx_str(*a, **k):
        if not a:
            return ''
        if len(a) > 1 or k:
            if isinstance(a[0], S.SymBytes):
                return a[0].decode()
            return str(*a, **k)
        return S.tostr(a[0])
    MODELS[id(str)] = sx_str
    MODELS[id(repr)] = S.torepr

    def sx_type(*a):
        if len(a) == 1:
            t = type(a[0])
            if t is S.SymStr:
                return str
            if t is S.SymBool:
                return bool
            if t is S.SymInt:
                return a[0].__class__
            if t is S.SymBytes:
                return bytes
            return t
        return type(*a)
    MODELS[id(type)] = sx_type

    def sx_bool(*a):
        if a and type(a[0]) is S.SymBool:
            return a[0]
        return bool(*a)
    MODELS[id(bool)] = sx_bool
    MODELS[id(bytes)] = lambda *a, **k: a[0].encode(*a[1:], **k) if a and isinstance(a[0], S.SymStr) else bytes(*a, **k)

    def sx_set(*a):
        return H.setof(a[0]) if a else set()
    MODELS[id(set)] = sx_set

    def sx_frozenset(*a):
        return frozenset(H.setof(a[0])) if a else frozenset()
    MODELS[id(frozenset)] = sx_frozenset

    def sx_dict(*a, **k):
        d = {}
        H.dict_method(d, 'update', a, k)
        return d
    MODELS[id(dict)] = sx_dict

    def sx_map(f, *its):
        return (H.call(f, *xs) for xs in zip(*its))
    MODELS[id(map)] = sx_map

    def sx_filter(f, it):
        return (x for x in it if (x if f is None else H.call(f, x)))
    MODELS[id(filter)] = sx_filter

    def sx_sorted(it, key=None, reverse=False):
        if key is None:
            return sorted(it, reverse=reverse)
        return sorted(it, key=lambda x: H.call(key, x), reverse=reverse)
    MODELS[id(sorted)] = sx_sorted

    def sx_ord(c):
        if isinstance(c, S.SymStr):
            if len(c.e) != 1:
                raise TypeError('ord() expected a character')
            return S.SymInt(z3.BV2Int(c.e[0].z))
        return ord(c)
    MODELS[id(ord)] = sx_ord

    def sx_chr(n):
        return chr(S.concretize(n))
    MODELS[id(chr)] = sx_chr

    def sx_print(*a, sep=' ', end='\n', file=None, flush=False):
        f = file or sys.stdout
        f.write(S.join(sep if sep is not None else ' ', [S.tostr(x) for x in a]) + end)
    MODELS[id(print)] = sx_print

    def sx_int(*a, **k):
        if a and type(a[0]) is S.SymInt:
            return a[0].trunc()
        if a and type(a[0]) is S.SymBool:
            return int(bool(a[0]))
        if a and isinstance(a[0], S.SymStr):
            r = parse_float(a[0], integer=True) if len(a) == 1 else None
            if r is None:
                return int(S.concretize(a[0]), *a[1:], **k)
            return r
        return int(*a, **k)
    MODELS[id(int)] = sx_int

    def sx_float(*a):
        if a and type(a[0]) is S.SymInt:
            return S.SymInt(z3.ToReal(a[0].z) if not a[0].real else a[0].z, True)
        if a and isinstance(a[0], S.SymStr):
            return parse_float(a[0])
        return float(*a)
    MODELS[id(float)] = sx_float

    for n in ('isnan', 'isinf', 'isfinite'):
        real = getattr(math, n)
        MODELS[id(real)] = (lambda x, _r=real: (_r.__name__ == 'isfinite') if type(x) is S.SymInt else _r(x))
        H._keep.append(real)
    for n in ('floor', 'trunc', 'ceil'):
        real = getattr(math, n)

        def g(x, _r=real):
            if type(x) is S.SymInt:
                if not x.real:
                    return x
                if _r.__name__ == 'trunc':
                    return x.trunc()
                f = z3.ToInt(x.z)
                if _r.__name__ == 'floor':
                    return S.SymInt(f)
                return S.SymInt(-z3.ToInt(-x.z))
            return _r(x)
        MODELS[id(real)] = g
        H._keep.append(real)

    # re
    rc = re.compile

    def sx_compile(p, flags=0):
        return rc(S.concretize(p) if H.is_symval(p) else p, flags)
    MODELS[id(rc)] = sx_compile
    for n in ('search', 'match', 'fullmatch', 'findall', 'finditer', 'split', 'sub', 'subn'):
        real = getattr(re, n)

        def g(pattern, *a, _r=real, _n=n, flags=0, **k):
            if isinstance(pattern, re.Pattern) and not H.anysym(a, k):
                return getattr(pattern, _n)(*a, **k)
            if not H.anysym((pattern,) + a, k):
                if flags:
                    k['flags'] = flags
                return _r(pattern, *a, **k)
            if not isinstance(pattern, re.Pattern):
                nflag = {'search': 1, 'match': 1, 'fullmatch': 1, 'findall': 1, 'finditer': 1,
                         'split': 2, 'sub': 3, 'subn': 3}[_n]
                if len(a) > nflag:
                    flags = a[nflag]
                    a = a[:nflag]
                pattern = rc(S.concretize(pattern), flags)
            return H.mcall(pattern, _n, *a, **k)
        MODELS[id(real)] = g
        H._keep.append(real)
    rescape = re.escape

    def sx_escape(p):
        if not isinstance(p, S.SymStr):
            return rescape(p)
        special = I.of([chr(c) for c in range(128) if rescape(chr(c)) != chr(c)])
        out = []
        for x in p.e:
            if type(x) is S.CV:
                if S.ENG.char_in(x, special):
                    out.append('\\')
                out.append(x)
            else:
                out.extend(rescape(x))
        return S.mk(out)
    MODELS[id(rescape)] = sx_escape
    H._keep.extend([rc, rescape])


@functools.lru_cache(maxsize=None)
def decimal_blocks():
    return [a for lo, hi in I.pred('decimal') for a in range(lo, hi + 1) if int(chr(a)) == 0]


def parse_float(s, integer=False):
    """float(s) (or int(s)) for a symbolic string, forking on the shape of the number."""
    orig = s
    es = list(s.e)
    sp = I.minus(I.pred('space'), ((0x1C, 0x1F),))
    while es and S.char_in(es[0], sp):
        es.pop(0)
    while es and S.char_in(es[-1], sp):
        es.pop()

    def bad():
        raise ValueError(f'could not convert string to {"int" if integer else "float"}')
    if not es:
        bad()
    sign = 1
    if S.char_in(es[0], I.of('+-')):
        if S.char_is(es[0], '-'):
            sign = -1
        es.pop(0)
        if not es:
            bad()
    dec = I.pred('decimal')
    if not integer and len(es) in (3, 8) and S.char_in(es[0], I.of('iInN')):
        word = [None] * len(es)
        for i, x in enumerate(es):
            for ch in 'infatyINFATY':
                if S.char_is(x, ch):
                    word[i] = ch.lower()
                    break
            else:
                bad()
        word = ''.join(word)
        if word in ('inf', 'infinity'):
            return sign * float('inf')
        if word == 'nan':
            return float('nan')
        bad()
    digits = []
    frac = []
    state = 'int'
    seen = False
    prevdig = False
    expd = []
    esign = 1
    i = 0
    while i < len(es):
        x = es[i]
        if S.char_in(x, dec):
            if type(x) is S.CV:
                if S.ENG.char_in(x, I.DIGIT):
                    v = z3.BV2Int(x.z) - 48
                else:
                    v = z3.IntVal(0)
                    for a, b in x.iv:
                        for start in decimal_blocks():
                            if a <= start + 9 and b >= start:
                                v = z3.If(z3.And(z3.UGE(x.z, start), z3.ULE(x.z, start + 9)),
                                          z3.BV2Int(x.z) - start, v)
            else:
                v = z3.IntVal(int(x))
            if state == 'int':
                digits.append(v)
            elif state == 'frac':
                frac.append(v)
            else:
                if type(x) is str:
                    expd.append(x)
                else:
                    for k in range(10):
                        if k == 9 or S.ENG.branch(v == k):
                            expd.append(str(k))
                            break
            prevdig = True
            seen = True
        elif S.char_is(x, '_'):
            # only between digits
            if not prevdig or i + 1 >= len(es) or not S.char_in(es[i + 1], dec):
                bad()
            prevdig = False
        elif not integer and state == 'int' and S.char_is(x, '.'):
            state = 'frac'
            prevdig = False
        elif not integer and state in ('int', 'frac') and seen and S.char_in(x, I.of('eE')):
            if state == 'exp':
                bad()
            state = 'exp'
            prevdig = False
            if i + 1 < len(es) and S.char_in(es[i + 1], I.of('+-')):
                if S.char_is(es[i + 1], '-'):
                    esign = -1
                i += 1
        else:
            bad()
        i += 1
    if not seen or (state == 'exp' and not expd):
        bad()
    m = z3.IntVal(0)
    for v in digits + frac:
        m = m * 10 + v
    if integer:
        return S.SymInt(z3.simplify(m * sign))
    ex = esign * int(''.join(expd) or '0') - len(frac)
    if ex < -25 or ex + len(digits) + len(frac) > 15:  # not an exact number
        return float(S.concretize(orig))
    num = z3.ToReal(m) * z3.RealVal(sign)
    num = num * (10 ** ex) if ex >= 0 else num / z3.RealVal(10 ** -ex)
    return S.SymInt(z3.simplify(num), True)


class _Opaque:
    """Arguments of a command line with symbolic characters, hidden from argparse."""

    def __init__(self):
        self.values = []

    def hide(self, a):
        if type(a) is not S.SymStr:
            return a
        if S.char_is(a.e[0], '-'):
            raise S.PathDegraded('symbolic option')
        pre = ''
        if type(a.e[0]) is str and a.e[0] == '-':
            if S.char_is(a.e[1], '-') and '=' in a.e:
                k = a.e.index('=')
                pre = ''.join(a.e[:k + 1])
                a = S.mk(a.e[k + 1:])
                if type(a) is str:
                    return pre + a
            else:
                raise S.PathDegraded('symbolic option')
        self.values.append(a)
        return f'{pre}\ue200{len(self.values) - 1}\ue201'

    def show(self, x):
        if isinstance(x, str) and '\ue200' in x:
            out = []
            for part in re.split('(\ue200[0-9]+\ue201)', x):
                out.append(self.values[int(part[1:-1])] if part[:1] == '\ue200' else part)
            return S.join('', out)
        if isinstance(x, list):
            return [self.show(y) for y in x]
        return x


def install_argparse():
    import argparse
    real = argparse.ArgumentParser.parse_known_args

    def parse_known_args(self, args=None, namespace=None):
        if args is None or not any(type(a) is S.SymStr for a in args):
            return real(self, args, namespace)
        o = _Opaque()
        ns, rest = real(self, [o.hide(a) for a in args], namespace)
        for k, v in list(vars(ns).items()):
            setattr(ns, k, o.show(v))
        return ns, [o.show(x) for x in rest]
    argparse.ArgumentParser.parse_known_args = parse_known_args


class Environ(collections.abc.MutableMapping):
    """os.environ with symbolic values."""

    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __setitem__(self, k, v):
        if not isinstance(k, str) or not isinstance(v, str):
            raise TypeError('str expected, not %s' % type(v).__name__)
        self.d[S.concretize(k)] = v

    def __delitem__(self, k):
        del self.d[k]

    def __iter__(self):
        return iter(list(self.d))

    def __len__(self):
        return len(self.d)

    def copy(self):
        return dict(self.d)


def install_environ():
    os.environ = Environ(dict(os.environ))


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    install_builtins()
    install_files()
    install_argparse()
    install_environ()


H.is_symval = lambda x: type(x) in H._SYM
