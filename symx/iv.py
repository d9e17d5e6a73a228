"""Sets of code points as sorted tuples of closed intervals, over 0..0xFFFF."""
import functools

MAX = 0xFFFF


def norm(ivs):
    out = []
    for lo, hi in sorted(ivs):
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    return tuple(out)


@functools.lru_cache(maxsize=None)
def inter(a, b):
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


@functools.lru_cache(maxsize=None)
def compl(a):
    out = []
    p = 0
    for lo, hi in a:
        if p < lo:
            out.append((p, lo - 1))
        p = hi + 1
    if p <= MAX:
        out.append((p, MAX))
    return tuple(out)


@functools.lru_cache(maxsize=None)
def minus(a, b):
    return inter(a, compl(b))


def union(*xs):
    r = []
    for x in xs:
        r.extend(x)
    return norm(r)


def has(a, c):
    lo, hi = 0, len(a) - 1
    while lo <= hi:
        m = (lo + hi) // 2
        if c < a[m][0]:
            hi = m - 1
        elif c > a[m][1]:
            lo = m + 1
        else:
            return True
    return False


def size(a):
    return sum(hi - lo + 1 for lo, hi in a)


def of(chars):
    return norm([(ord(c), ord(c)) for c in chars])


def single(c):
    return ((c, c),)


@functools.lru_cache(maxsize=None)
def pred(name):
    """Interval set of a predicate on characters (evaluated with CPython itself)."""
    f = {
        'space': str.isspace, 'digit': str.isdigit, 'decimal': str.isdecimal,
        'numeric': str.isnumeric, 'alpha': str.isalpha, 'alnum': str.isalnum,
        'upper': str.isupper, 'lower': str.islower, 'printable': str.isprintable,
        'title': lambda c: c.istitle() and not c.isupper(),
        'linebreak': lambda c: len(('a%sb' % c).splitlines()) == 2,
        're_word': lambda c: c.isalnum() or c == '_',
        're_space': str.isspace,
        're_digit': str.isdecimal,
        'ascii': lambda c: c < '\x80',
        'lowerchanged': lambda c: c.lower() != c,
        'upperchanged': lambda c: c.upper() != c,
        'casefoldchanged': lambda c: c.casefold() != c,
        'identstart': str.isidentifier,
        'identcont': lambda c: ('a' + c).isidentifier(),
    }[name]
    out = []
    start = None
    for i in range(MAX + 1):
        if f(chr(i)):
            if start is None:
                start = i
        elif start is not None:
            out.append((start, i - 1))
            start = None
    if start is not None:
        out.append((start, MAX))
    return tuple(out)


def rng(a, b):
    return ((ord(a), ord(b)),)


LOWER = rng('a', 'z')
UPPER = rng('A', 'Z')
DIGIT = rng('0', '9')
LETTER = union(LOWER, UPPER)
ALNUM = union(LETTER, DIGIT)
LATIN = minus(((0xC0, 0x17F),), of('\xd7\xf7'))
# letters and digits that Markdown, HTML and PO syntax give no meaning to
WORD = union(ALNUM, LATIN)
WLETTER = union(LETTER, LATIN)
ASCIIP = ((0x20, 0x7E),)
# every BMP character but NUL and the surrogates
ANY = ((1, 0xD7FF), (0xE000, 0xFFFF))
FULL = ((0, MAX),)
DOMS = {'lower': LOWER, 'letter': LETTER, 'alnum': ALNUM, 'word': WORD, 'wletter': WLETTER,
        'digit': DIGIT, 'ascii': ASCIIP, 'any': ANY, 'upper': UPPER}
