"""Operations called by instrumented code."""
import collections
import contextlib
import enum
import functools
import itertools
import operator
import re
import types

from . import core as S

_functions = set()
MODELS = {}     # id(function) -> model
_keep = []      # keeps the modelled objects alive


def model(f, *more):
    def d(g):
        for x in (f,) + more:
            MODELS[id(x)] = g
            _keep.append(x)
        return g
    return d


def enter(q):
    _functions.add(q)


fstr = S.fstr
_SYM = (S.SymStr, S.SymBool, S.SymInt, S.SymBytes)
_DICTS = (dict, collections.OrderedDict, collections.defaultdict)
_SETS = (set, frozenset)


def anysym(args, kwargs=None):
    for a in args:
        if type(a) in _SYM:
            return True
    if kwargs:
        for a in kwargs.values():
            if type(a) in _SYM:
                return True
    return False


# ---- dicts and sets with symbolic keys --------------------------------
_PLAINKEYS = {str, int, float, bool, bytes, type(None), type}


def symkey(k):
    """Does the hash of k depend on symbolic data?"""
    t = type(k)
    if t in _PLAINKEYS:
        return False
    if t in _SYM:
        return True
    if t is tuple:
        for x in k:
            if symkey(x):
                return True
        return False
    if isinstance(t, enum.EnumMeta):
        return False
    if t.__hash__ is None or t.__hash__ is object.__hash__:
        return False
    before, S.HASHED = S.HASHED, False
    try:
        hash(k)
        return S.HASHED
    finally:
        S.HASHED = before


def needs_scan(d, k):
    if symkey(k):
        return True
    ts = set(map(type, d))
    if not ts.isdisjoint(_SYM):
        return True
    if ts <= _PLAINKEYS:
        return False
    return any(symkey(x) for x in d)


@contextlib.contextmanager
def identity():
    """Keys of containers are only equal when they are the same object."""
    before, S.IDENTITY = S.IDENTITY, True
    try:
        yield
    finally:
        S.IDENTITY = before


def raw_set(d, k, v):
    if type(k) in _PLAINKEYS:
        d[k] = v
        return
    S.IDENTITY = True
    try:
        d[k] = v
    finally:
        S.IDENTITY = False


def raw_get(d, k):
    if type(k) in _PLAINKEYS:
        return d[k]
    S.IDENTITY = True
    try:
        return d[k]
    finally:
        S.IDENTITY = False


def raw_pop(d, k):
    S.IDENTITY = True
    try:
        return d.pop(k)
    finally:
        S.IDENTITY = False


def raw_add(s, x):
    if type(x) in _PLAINKEYS:
        s.add(x)
        return
    S.IDENTITY = True
    try:
        s.add(x)
    finally:
        S.IDENTITY = False


def raw_discard(s, x):
    S.IDENTITY = True
    try:
        s.discard(x)
    finally:
        S.IDENTITY = False


def isdict(o):
    """A dictionary whose items are not overridden."""
    t = type(o)
    return t in _DICTS or (isinstance(o, dict) and t.__getitem__ is dict.__getitem__
                           and t.__setitem__ is dict.__setitem__)


_MISSING = object()


def find_key(d, k):
    """The key of d equal to k (forking on symbolic equalities) or _MISSING."""
    if not needs_scan(d, k):
        hash(k)
        if k in d:
            return k
        return _MISSING
    hash(k)
    # syntactic identity first
    if symkey(k):
        for x in d:
            if x is k:
                return x
    for x in list(d):
        if S.deep_eq(x, k):
            return x
    return _MISSING


def contains(x, c):
    t = type(c)
    if t is str or t is S.SymStr:
        if type(x) is S.SymStr or t is S.SymStr:
            return S.contains_formula(c, x) if isinstance(x, str) else (x in c)
        return x in c
    if t in _SETS or t in _KEYVIEWS or isdict(c):
        return find_key(c, x) is not _MISSING
    if t in _ITEMVIEWS:
        return any(bool(S.deep_eq(x, y)) for y in c)
    if t is types.MappingProxyType:
        return find_key(list(c), x) is not _MISSING
    if t is bytes and type(x) is S.SymBytes:
        return S.contains_formula(S._bs(c), S._bs(x))
    if t is list or t is tuple:
        if type(x) in _SYM:
            for y in c:
                if y is x or (y == x):
                    return True
            return False
    return x in c


_KEYVIEWS = (type({}.keys()), type(collections.OrderedDict().keys()))
_ITEMVIEWS = (type({}.items()), type(collections.OrderedDict().items()))


def notcontains(x, c):
    return S.snot(contains(x, c))


def is_(a, const):
    if type(a) is S.SymBool:
        return a if const else S.snot(a)
    return a is const


def isnot(a, const):
    if type(a) is S.SymBool:
        return S.snot(a) if const else a
    return a is not const


_OPS = {'Eq': operator.eq, 'NotEq': operator.ne, 'Lt': operator.lt, 'LtE': operator.le,
        'Gt': operator.gt, 'GtE': operator.ge, 'Is': operator.is_, 'IsNot': operator.is_not,
        'In': contains, 'NotIn': notcontains}


def cmp(op, a, b):
    """Comparison of two values, which could be sets or dictionaries."""
    ta, tb = type(a), type(b)
    if ta in _SETLIKE and tb in _SETLIKE:
        x, y = list(a), list(b)
        if any(symkey(z) for z in x) or any(symkey(z) for z in y):
            x, y = (setof(x), setof(y))
            if op in ('Eq', 'NotEq'):
                r = len(x) == len(y) and all(find_key(y, z) is not _MISSING for z in x)
                return r if op == 'Eq' else not r
            if op in ('Gt', 'GtE'):
                x, y = y, x
            if op in ('Lt', 'Gt') and len(x) >= len(y):
                return False
            return all(find_key(y, z) is not _MISSING for z in x)
    elif op in ('Eq', 'NotEq') and isinstance(a, dict) and isinstance(b, dict) and isdict(a) and isdict(b):
        if any(symkey(z) for z in a) or any(symkey(z) for z in b):
            r = len(a) == len(b)
            if r:
                for k, v in a.items():
                    f = find_key(b, k)
                    if f is _MISSING or not S.deep_eq(v, raw_get(b, f)):
                        r = False
                        break
            return r if op == 'Eq' else not r
    return _OPS[op](a, b)


_SETLIKE = _SETS + _KEYVIEWS


def chain(left, ops, *lams):
    r = True
    for o, l in zip(ops, lams):
        right = l()
        r = _OPS[o](left, right)
        if not r:
            return r
        left = right
    return r


def mod(a, b):
    t = type(a)
    if t is str and type(b) is str:
        return a % b
    if t is S.SymStr or (t is str and (S.contains_sym(b) or type(b) is not tuple or
                                       any(type(x) not in (str, int, float) for x in b))):
        return S.fmt_percent(a, b)
    return a % b


_SETOPS = {'BitOr': operator.or_, 'BitAnd': operator.and_, 'Sub': operator.sub, 'BitXor': operator.xor}
_ISETOPS = {'BitOr': operator.ior, 'BitAnd': operator.iand, 'Sub': operator.isub, 'BitXor': operator.ixor}


def setop(op, a, b):
    ta, tb = type(a), type(b)
    if ta in _SETLIKE and (tb in _SETLIKE or ta in _KEYVIEWS):
        x, y = list(a), list(b)
        if any(symkey(z) for z in x) or any(symkey(z) for z in y):
            if op == 'BitOr':
                out = x + y
            else:
                sx, sy = setof(x), setof(y)
                out = [z for z in x if (find_key(sy, z) is not _MISSING) == (op == 'BitAnd')]
                if op == 'BitXor':
                    out += [z for z in y if find_key(sx, z) is _MISSING]
            r = setof(out)
            return frozenset_of(r) if ta is frozenset else r
    elif op == 'BitOr' and isinstance(a, dict) and isinstance(b, dict) and isdict(a) and isdict(b):
        r = a.copy()
        for k, v in b.items():
            setitem(v, r, k)
        return r
    return _SETOPS[op](a, b)


def frozenset_of(s):
    with identity():
        return frozenset(s)


def iset(op, a, b):
    """a |= b and the like."""
    ta = type(a)
    if ta is set and (any(symkey(x) for x in a) or any(symkey(x) for x in b)):
        r = setop(op, a, b)
        with identity():
            a.clear()
            a.update(r)
        return a
    if op == 'BitOr' and isinstance(a, dict) and isdict(a):
        dict_method(a, 'update', (b,), {})
        return a
    if ta in _SETLIKE:
        return setop(op, a, b)
    return _ISETOPS[op](a, b)


def getitem(o, k):
    if isinstance(o, dict) and isdict(o):
        f = find_key(o, k)
        if f is _MISSING:
            missing = getattr(type(o), '__missing__', None)
            if missing is None:
                raise KeyError(k)
            if isinstance(o, collections.defaultdict) and missing is collections.defaultdict.__missing__:
                if o.default_factory is None:
                    raise KeyError(k)
                v = call(o.default_factory)
                raw_set(o, k, v)
                return v
            return missing(o, k)
        return raw_get(o, f)
    t = type(o)
    if t is types.MappingProxyType:
        for x in o:
            if S.deep_eq(x, k):
                return raw_get(o, x)
        raise KeyError(k)
    if isinstance(o, enum.EnumMeta) and type(k) in _SYM:
        return o.__members__[enum_name(o, k)]
    return o[k]


def enum_name(o, k):
    for n in o.__members__:
        if n == k:
            return n
    raise KeyError(k)


def setitem(v, o, k):
    if isinstance(o, dict) and isdict(o):
        f = find_key(o, k)
        raw_set(o, k if f is _MISSING else f, v)
    else:
        o[k] = v


def delitem(o, k):
    if isinstance(o, dict) and isdict(o):
        f = find_key(o, k)
        if f is _MISSING:
            raise KeyError(k)
        raw_pop(o, f)
    else:
        del o[k]


def augitem(o, k, f):
    setitem(f(getitem(o, k)), o, k)


def mkdict(*pairs):
    d = {}
    for k, v, star in pairs:
        if star:
            for a in v.keys():
                setitem(getitem(v, a), d, a)
        else:
            setitem(v, d, k)
    return d


def dictof(pairs):
    d = {}
    for k, v in pairs:
        setitem(v, d, k)
    return d


def setof(items):
    s = set()
    for x in items:
        if find_key(s, x) is _MISSING:
            raw_add(s, x)
    return s


def dict_method(d, name, args, kw):
    if name == 'get':
        f = find_key(d, args[0])
        return (args[1] if len(args) > 1 else kw.get('default')) if f is _MISSING else raw_get(d, f)
    if name == 'pop':
        f = find_key(d, args[0])
        if f is _MISSING:
            if len(args) > 1:
                return args[1]
            raise KeyError(args[0])
        return raw_pop(d, f)
    if name == 'setdefault':
        f = find_key(d, args[0])
        if f is _MISSING:
            raw_set(d, args[0], args[1] if len(args) > 1 else None)
            f = args[0]
        return raw_get(d, f)
    if name == 'update':
        if isinstance(d, collections.Counter):
            return counter_update(d, args, kw, 1)
        for a in args:
            if hasattr(a, 'keys'):
                for k in list(a.keys()):
                    setitem(getitem(a, k), d, k)
            else:
                for k, v in a:
                    setitem(v, d, k)
        for k, v in kw.items():
            setitem(v, d, k)
        return None
    if name == 'subtract':
        return counter_update(d, args, kw, -1)
    if name == 'copy':
        with identity():
            return d.copy()
    if name == 'items' or name == 'keys' or name == 'values':
        return getattr(d, name)()
    if name in ('__contains__', 'has_key'):
        return find_key(d, args[0]) is not _MISSING
    if name == '__getitem__':
        return getitem(d, args[0])
    if name == '__setitem__':
        return setitem(args[1], d, args[0])
    if name == '__delitem__':
        return delitem(d, args[0])
    if name == 'move_to_end':
        f = find_key(d, args[0])
        if f is _MISSING:
            raise KeyError(args[0])
        with identity():
            return d.move_to_end(f, *args[1:], **kw)
    if name == 'fromkeys':
        return dictof([(k, args[1] if len(args) > 1 else None) for k in args[0]])
    if name == 'most_common':
        items = sorted(d.items(), key=lambda kv: kv[1], reverse=True)
        return items[:args[0]] if args and args[0] is not None else items
    if name == 'elements':
        return (k for k, n in d.items() for _ in range(n))
    return getattr(d, name)(*args, **kw)


def counter_update(d, args, kw, sign):
    for a in args:
        if a is None:
            continue
        pairs = a.items() if isinstance(a, collections.abc.Mapping) else ((x, 1) for x in a)
        for k, n in list(pairs):
            setitem(dict_method(d, 'get', (k, 0), {}) + sign * n, d, k)
    for k, n in kw.items():
        setitem(dict_method(d, 'get', (k, 0), {}) + sign * n, d, k)


def set_method(s, name, args):
    if name == 'add':
        if find_key(s, args[0]) is _MISSING:
            raw_add(s, args[0])
        return None
    if name in ('discard', 'remove'):
        f = find_key(s, args[0])
        if f is _MISSING:
            if name == 'remove':
                raise KeyError(args[0])
            return None
        raw_discard(s, f)
        return None
    if name == 'copy':
        with identity():
            return s.copy()
    if name == '__contains__':
        return find_key(s, args[0]) is not _MISSING
    if name in ('union', 'update', 'intersection', 'difference', 'issubset', 'issuperset',
                'symmetric_difference', 'isdisjoint', 'difference_update', 'intersection_update',
                'symmetric_difference_update'):
        others = args = [list(a) for a in args]
        if any(symkey(x) for x in s) or any(symkey(x) for o in others for x in o):
            if name.endswith('update'):
                r = set_method(s, {'update': 'union'}.get(name, name[:-7]), args)
                with identity():
                    s.clear()
                    s.update(r)
                return None
            frozen = frozenset_of if type(s) is frozenset else (lambda x: x)
            if name == 'union':
                return frozen(setof(list(s) + [x for o in others for x in o]))
            if name == 'intersection':
                out = list(s)
                for o in others:
                    o = setof(o)
                    out = [x for x in out if find_key(o, x) is not _MISSING]
                return frozen(setof(out))
            o = setof([x for y in others for x in y])
            if name == 'difference':
                return frozen(setof([x for x in s if find_key(o, x) is _MISSING]))
            if name == 'symmetric_difference':
                return frozen(setof([x for x in s if find_key(o, x) is _MISSING]
                                    + [x for x in o if find_key(s, x) is _MISSING]))
            if name == 'issubset':
                return all(find_key(o, x) is not _MISSING for x in s)
            if name == 'issuperset':
                return all(find_key(s, x) is not _MISSING for x in o)
            if name == 'isdisjoint':
                return all(find_key(o, x) is _MISSING for x in s)
            raise S.PathDegraded('set.' + name)
    return getattr(s, name)(*args)


_DICTM = {'get', 'pop', 'setdefault', 'update', '__contains__', '__getitem__', '__setitem__', '__delitem__', 'fromkeys',
          'copy', 'move_to_end', 'subtract', 'most_common', 'elements'}
_SETM = {'add', 'discard', 'remove', 'union', 'update', 'intersection', 'difference', 'issubset', 'copy', '__contains__',
         'issuperset', 'isdisjoint', 'symmetric_difference', 'difference_update', 'intersection_update',
         'symmetric_difference_update'}
_modtype = type(re)
_builtin = type(len)
_pattern = re.Pattern
_methdesc = type(str.join)
_bm = type([].append)


class _C:
    def f(self):
        pass


_method = type(_C().f)


def mcall(o, name, /, *a, **k):
    t = type(o)
    if t is str:
        if a or k:
            if name == 'join':
                it = a[0] if type(a[0]) in (list, tuple) else list(a[0])
                if anysym(it):
                    return S.join(o, it)
                return o.join(it)
            if name == 'format':
                return S.fmt_format(o, a, k)
            if name == 'format_map':
                return S.fmt_format(o, (), a[0])
            if name == 'translate' or anysym(a, k) or (a and type(a[0]) is tuple and anysym(a[0])):
                return getattr(S.SymStr(tuple(o)), name)(*a, **k)
        return getattr(o, name)(*a, **k)
    if t in _DICTS or (isinstance(o, dict) and isdict(o)):
        if name in _DICTM and (t in _DICTS or t is collections.Counter
                               or getattr(t, name, None) is getattr(dict, name, None)):
            return dict_method(o, name, a, k)
        return getattr(o, name)(*a, **k)
    if t in _SETS:
        if name in _SETM:
            return set_method(o, name, a)
        return getattr(o, name)(*a, **k)
    if t is list or t is collections.deque:
        if a and (name in ('index', 'count', 'remove')) and (type(a[0]) in _SYM or anysym(o)):
            return list_method(o, name, a)
        if name == 'sort':
            key = k.get('key')
            if key is not None:
                k['key'] = pyfunc(key)
        return getattr(o, name)(*a, **k)
    if t is _pattern:
        if anysym(a, k):
            from . import rx
            return rx.call_pattern(o, name, a, k)
        return getattr(o, name)(*a, **k)
    if t is type:
        if o is dict and name == 'fromkeys':
            return dict_method({}, 'fromkeys', a, k)
        if o is str and a:
            # str.method(x, ...)
            if name == 'maketrans':
                if anysym(a):
                    raise S.PathDegraded('maketrans of symbolic characters')
                return str.maketrans(*a)
            if isinstance(a[0], str):
                return mcall(a[0], name, *a[1:], **k)
        if o in _SETS and a and type(a[0]) in _SETS:
            return mcall(a[0], name, *a[1:], **k)
        if o is dict and a and isinstance(a[0], dict):
            return mcall(a[0], name, *a[1:], **k)
    if t is bytes and anysym(a, k):
        return getattr(S.SymBytes(o.decode('latin-1')), name)(*a, **k)
    if t is types.MappingProxyType and name in ('get', '__contains__'):
        for x in o:
            if S.deep_eq(x, a[0]):
                return raw_get(o, x) if name == 'get' else True
        return False if name != 'get' else a[1] if len(a) > 1 else None
    return call(getattr(o, name), *a, **k)


def attr(o, name):
    """A method of a builtin type which is not called at once."""
    t = type(o)
    if t is str or t in _SETS or t is _pattern or t in _DICTS or o is str or o is dict or o is set or (
            t is list and name in ('index', 'count', 'remove')):
        v = getattr(o, name)
        return functools.partial(mcall, o, name) if callable(v) else v
    return getattr(o, name)


def list_method(o, name, a):
    x = a[0]
    if name == 'count':
        return sum(1 for y in o if y is x or (y == x))
    for i, y in enumerate(o):
        if y is x or (y == x):
            if name == 'remove':
                del o[i]
                return None
            return i
    raise ValueError('not in list')


_PASS = (list, dict, set, tuple, frozenset, collections.deque, collections.OrderedDict,
         collections.defaultdict, types.GeneratorType)


def pyfunc(f):
    """A function that C code can call with symbolic values."""
    if f is None or type(f) is types.FunctionType and id(f) not in MODELS:
        return f
    if id(f) in MODELS or type(f) in (_builtin, _methdesc, type) or type(f) is _lrucache:
        return functools.partial(call, f)
    return f


_lrucache = type(functools.lru_cache(lambda: 0))


def lru_call(f, a, k):
    """A cache that lasts as long as the path."""
    store = S.ENG.caches.setdefault(id(f), {})
    key = (tuple(a), tuple(sorted(k.items())))
    try:
        found = find_key(store, key)
    except TypeError:
        return f(*a, **k)
    if found is not _MISSING:
        v = raw_pop(store, found)
        raw_set(store, found, v)
        return v
    v = f.__wrapped__(*a, **k)
    size = f.cache_parameters()['maxsize']
    if size != 0:
        raw_set(store, key, v)
        if size is not None and len(store) > size:
            raw_pop(store, next(iter(store)))
    return v


def enum_call(f, x):
    for m in f:
        if isinstance(m.value, str) and m.value == x:
            return m
    return f(object())


def call(f, *a, **k):
    try:
        m = MODELS.get(id(f))
    except TypeError:
        m = None
    if m is not None:
        return m(*a, **k)
    tf = type(f)
    if tf is _method:
        m = MODELS.get(id(f.__func__))
        if m is not None:
            return m(f.__self__, *a, **k)
        return f(*a, **k)
    if tf is _builtin or tf is _methdesc:
        if anysym(a, k):
            self = getattr(f, '__self__', None)
            if tf is _methdesc:
                oc = getattr(f, '__objclass__', None)
                if oc is str:
                    return getattr(S.lift(a[0]), f.__name__)(*a[1:], **k)
            elif isinstance(self, str) or type(self) is bytes:
                return mcall(self, f.__name__, *a, **k)
            elif isinstance(self, dict) and isdict(self) and f.__name__ in _DICTM:
                return dict_method(self, f.__name__, a, k)
            elif type(self) in _SETS and f.__name__ in _SETM:
                return set_method(self, f.__name__, a)
            elif type(self) is _pattern:
                return mcall(self, f.__name__, *a, **k)
            elif isinstance(self, _PASS) or f in _SAFE:
                return f(*a, **k)
            else:
                S.ENG.mark_inexact(f'concretized for {getattr(f, "__qualname__", f)}')
                a = [S.concretize(x) for x in a]
                k = {n: S.concretize(x) for n, x in k.items()}
        elif tf is _builtin:
            self = getattr(f, '__self__', None)
            ts = type(self)
            if isinstance(self, dict) and isdict(self) and f.__name__ in _DICTM:
                return dict_method(self, f.__name__, a, k)
            if ts in _SETS and f.__name__ in _SETM:
                return set_method(self, f.__name__, a)
            if ts is str and f.__name__ in ('join', 'format'):
                return mcall(self, f.__name__, *a, **k)
            if f in _SAFE and 'key' in k:
                k['key'] = pyfunc(k['key'])
        elif a and type(a[0]) is list and type(a[0]) is getattr(f, '__objclass__', None):
            return mcall(a[0], f.__name__, *a[1:], **k)
        return f(*a, **k)
    if tf is _lrucache:
        return lru_call(f, a, k)
    if tf is type and f in _HIGHER:
        return f(*[pyfunc(x) if callable(x) else x for x in a], **{n: pyfunc(x) if callable(x) else x for n, x in k.items()})
    if isinstance(tf, type) and issubclass(tf, enum.EnumMeta) and len(a) == 1 and type(a[0]) in _SYM and not k:
        return enum_call(f, a[0])
    return f(*a, **k)


_HIGHER = {functools.partial, itertools.takewhile, itertools.dropwhile, itertools.filterfalse, itertools.starmap,
           itertools.groupby, itertools.accumulate}


@model(functools.reduce)
def _reduce(f, it, *init):
    it = iter(it)
    r = init[0] if init else next(it)
    for x in it:
        r = call(f, r, x)
    return r


@model(collections.Counter)
def _counter(*a, **k):
    c = collections.Counter()
    counter_update(c, a, k, 1)
    return c


@model(collections.OrderedDict)
def _ordereddict(*a, **k):
    d = collections.OrderedDict()
    dict_method(d, 'update', a, k)
    return d


@model(collections.defaultdict)
def _defaultdict(f=None, *a, **k):
    d = collections.defaultdict(f)
    dict_method(d, 'update', a, k)
    return d


def _op(f, g):
    MODELS[id(f)] = g
    _keep.append(f)


_op(operator.eq, lambda a, b: cmp('Eq', a, b))
_op(operator.ne, lambda a, b: cmp('NotEq', a, b))
_op(operator.lt, lambda a, b: cmp('Lt', a, b))
_op(operator.le, lambda a, b: cmp('LtE', a, b))
_op(operator.gt, lambda a, b: cmp('Gt', a, b))
_op(operator.ge, lambda a, b: cmp('GtE', a, b))
_op(operator.add, lambda a, b: a + b)
_op(operator.concat, lambda a, b: a + b)
_op(operator.mul, lambda a, b: a * b)
_op(operator.sub, lambda a, b: setop('Sub', a, b))
_op(operator.and_, lambda a, b: setop('BitAnd', a, b))
_op(operator.or_, lambda a, b: setop('BitOr', a, b))
_op(operator.xor, lambda a, b: setop('BitXor', a, b))
_op(operator.mod, lambda a, b: mod(a, b))
_op(operator.not_, lambda a: not a)
_op(operator.truth, lambda a: bool(a))
_op(operator.contains, lambda a, b: contains(b, a))
_op(operator.getitem, lambda a, b: getitem(a, b))
_op(operator.setitem, lambda a, b, v: setitem(v, a, b))
_op(operator.delitem, lambda a, b: delitem(a, b))


def pybool(x):
    return bool(x) if type(x) is S.SymBool else x


_SAFE = {len, isinstance, id, iter, next, getattr, setattr, hasattr, any, all, min, max, sorted,
         callable, issubclass, sum, abs, divmod, hash, delattr}
