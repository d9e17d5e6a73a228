"""Path exploration and symbolic values.

A path is one execution of the (instrumented) real code.  Values that depend on
inputs are SymStr / SymBool / SymInt objects; whenever the code branches on one,
Engine.branch asks z3 which sides are feasible and forks.  Paths are explored
depth first by re-execution, the solver's assertion stack being kept in step with
the stack of decisions.
"""
import operator
import time

import z3

from . import iv as I


class SxBase(BaseException):
    """Raised to leave a path; not an Exception so that code under test cannot catch it."""


class PathAbort(SxBase):
    pass


class PathDegraded(SxBase):
    """The engine cannot continue this path symbolically."""


class PathTimeout(SxBase):
    pass


class Decision:
    __slots__ = ('choice', 'alts', 'pushed', 'cons', 'alt_model', 'n')

    def __init__(self, choice, alts=(), pushed=False, cons=None, alt_model=None):
        self.choice = choice
        self.alts = list(alts)
        self.pushed = pushed
        self.cons = cons
        self.alt_model = alt_model


ENG = None  # the current engine


def eng():
    return ENG


def set_engine(e):
    global ENG
    ENG = e


BVS = z3.BitVecSort(16)


class Engine:
    def __init__(self, query_timeout_ms=4000):
        self.solver = z3.Solver()
        self.solver.set('timeout', query_timeout_ms)
        self.stack = []
        self.pos = 0
        self.model = None
        self.queries = 0
        self.solver_time = 0.0
        self.unknowns = 0
        self.paths = 0
        self.aborted = 0
        self.inexact = {}
        self.functions = set()
        self.forks = 0
        self.zvars = {}
        self.asserts = 0
        self.check_time = 0.0
        self.reset_path()

    # -- path set up
    def reset_path(self):
        self.pos = 0
        self.inputs = []
        self.names = {}
        self.path_inexact = []
        self.ph_map = {}
        self.ph_rev = {}
        self.file_rev = {}
        self.violations = []
        self.obs = []
        self.checks = 0
        self.cvcache = {}
        self.decided = {}
        self.caches = {}

    def uname(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else f'{name}~{n}'

    def mark_inexact(self, why):
        self.path_inexact.append(why)
        self.inexact[why] = self.inexact.get(why, 0) + 1

    # -- solver
    def _check(self, *extra):
        self.queries += 1
        t = time.perf_counter()
        if extra:
            self.solver.push()
            self.solver.add(*extra)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        if extra:
            self.solver.pop()
        self.solver_time += time.perf_counter() - t
        if r == z3.unknown:
            self.unknowns += 1
            self.mark_inexact('solver unknown')
        return r, m

    def _ensure_model(self):
        if self.model is None:
            r, m = self._check()
            if r != z3.sat:
                raise PathAbort()
            self.model = m
        return self.model

    def _true_in_model(self, e):
        v = self._ensure_model().eval(e, model_completion=True)
        return z3.is_true(v)

    # -- decisions
    def branch(self, e):
        """Decide the z3 formula e on this path."""
        if self.pos < len(self.stack):
            d = self.stack[self.pos]
            self.pos += 1
            return d.choice
        v = self._true_in_model(e)
        other = z3.Not(e) if v else e
        r, m = self._check(other)
        if r == z3.sat:
            self.forks += 1
            self.solver.push()
            self.solver.add(e if v else z3.Not(e))
            d = Decision(v, [not v], True, other, m)
        else:
            d = Decision(v)
        self.stack.append(d)
        self.pos += 1
        return v

    def entailed(self, e):
        """Does the formula hold for all the values of this path? (no fork)"""
        if self.pos < len(self.stack):
            d = self.stack[self.pos]
            self.pos += 1
            return d.choice
        v = self._true_in_model(e) and self._check(z3.Not(e))[0] == z3.unsat
        self.stack.append(Decision(v))
        self.pos += 1
        return v

    def choose(self, n):
        if self.pos < len(self.stack):
            d = self.stack[self.pos]
            self.pos += 1
            return d.choice
        d = Decision(0, list(range(1, n)))
        self.forks += n - 1
        self.stack.append(d)
        self.pos += 1
        return 0

    def assume(self, e):
        """e: bool, SymBool or z3 formula."""
        if isinstance(e, SymBool):
            e = e.z
        if e is True:
            return
        if e is False:
            raise PathAbort()
        if self.pos < len(self.stack):
            self.pos += 1
            return
        if not self._true_in_model(e):
            r, m = self._check(e)
            if r != z3.sat:
                raise PathAbort()
            self.model = m
        self.solver.push()
        self.solver.add(e)
        self.stack.append(Decision(True, (), True))
        self.pos += 1

    def backtrack(self):
        """Move to the next unexplored alternative; False when there is none."""
        while self.stack:
            d = self.stack[-1]
            if d.alts:
                d.choice = d.alts.pop(0)
                if d.pushed:
                    self.solver.pop()
                    self.solver.push()
                    self.solver.add(d.cons)
                    self.model = d.alt_model
                    d.alt_model = None
                return True
            if d.pushed:
                self.solver.pop()
            self.stack.pop()
        return False

    def counterexample(self, e):
        """Model of the path where e (z3 formula or bool) is false, or None."""
        if e is True:
            return None
        if e is False:
            return self._ensure_model()
        if not self._true_in_model(e):
            return self.model
        r, m = self._check(z3.Not(e))
        if r == z3.sat:
            return m
        return None

    def check(self, c, label, w):
        """Assert c on this path: record a counterexample if there is one."""
        self.checks += 1
        if self.pos < len(self.stack):
            self.pos += 1   # decided when the prefix was first explored
            return
        e = zb(c)
        self.asserts += 1
        t = time.perf_counter()
        m = None
        self._ensure_model()
        if c is not True:
            if not self._true_in_model(e):
                m = self.model
            else:
                r, m = self._check(z3.Not(e))
        self.check_time += time.perf_counter() - t
        if m is not None:
            self.violations.append((label, [eval_sym(x, m) for x in w.log]))
            r, m2 = self._check(e)
            if r == z3.sat:
                self.solver.push()
                self.solver.add(e)
                self.model = m2
                self.stack.append(Decision(True, (), True))
                self.pos += 1
                return
        self.stack.append(Decision(True))
        self.pos += 1

    # -- characters
    def char_in(self, cv, s):
        """Fork on membership of a symbolic character in an interval set."""
        cur = cv.iv
        ins = I.inter(cur, s)
        if not ins:
            return False
        if ins == cur:
            return True
        outs = I.minus(cur, s)
        # the smaller description
        if self.pos < len(self.stack):
            e = None  # already decided
        elif len(ins) <= len(outs) + 1:
            e = zin_cached(cv, ins)
        else:
            e = z3.Not(zin_cached(cv, outs))
        if self.branch(e):
            cv.iv = ins
            return True
        cv.iv = outs
        return False

    def concretize_char(self, cv, cap=24):
        """Fully fork on the value of cv."""
        n = 0
        while len(cv.iv) != 1 or cv.iv[0][0] != cv.iv[0][1]:
            v = self._replayable_value(cv)
            if self.char_in(cv, I.single(v)):
                break
            n += 1
            if n >= cap:
                # give up exhaustiveness: pin the value the model has
                v = self._replayable_value(cv)
                self.mark_inexact('character pinned')
                self.assume(cv.z == z3.BitVecVal(v, 16))
                cv.iv = I.single(v)
        return chr(cv.iv[0][0])

    def _replayable_value(self, cv):
        # the value tried must be the same when the path is re-executed
        if self.pos < len(self.stack):
            d = self.stack[self.pos]
            v = d.n
            self.pos += 1
            return v
        v = self._ensure_model().eval(cv.z, model_completion=True).as_long()
        d = Decision(None)
        d.n = v
        self.stack.append(d)
        self.pos += 1
        return v

    def concretize_int(self, si, cap=40):
        n = 0
        while True:
            if self.pos < len(self.stack):
                v = self.stack[self.pos].n
                self.pos += 1
            else:
                v = self._ensure_model().eval(si.z, model_completion=True).as_long()
                d = Decision(None)
                d.n = v
                self.stack.append(d)
                self.pos += 1
            n += 1
            if n > cap:
                self.mark_inexact('integer pinned')
                self.assume(si.z == v)
                return v
            if self.branch(si.z == v):
                return v


_zin = {}


def zin_cached(cv, ivs):
    k = (cv.z.hash(), ivs)
    for z, e in _zin.get(k, ()):
        if z.eq(cv.z):
            return e
    e = zin(cv.z, ivs)
    if len(_zin) > 20000:
        _zin.clear()
    _zin.setdefault(k, []).append((cv.z, e))
    return e


def zin(z, ivs):
    parts = []
    for lo, hi in ivs:
        if lo == hi:
            parts.append(z == z3.BitVecVal(lo, 16))
        else:
            p = []
            if lo > 0:
                p.append(z3.UGE(z, z3.BitVecVal(lo, 16)))
            if hi < I.MAX:
                p.append(z3.ULE(z, z3.BitVecVal(hi, 16)))
            parts.append(z3.And(*p) if len(p) > 1 else (p[0] if p else z3.BoolVal(True)))
    return z3.Or(*parts) if len(parts) > 1 else parts[0]


class CV:
    """A symbolic character: z3 term plus the set of values it can still have."""
    __slots__ = ('z', 'iv', 'name')

    def __init__(self, name, z, iv):
        self.name = name
        self.z = z
        self.iv = iv

    def one(self):
        i = self.iv
        if len(i) == 1 and i[0][0] == i[0][1]:
            return chr(i[0][0])
        return None

    def __repr__(self):
        return f'<{self.name}>'


def new_char(name, dom):
    e = ENG
    z = e.zvars.get(name)
    if z is None:
        z = e.zvars[name] = z3.BitVec(name, 16)
    cv = CV(name, z, dom)
    if e.pos < len(e.stack):
        e.pos += 1
        return cv
    # a fresh variable: its domain is satisfiable, no query needed
    e.solver.push()
    e.solver.add(zin(z, dom))
    e.stack.append(Decision(True, (), True))
    e.pos += 1
    e.model = None
    return cv


def new_int(name, lo, hi):
    e = ENG
    z = e.zvars.get(name)
    if z is None:
        z = e.zvars[name] = z3.Int(name)
    if lo is not None:
        e.assume(z >= lo)
    if hi is not None:
        e.assume(z <= hi)
    return SymInt(z)


def new_bool(name):
    e = ENG
    z = e.zvars.get(name)
    if z is None:
        z = e.zvars[name] = z3.Bool(name)
    return SymBool(z)


# ---------------------------------------------------------------- booleans
class SymBool:
    __slots__ = ('z', 'nar')

    def __init__(self, z, nar=None):
        self.z = z
        self.nar = nar  # [(cv, interval set)] implied by truth

    def __bool__(self):
        if self.nar and len(self.nar) == 1 and self.nar[0][2]:
            return ENG.char_in(self.nar[0][0], self.nar[0][1])
        # the same formula is not decided twice on a path
        decided = ENG.decided
        i = self.z.get_id()
        r = decided.get(i)
        if r is not None:
            return r[0]
        r = ENG.branch(self.z)
        decided[i] = (r, self.z)
        if r and self.nar:
            for cv, s, _ in self.nar:
                n = I.inter(cv.iv, s)
                if n:
                    cv.iv = n
        return r

    @property
    def __class__(self):
        return bool

    def __and__(self, o):
        if isinstance(o, bool):
            return sand(self, o)
        return int(self) & o if isinstance(o, int) else NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, bool):
            return sor(self, o)
        return int(self) | o if isinstance(o, int) else NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, bool):
            return sne_bool(self, o)
        return int(self) ^ o if isinstance(o, int) else NotImplemented
    __rxor__ = __xor__

    def __invert__(self):
        return snot(self)

    def __eq__(self, o):
        return snot(sne_bool(self, o)) if isinstance(o, (bool, SymBool)) else bool(self) == o

    def __ne__(self, o):
        return sne_bool(self, o) if isinstance(o, (bool, SymBool)) else bool(self) != o

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return f'SymBool({self.z})'


def _bool_as_int(name):
    # arithmetic over booleans decides them
    def f(self, *o):
        return getattr(operator, name)(int(bool(self)), *[
            int(bool(x)) if type(x) is SymBool else x for x in o])

    def r(self, o):
        return getattr(operator, name)(o, int(bool(self)))
    return f, r


for _n in ('add', 'sub', 'mul', 'floordiv', 'mod', 'truediv', 'pow',
           'lshift', 'rshift'):
    _f, _r = _bool_as_int(_n)
    setattr(SymBool, f'__{_n}__', _f)
    setattr(SymBool, f'__r{_n}__', _r)
for _n in ('lt', 'le', 'gt', 'ge', 'neg', 'pos', 'abs'):
    setattr(SymBool, f'__{_n}__', _bool_as_int(_n)[0])


def zb(x):
    if type(x) is SymBool:
        return x.z
    if type(x) is bool:
        return z3.BoolVal(x)
    return z3.BoolVal(bool(x))


def mkbool(z):
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SymBool(z)


def snot(a):
    if type(a) is SymBool:
        return SymBool(z3.Not(a.z))
    return not a


def sand(*xs):
    zs = []
    for x in xs:
        if type(x) is SymBool:
            zs.append(x.z)
        elif not x:
            return False
    if not zs:
        return True
    return SymBool(z3.And(*zs) if len(zs) > 1 else zs[0])


def sor(*xs):
    zs = []
    for x in xs:
        if type(x) is SymBool:
            zs.append(x.z)
        elif x:
            return True
    if not zs:
        return False
    return SymBool(z3.Or(*zs) if len(zs) > 1 else zs[0])


def sne_bool(a, b):
    if type(a) is not SymBool and type(b) is not SymBool:
        return bool(a) != bool(b)
    if type(a) is bool or type(b) is bool:
        s, c = (b, a) if type(a) is bool else (a, b)
        return snot(s) if c else s
    return SymBool(z3.Xor(zb(a), zb(b)))


# ---------------------------------------------------------------- integers
def zi(x):
    if type(x) is SymInt:
        return x.z
    return z3.IntVal(int(x))


class SymInt:
    """A symbolic int (or real, for float())."""
    __slots__ = ('z', 'real')

    def __init__(self, z, real=False):
        self.z = z
        self.real = real

    @property
    def __class__(self):
        return float if self.real else int

    def __bool__(self):
        return ENG.branch(self.z != 0)

    def __index__(self):
        return ENG.concretize_int(self)

    def __int__(self):
        if self.real:
            # truncation towards zero
            f = z3.ToInt(self.z)
            t = z3.If(self.z >= 0, f, -z3.ToInt(-self.z))
            return ENG.concretize_int(SymInt(t))
        return ENG.concretize_int(self)

    def trunc(self):
        if not self.real:
            return self
        return SymInt(z3.If(self.z >= 0, z3.ToInt(self.z), -z3.ToInt(-self.z)))

    def __hash__(self):
        return hash(int(self))

    def __repr__(self):
        return f'SymInt({self.z})'


def _num(o):
    if type(o) is SymInt:
        return o.z
    if isinstance(o, bool):
        return z3.IntVal(int(o))
    if type(o) is int:
        return z3.IntVal(o)
    if type(o) is float:
        if o == o and o not in (float('inf'), float('-inf')):
            return z3.RealVal(repr(o))
    return None


def _mkarith(name, op):
    def f(self, o):
        b = _num(o)
        if b is None:
            return NotImplemented
        return SymInt(op(self.z, b), self.real or type(o) is float or getattr(o, 'real', False) is True)
    return f


def _mkcmp(op, infpos, infneg, nan):
    def f(self, o):
        if type(o) is float:
            if o == float('inf'):
                return infpos
            if o == float('-inf'):
                return infneg
            if o != o:
                return nan
        b = _num(o)
        if b is None:
            return NotImplemented
        return mkbool(z3.simplify(op(self.z, b)))
    return f


SymInt.__add__ = _mkarith('add', lambda a, b: a + b)
SymInt.__radd__ = _mkarith('radd', lambda a, b: b + a)
SymInt.__sub__ = _mkarith('sub', lambda a, b: a - b)
SymInt.__rsub__ = _mkarith('rsub', lambda a, b: b - a)
SymInt.__neg__ = lambda self: SymInt(-self.z, self.real)
SymInt.__lt__ = _mkcmp(lambda a, b: a < b, True, False, False)
SymInt.__le__ = _mkcmp(lambda a, b: a <= b, True, False, False)
SymInt.__gt__ = _mkcmp(lambda a, b: a > b, False, True, False)
SymInt.__ge__ = _mkcmp(lambda a, b: a >= b, False, True, False)


def _ieq(self, o):
    if not isinstance(o, (int, float, SymInt)):
        return False
    if type(o) is float and (o != o or o in (float('inf'), float('-inf'))):
        return False
    return mkbool(z3.simplify(self.z == _num(o)))


SymInt.__eq__ = _ieq
SymInt.__ne__ = lambda self, o: snot(_ieq(self, o))


def _imul(self, o):
    if isinstance(o, (str, SymStr, list, tuple)):
        return o * ENG.concretize_int(self)
    b = _num(o)
    if b is None:
        return NotImplemented
    return SymInt(self.z * b, self.real or type(o) is float)


SymInt.__mul__ = _imul
SymInt.__rmul__ = _imul


def _idivmod(self, o):
    # floor division by a positive constant is the one of the solver
    if type(o) is int and o > 0 and not self.real:
        return SymInt(self.z / o), SymInt(self.z % o)
    return divmod(ENG.concretize_int(self), o)


SymInt.__divmod__ = _idivmod
SymInt.__floordiv__ = lambda self, o: _idivmod(self, o)[0]
SymInt.__mod__ = lambda self, o: _idivmod(self, o)[1]
SymInt.__abs__ = lambda self: SymInt(z3.If(self.z >= 0, self.z, -self.z), self.real)
SymInt.__pos__ = lambda self: self
SymInt.__round__ = lambda self, n=None: self if not self.real else round(ENG.concretize_int(self))


def _iand(self, o):
    if type(o) is int and o >= 0 and o & (o + 1) == 0:
        return SymInt(self.z % (o + 1))
    return ENG.concretize_int(self) & o


SymInt.__and__ = SymInt.__rand__ = _iand
for _n in ('or', 'xor', 'lshift', 'rshift', 'pow', 'truediv'):
    def _f(self, o, _op=getattr(operator, _n + ('_' if _n == 'or' else ''))):
        return _op(ENG.concretize_int(self), o)

    def _r(self, o, _op=getattr(operator, _n + ('_' if _n == 'or' else ''))):
        return _op(o, ENG.concretize_int(self))
    setattr(SymInt, f'__{_n}__', _f)
    setattr(SymInt, f'__r{_n}__', _r)


# ---------------------------------------------------------------- strings
def is_sym(x):
    t = type(x)
    return t is SymStr or t is SymBool or t is SymInt or t is SymBytes


def elems(s):
    return s.e if isinstance(s, SymStr) else tuple(s)


def mk(es, cls=None):
    """Build a string from elements; a plain str when nothing is symbolic."""
    for x in es:
        if type(x) is CV:
            es = tuple(es)
            return SymStr(es)
    return ''.join(es)


def char_in(el, s):
    if type(el) is CV:
        return ENG.char_in(el, s)
    return I.has(s, ord(el))


def char_is(el, ch):
    """Fork on el == ch where ch is a concrete character."""
    if type(el) is CV:
        return ENG.char_in(el, I.single(ord(ch)))
    return el == ch


def el_eq(a, b):
    """Formula for equality of two elements: bool or z3 formula."""
    if type(a) is CV:
        if type(b) is CV:
            if a is b or a.name == b.name:
                return True
            if not I.inter(a.iv, b.iv):
                return False
            oa, ob = a.one(), b.one()
            if oa is not None and ob is not None:
                return oa == ob
            return a.z == b.z
        if not I.has(a.iv, ord(b)):
            return False
        if a.one() is not None:
            return True
        return a.z == z3.BitVecVal(ord(b), 16)
    if type(b) is CV:
        return el_eq(b, a)
    return a == b


def el_eq_fork(a, b):
    if type(a) is CV and type(b) is not CV:
        return ENG.char_in(a, I.single(ord(b)))
    if type(b) is CV and type(a) is not CV:
        return ENG.char_in(b, I.single(ord(a)))
    r = el_eq(a, b)
    if r is True or r is False:
        return r
    return ENG.branch(r)


def str_eq(a, b):
    """bool or SymBool."""
    ea, eb = elems(a), elems(b)
    if len(ea) != len(eb):
        return False
    zs = []
    nar = []
    for x, y in zip(ea, eb):
        r = el_eq(x, y)
        if r is True:
            continue
        if r is False:
            return False
        zs.append(r)
        if type(x) is CV and type(y) is not CV:
            nar.append((x, I.single(ord(y)), True))
        elif type(y) is CV and type(x) is not CV:
            nar.append((y, I.single(ord(x)), True))
    if not zs:
        return True
    if len(zs) == 1:
        return SymBool(zs[0], nar or None)
    return SymBool(z3.And(*zs), [(c, s, False) for c, s, _ in nar] or None)


def str_lt(a, b, orequal=False):
    ea, eb = elems(a), elems(b)
    n = min(len(ea), len(eb))
    # value when the common prefix is equal
    tail = len(ea) <= len(eb) if orequal else len(ea) < len(eb)
    f = z3.BoolVal(tail)
    for i in range(n - 1, -1, -1):
        x, y = ea[i], eb[i]
        q = el_eq(x, y)
        if q is True:
            continue
        zx = x.z if type(x) is CV else z3.BitVecVal(ord(x), 16)
        zy = y.z if type(y) is CV else z3.BitVecVal(ord(y), 16)
        if q is False:
            if type(x) is not CV and type(y) is not CV:
                f = z3.BoolVal(x < y)
            else:
                f = z3.ULT(zx, zy)
        else:
            f = z3.Or(z3.ULT(zx, zy), z3.And(q, f))
    return mkbool(z3.simplify(f))


def zstr(a):
    return [x.z if type(x) is CV else z3.BitVecVal(ord(x), 16) for x in elems(a)]


def _aslist(s):
    return list(elems(s))


# set while a container that has no key equal to the new one is changed
IDENTITY = False
# set when the hash of symbolic data is computed
HASHED = False


class SymStr:
    """A string with symbolic characters and concrete length."""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return str

    # -- basics
    def __len__(self):
        return len(self.e)

    def __bool__(self):
        return len(self.e) > 0

    def __iter__(self):
        for x in self.e:
            yield mk((x,))

    def __hash__(self):
        # the same for all, so that containers compare them
        global HASHED
        HASHED = True
        return 0x5A5A5A5A

    def __repr__(self):
        return repr(''.join(x if type(x) is str else (x.one() or '\u25a1') for x in self.e))

    def __str__(self):
        return ''.join(concretize(self))

    def __format__(self, spec):
        raise PathDegraded('format of a symbolic string in uninstrumented code')

    def __getitem__(self, k):
        if isinstance(k, slice):
            k = slice(*[None if v is None else v.__index__() for v in (k.start, k.stop, k.step)])
            return mk(self.e[k])
        return mk((self.e[k.__index__()],))

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mk(self.e + elems(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mk(elems(o) + self.e)

    def __mul__(self, n):
        return mk(self.e * n.__index__())
    __rmul__ = __mul__

    def __mod__(self, args):
        return fmt_percent(self, args)

    def __eq__(self, o):
        if IDENTITY:
            return self is o
        if not isinstance(o, str):
            return False if o is None else NotImplemented
        return str_eq(self, o)

    def __ne__(self, o):
        if not isinstance(o, str):
            return True if o is None else NotImplemented
        return snot(str_eq(self, o))

    def __lt__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return str_lt(self, o)

    def __gt__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return str_lt(o, self)

    def __le__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return str_lt(self, o, True)

    def __ge__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return str_lt(o, self, True)

    def __contains__(self, o):
        if not isinstance(o, str):
            raise TypeError("'in <string>' requires string as left operand")
        return bool(contains_formula(self, o))

    # -- search
    def _match_at(self, pat, i):
        """Fork: does pat (elements) occur at position i."""
        r = str_eq(SymStr(self.e[i:i + len(pat)]), SymStr(pat))
        return r if r is True or r is False else bool(r)

    def _bounds(self, start, end):
        n = len(self.e)
        return slice(start, end).indices(n)[:2]

    def find(self, sub, start=None, end=None):
        pat = elems(sub)
        if start is not None and start > len(self.e):
            return -1
        lo, hi = self._bounds(start, end)
        for i in range(lo, hi - len(pat) + 1):
            if self._match_at(pat, i):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        pat = elems(sub)
        lo, hi = self._bounds(start, end)
        for i in range(hi - len(pat), lo - 1, -1):
            if self._match_at(pat, i):
                return i
        return -1

    def index(self, *a):
        r = self.find(*a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, *a):
        r = self.rfind(*a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=None, end=None):
        pat = elems(sub)
        lo, hi = self._bounds(start, end)
        n = 0
        i = lo
        if not pat:
            return hi - lo + 1
        while i <= hi - len(pat):
            if self._match_at(pat, i):
                n += 1
                i += len(pat)
            else:
                i += 1
        return n

    def startswith(self, prefix, start=None, end=None):
        s = self
        if start is not None or end is not None:
            s = self[slice(start, end)]
        if isinstance(prefix, tuple):
            for p in prefix:
                if _lift(s).startswith(p):
                    return True
            return False
        if len(prefix) > len(s):
            return False
        return str_eq(s[:len(prefix)], prefix)

    def endswith(self, suffix, start=None, end=None):
        s = self
        if start is not None or end is not None:
            s = self[slice(start, end)]
        if isinstance(suffix, tuple):
            for p in suffix:
                if _lift(s).endswith(p):
                    return True
            return False
        if len(suffix) > len(s):
            return False
        if len(suffix) == 0:
            return True
        return str_eq(s[-len(suffix):], suffix)

    def removeprefix(self, p):
        if self.startswith(p):
            return self[len(p):]
        return self

    def removesuffix(self, p):
        if p and self.endswith(p):
            return self[:-len(p)]
        return self

    # -- stripping and splitting
    def _stripset(self, chars):
        if chars is None:
            return I.pred('space')
        if isinstance(chars, SymStr):
            return None
        return I.of(chars)

    def _instrip(self, el, chars, s):
        if s is not None:
            return char_in(el, s)
        for c in elems(chars):
            if el_eq_fork(el, c):
                return True
        return False

    def lstrip(self, chars=None):
        s = self._stripset(chars)
        i = 0
        while i < len(self.e) and self._instrip(self.e[i], chars, s):
            i += 1
        return mk(self.e[i:])

    def rstrip(self, chars=None):
        s = self._stripset(chars)
        i = len(self.e)
        while i > 0 and self._instrip(self.e[i - 1], chars, s):
            i -= 1
        return mk(self.e[:i])

    def strip(self, chars=None):
        return _lift(self.lstrip(chars)).rstrip(chars)

    def split(self, sep=None, maxsplit=-1):
        maxsplit = maxsplit.__index__()
        out = []
        if sep is None:
            s = I.pred('space')
            i = 0
            n = len(self.e)
            while True:
                while i < n and char_in(self.e[i], s):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    j = n
                    while j > i and char_in(self.e[j - 1], s):
                        j -= 1
                    out.append(mk(self.e[i:j]))
                    break
                j = i
                while j < n and not char_in(self.e[j], s):
                    j += 1
                out.append(mk(self.e[i:j]))
                i = j
            return out
        pat = elems(sep)
        if not pat:
            raise ValueError('empty separator')
        last = 0
        i = 0
        while i <= len(self.e) - len(pat):
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if self._match_at(pat, i):
                out.append(mk(self.e[last:i]))
                i += len(pat)
                last = i
            else:
                i += 1
        out.append(mk(self.e[last:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise PathDegraded('rsplit(None, n)')
        pat = elems(sep)
        out = []
        end = len(self.e)
        i = end - len(pat)
        while i >= 0 and len(out) < maxsplit:
            if self._match_at(pat, i):
                out.append(mk(self.e[i + len(pat):end]))
                end = i
                i -= len(pat)
            else:
                i -= 1
        out.append(mk(self.e[:end]))
        out.reverse()
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, '', '')
        return (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ('', '', self)
        return (self[:i], sep, self[i + len(sep):])

    def splitlines(self, keepends=False):
        lb = I.pred('linebreak')
        out = []
        i = start = 0
        n = len(self.e)
        while i < n:
            if char_in(self.e[i], lb):
                j = i + 1
                if char_is(self.e[i], '\r') and j < n and char_is(self.e[j], '\n'):
                    j += 1
                out.append(mk(self.e[start:j if keepends else i]))
                start = i = j
            else:
                i += 1
        if start < n:
            out.append(mk(self.e[start:]))
        return out

    def replace(self, old, new, count=-1):
        po, pn = elems(old), elems(new)
        out = []
        i = 0
        n = 0
        if not po:
            for x in self.e:
                if count < 0 or n < count:
                    out.extend(pn)
                    n += 1
                out.append(x)
            if count < 0 or n < count:
                out.extend(pn)
            return mk(out)
        while i < len(self.e):
            if (count < 0 or n < count) and i <= len(self.e) - len(po) and self._match_at(po, i):
                out.extend(pn)
                i += len(po)
                n += 1
            else:
                out.append(self.e[i])
                i += 1
        return mk(out)

    def expandtabs(self, tabsize=8):
        out = []
        col = 0
        for x in self.e:
            if char_is(x, '\t'):
                pad = tabsize - col % tabsize if tabsize > 0 else 0
                out.extend(' ' * pad)
                col += pad
            else:
                out.append(x)
                col = 0 if char_in(x, I.of('\n\r')) else col + 1
        return mk(out)

    def translate(self, table):
        out = []
        for x in self.e:
            if type(x) is CV:
                ks = I.norm([(k, k) for k in table])
                if not ENG.char_in(x, ks):
                    out.append(x)
                    continue
                x = ENG.concretize_char(x, cap=len(table) + 1)
            v = table.get(ord(x), x)
            if v is not None:
                out.extend(chr(v) if isinstance(v, int) else elems(v))
        return mk(out)

    def join(self, it):
        return join(self, it)

    # -- case
    def _mapcase(self, kind):
        out = []
        for x in self.e:
            if type(x) is not CV:
                out.extend(getattr(x, kind)())
                continue
            out.extend(map_case(x, kind))
        return mk(out)

    def lower(self):
        return self._mapcase('lower')

    def upper(self):
        return self._mapcase('upper')

    def casefold(self):
        return self._mapcase('casefold')

    def title(self):
        return self._conc().title()

    def swapcase(self):
        out = []
        for x in self.e:
            c = mk((x,))
            if char_in(x, I.pred('upper')):
                c = c.lower()
            elif char_in(x, I.pred('lower')):
                c = c.upper()
            out.extend(elems(c))
        return mk(out)

    def capitalize(self):
        return mk(elems(_lift(mk(self.e[:1])).upper()) + elems(_lift(mk(self.e[1:])).lower()))

    def _all(self, p):
        s = I.pred(p)
        for x in self.e:
            if not char_in(x, s):
                return False
        return bool(self.e)

    def isspace(self):
        return self._all('space')

    def isdigit(self):
        return self._all('digit')

    def isdecimal(self):
        return self._all('decimal')

    def isnumeric(self):
        return self._all('numeric')

    def isalpha(self):
        return self._all('alpha')

    def isalnum(self):
        return self._all('alnum')

    def isascii(self):
        s = I.pred('ascii')
        return all(char_in(x, s) for x in self.e)

    def isprintable(self):
        s = I.pred('printable')
        return all(char_in(x, s) for x in self.e)

    def isidentifier(self):
        return char_in(self.e[0], I.pred('identstart')) and all(
            char_in(x, I.pred('identcont')) for x in self.e[1:])

    def _cased(self, kind, other):
        r = False
        for x in self.e:
            if char_in(x, I.pred(other)) or char_in(x, I.pred('title')):
                return False
            if char_in(x, I.pred(kind)):
                r = True
        return r

    def isupper(self):
        return self._cased('upper', 'lower')

    def islower(self):
        return self._cased('lower', 'upper')

    def zfill(self, n):
        pad = '0' * max(0, n - len(self))
        if pad and self.e and char_in(self.e[0], I.of('+-')):
            return mk(self.e[:1] + tuple(pad) + self.e[1:])
        return pad + self

    def ljust(self, n, c=' '):
        return self + c * max(0, n - len(self))

    def rjust(self, n, c=' '):
        return c * max(0, n - len(self)) + self

    def center(self, n, c=' '):
        pad = max(0, n - len(self))
        left = pad // 2 + (pad & n & 1)
        return c * left + self + c * (pad - left)

    def _conc(self):
        return concretize(self)

    def encode(self, encoding='utf-8', errors='strict'):
        return SymBytes(self.e)

    def format(self, *a, **k):
        return fmt_format(self, a, k)

    def format_map(self, m):
        return fmt_format(self, (), m)


class SymBytes:
    """Bytes of a text in an ASCII compatible encoding.

    Each element is a character; a non ASCII character stands for its whole
    multibyte sequence (the code under test only compares with ASCII bytes).
    """
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = tuple(e)

    @property
    def __class__(self):
        return bytes

    def s(self):
        return SymStr(self.e)

    def __len__(self):
        return len(self.e)

    def __bool__(self):
        return bool(self.e)

    def __hash__(self):
        global HASHED
        HASHED = True
        return 0x5A5A5A5A

    def __repr__(self):
        return 'b' + repr(self.s())

    def __getitem__(self, k):
        if isinstance(k, slice):
            return SymBytes(self.e[k])
        x = self.e[k.__index__()]
        if type(x) is CV:
            return SymInt(z3.BV2Int(x.z))
        return ord(x)

    def __eq__(self, o):
        if IDENTITY:
            return self is o
        if not isinstance(o, (bytes, SymBytes)):
            return False
        return str_eq(self.s(), _bs(o))

    def __ne__(self, o):
        return snot(self.__eq__(o))

    def __lt__(self, o):
        return str_lt(self.s(), _bs(o))

    def __add__(self, o):
        return SymBytes(self.e + elems(_bs(o)))

    def __radd__(self, o):
        return SymBytes(elems(_bs(o)) + self.e)

    def __contains__(self, o):
        return bool(contains_formula(self.s(), _bs(o)))

    def decode(self, *a, **k):
        return mk(self.e)

    def __iter__(self):
        for i in range(len(self.e)):
            yield self[i]

    def __getattr__(self, name):
        f = getattr(self.s(), name)

        def g(*a, **k):
            a = [_bs(x) if isinstance(x, (bytes, SymBytes)) else
                 tuple(_bs(y) for y in x) if isinstance(x, tuple) else x for x in a]
            r = f(*a, **k)
            if isinstance(r, str):
                return SymBytes(elems(r))
            if isinstance(r, (list, tuple)):
                return type(r)(SymBytes(elems(x)) for x in r)
            return r
        return g


def _bs(o):
    if isinstance(o, SymBytes):
        return SymStr(o.e)
    if isinstance(o, (bytes, bytearray)):
        return o.decode('latin-1')
    return o


def _lift(s):
    return s if isinstance(s, SymStr) else SymStr(tuple(s))


lift = _lift


def contains_formula(hay, needle):
    """needle in hay, as one formula (bool or SymBool)."""
    eh, en = elems(hay), elems(needle)
    rs = []
    for i in range(len(eh) - len(en) + 1):
        r = str_eq(SymStr(eh[i:i + len(en)]), SymStr(en))
        if r is True:
            return True
        if r is not False:
            rs.append(r)
    if not rs:
        return False
    if len(rs) == 1:
        return rs[0]
    return sor(*rs)


def map_case(cv, kind):
    """Elements of the case mapping of a symbolic character."""
    if not ENG.char_in(cv, I.pred(kind + 'changed')):
        return (cv,)
    if cv.one() is not None:
        return tuple(getattr(cv.one(), kind)())
    groups = {}
    for lo, hi in cv.iv:
        for c in range(lo, hi + 1):
            m = getattr(chr(c), kind)()
            if len(m) != 1 or ord(m) > I.MAX:
                groups.setdefault(None, []).append((c, c))
            else:
                groups.setdefault(ord(m) - c, []).append((c, c))
    multi = I.norm(groups.pop(None, []))
    if multi and ENG.char_in(cv, multi):
        return tuple(getattr(ENG.concretize_char(cv), kind)())
    if cv.one() is not None:
        return tuple(getattr(cv.one(), kind)())
    z = cv.z
    ivs = ()
    first = True
    for delta, cs in groups.items():
        s = I.inter(I.norm(cs), cv.iv)
        if not s:
            continue
        ivs = I.union(ivs, [(lo + delta, hi + delta) for lo, hi in s])
        nz = cv.z + z3.BitVecVal(delta & 0xFFFF, 16)
        z = nz if first else z3.If(zin(cv.z, s), nz, z)
        first = False
    return (CV(f'{kind}({cv.name})', z, ivs),)


def concretize(s, cap=24):
    """Fork over all values of a symbolic string; plain str."""
    if isinstance(s, SymStr):
        if any(type(x) is CV and x.one() is None for x in s.e):
            ENG.mark_inexact('concretized string') if sum(
                type(x) is CV and I.size(x.iv) > cap for x in s.e) else None
        return ''.join(ENG.concretize_char(x, cap) if type(x) is CV else x for x in s.e)
    if isinstance(s, SymBytes):
        return concretize(SymStr(s.e)).encode('utf-8')
    if type(s) is SymBool:
        return bool(s)
    if type(s) is SymInt:
        return ENG.concretize_int(s)
    return s


def join(sep, it):
    out = []
    first = True
    es = elems(sep)
    for x in it:
        if not isinstance(x, str):
            raise TypeError(f'sequence item: expected str instance, {type(x).__name__} found')
        if not first:
            out.extend(es)
        out.extend(elems(x))
        first = False
    return mk(out)


def tostr(x):
    """str(x) for any x."""
    t = type(x)
    if t is SymStr:
        return x
    if t is str:
        return x
    if t is SymInt:
        if x.real:
            raise PathDegraded('str of symbolic float')
        return str(ENG.concretize_int(x))
    if t is SymBool:
        return str(bool(x))
    if isinstance(x, BaseException) and t.__str__ is BaseException.__str__:
        if len(x.args) == 1:
            return tostr(x.args[0])
        return str(x)
    f = getattr(t, '__str__', None)
    if type(f) is _function:
        return f(x)
    if t in (list, tuple, dict) and contains_sym(x):
        return torepr(x)
    return str(x)


_function = type(lambda: 0)


def contains_sym(x, depth=4):
    if is_sym(x):
        return True
    if depth == 0:
        return False
    if isinstance(x, (list, tuple, set, frozenset)):
        return any(contains_sym(y, depth - 1) for y in x)
    if isinstance(x, dict):
        return any(contains_sym(k, depth - 1) or contains_sym(v, depth - 1) for k, v in x.items())
    return False


REPR_SAME = I.minus(I.pred('printable'), I.of('\\\'"'))


def torepr(x):
    t = type(x)
    if t is SymStr:
        es = []
        for el in x.e:
            if type(el) is CV and not ENG.char_in(el, I.WORD):
                if not ENG.char_in(el, REPR_SAME):
                    el = ENG.concretize_char(el)
            es.append(el)
        conc = ''.join(el for el in es if type(el) is str)
        q = '"' if "'" in conc and '"' not in conc else "'"
        body = []
        for el in es:
            if type(el) is CV:
                body.append(el)
            elif el == "'":
                body.extend("\\'" if q == "'" else "'")
            elif el == '"':
                body.append('"')
            else:
                body.extend(repr(el)[1:-1])
        return mk([q] + body + [q])
    if t is SymInt or t is SymBool:
        return tostr(x)
    if t in (list, tuple):
        inner = join(', ', [torepr(y) for y in x])
        if t is list:
            return mk(('[',) + elems(inner) + (']',))
        return mk(('(',) + elems(inner) + ((',)',) if len(x) == 1 else (')',)))
    if t is dict:
        return mk(('{',) + elems(join(', ', [torepr(k) + ': ' + torepr(v) for k, v in x.items()])) + ('}',))
    return repr(x)


def fmt_value(v, conv, spec):
    if conv == 'r':
        v = torepr(v)
    elif conv == 's':
        v = tostr(v)
    elif conv == 'a':
        v = ascii(concretize(v))
    if spec:
        if isinstance(v, SymStr):
            import re as _re
            m = _re.fullmatch(r'(?:(.)?([<>^]))?(\d+)?s?', concretize(spec))
            if not m:
                raise PathDegraded('format spec')
            fill, al, w = m.group(1) or ' ', m.group(2) or '<', int(m.group(3) or 0)
            pad = max(0, w - len(v))
            if al == '<':
                return v + fill * pad
            if al == '>':
                return fill * pad + v
            return fill * (pad // 2) + v + fill * (pad - pad // 2)
        if type(v) is SymInt:
            v = ENG.concretize_int(v)
        return format(v, concretize(spec))
    t = type(v)
    if t is str or t is SymStr:
        return v
    if t is SymInt or t is SymBool:
        return tostr(v)
    f = getattr(t, '__format__', None)
    if type(f) is _function:
        return f(v, '')
    if f is object.__format__ or t in (list, tuple, dict):
        return tostr(v)
    return format(v, '')


def fstr(*parts):
    out = []
    symbolic = False
    for p in parts:
        if type(p) is str:
            out.append(p)
        else:
            v = fmt_value(*p)
            if isinstance(v, SymStr):
                symbolic = True
            out.append(v)
    if not symbolic:
        return ''.join(out)
    return mk([el for s in out for el in elems(s)])


def fmt_percent(fmt, args):
    if isinstance(fmt, SymStr):
        # symbolic characters in the format: none may be '%'
        for x in fmt.e:
            if type(x) is CV and char_is(x, '%'):
                raise PathDegraded('percent format')
    es = elems(fmt)
    if not isinstance(args, tuple):
        args = (args,)
    mapping = args[0] if len(args) == 1 and isinstance(args[0], dict) else None
    out = []
    i = k = 0
    n = len(es)
    while i < n:
        c = es[i]
        if c != '%':
            out.append(c)
            i += 1
            continue
        j = i + 1
        key = None
        if j < n and es[j] == '(':
            e = es.index(')', j)
            key = ''.join(es[j + 1:e])
            j = e + 1
        st = j
        while es[j] in '#0- +0123456789.':
            j += 1
        flags = ''.join(es[st:j])
        conv = es[j]
        i = j + 1
        if conv == '%':
            out.append('%')
            continue
        if key is not None:
            v = mapping[key]
        else:
            if k >= len(args):
                raise TypeError('not enough arguments for format string')
            v = args[k]
            k += 1
        if conv in 'sr' and '*' not in flags:
            v = tostr(v) if conv == 's' else torepr(v)
            if '.' in flags:
                flags, _, prec = flags.partition('.')
                v = v[:int(prec or 0)]
            width = int(flags.lstrip('#0- +') or 0)
            pad = ' ' * max(0, width - len(v))
            out.extend(elems(v) + tuple(pad) if '-' in flags else tuple(pad) + elems(v))
        else:
            out.extend(('%' + flags + conv) % concretize(v))
    if mapping is None and k < len(args):
        raise TypeError('not all arguments converted during string formatting')
    return mk(out)


def fmt_format(fmt, args, kwargs):
    if isinstance(fmt, SymStr):
        for x in fmt.e:
            if type(x) is CV and char_in(x, I.of('{}')):
                raise PathDegraded('format string')
    es = elems(fmt)
    out = []
    auto = 0
    i = 0
    n = len(es)
    while i < n:
        c = es[i]
        if c == '{':
            if i + 1 < n and es[i + 1] == '{':
                out.append('{')
                i += 2
                continue
            j = i + 1
            depth = 1
            while j < n:
                if es[j] == '{':
                    depth += 1
                elif es[j] == '}':
                    depth -= 1
                    if depth == 0:
                        break
                j += 1
            if j >= n:
                raise ValueError("expected '}' before end of string")
            field = ''.join(concretize(mk(es[i + 1:j])))
            i = j + 1
            spec = ''
            conv = None
            if ':' in field:
                field, spec = field.split(':', 1)
            if '!' in field:
                field, conv = field.split('!', 1)
            import re as _re
            m = _re.match(r'[^.\[]*', field)
            name, rest = m.group(0), field[m.end():]
            if name == '':
                name = auto
                auto += 1
                v = args[name]
            elif name.isdigit():
                v = args[int(name)]
            else:
                v = kwargs[name]
            for a, b in _re.findall(r'\.([^.\[]+)|\[([^\]]+)\]', rest):
                v = getattr(v, a) if a else v[int(b) if b.isdigit() else b]
            out.extend(elems(fmt_value(v, conv, spec)))
        elif c == '}':
            if i + 1 < n and es[i + 1] == '}':
                out.append('}')
                i += 2
                continue
            raise ValueError("Single '}' encountered in format string")
        else:
            out.append(c)
            i += 1
    return mk(out)


# -------------------------------------------------------- deep equality
def deep_eq(a, b):
    """One formula (bool or SymBool) for a == b on nested data."""
    if isinstance(a, str) and isinstance(b, str):
        if type(a) is str and type(b) is str:
            return a == b
        return str_eq(a, b)
    if type(a) is SymBytes or type(b) is SymBytes:
        return str_eq(_bs(a), _bs(b))
    if type(a) in (list, tuple) and type(b) in (list, tuple):
        if len(a) != len(b):
            return False
        return sand(*[deep_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        return sand(*[sand(deep_eq(x[0], y[0]), deep_eq(x[1], y[1]))
                      for x, y in zip(a.items(), b.items())])
    if type(a) is SymBool or type(b) is SymBool:
        if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
            return snot(sne_bool(a, b))
        return False
    if type(a) is SymInt or type(b) is SymInt:
        r = (a == b)
        return r if type(r) in (bool, SymBool) else bool(r)
    r = a == b
    return r if type(r) in (bool, SymBool) else bool(r)


# -------------------------------------------------------- evaluation
def eval_sym(x, m):
    """The value of x (nested data) in a model, as plain Python data."""
    t = type(x)
    if t is SymStr or t is SymBytes:
        return ''.join(chr(m.eval(c.z, model_completion=True).as_long()) if type(c) is CV else c for c in x.e)
    if t is SymBool:
        return z3.is_true(m.eval(x.z, model_completion=True))
    if t is SymInt:
        v = m.eval(x.z, model_completion=True)
        if z3.is_int_value(v):
            return v.as_long()
        return float(v.as_fraction())
    if t is bytes:
        return x.decode('utf-8', 'replace')
    if isinstance(x, (list, tuple)):
        return [eval_sym(y, m) for y in x]
    if isinstance(x, dict):
        return [[eval_sym(k, m), eval_sym(v, m)] for k, v in x.items()]
    if isinstance(x, (set, frozenset)):
        return sorted(repr(eval_sym(y, m)) for y in x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)
