"""What a harness sees: inputs, scratch files, assertions and observations.

The same harness runs symbolically (SymWorld, code under test instrumented) and
concretely (ConcreteWorld, plain interpreter, real code) on a recorded input list.
"""
import io
import os
import shutil
import sys


def flat(xs):
    """Conditions given as arguments or in a list."""
    return [y for x in xs for y in (x if hasattr(x, '__iter__') else [x])]


class Capture:
    """Text sink that accepts symbolic strings."""

    def __init__(self):
        self.parts = []
        self.encoding = 'utf-8'

    def write(self, s):
        self.parts.append(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def writelines(self, ls):
        for x in ls:
            self.write(x)


class Terminal(io.StringIO):
    """Standard input without content."""

    def isatty(self):
        return True


class Failed(Exception):
    pass


class BaseWorld:
    symbolic = False

    def __init__(self, root):
        self.root = root
        self.cwd = None
        self.shared = {}

    def start(self):
        wipe(self.root)
        os.chdir(self.root)
        os.environ.pop('_MDPO_RUNNING', None)

    # -- files
    def path(self, rel):
        return self.root + '/' + rel

    def write(self, rel, content, encoding='utf-8'):
        p = self.path(rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with self.open(p, 'w', encoding) as f:
            f.write(content)
        return p

    def read(self, rel, encoding='utf-8'):
        with self.open(self.path(rel), 'r', encoding) as f:
            return f.read()

    def exists(self, rel):
        return os.path.isfile(self.path(rel))

    def remove(self, rel):
        os.remove(self.path(rel))

    def mtime_mark(self, rel):
        """Make a later rewrite of the file visible."""
        os.utime(self.path(rel), ns=(10**18, 10**18))

    def untouched(self, rel):
        return os.stat(self.path(rel)).st_mtime_ns == 10**18

    def listing(self):
        out = []
        for d, ds, fs in os.walk(self.root):
            ds.sort()
            out.extend(os.path.relpath(os.path.join(d, f), self.root) for f in fs)
        return sorted(out)

    # -- programs
    def main(self, f, args):
        """Run a command line entry point; (exit code, stdout, stderr)."""
        so, se, si = sys.stdout, sys.stderr, sys.stdin
        out, err = Capture(), Capture()
        sys.stdout, sys.stderr, sys.stdin = out, err, Terminal()
        code = None
        try:
            try:
                code = f(args=args)
            except SystemExit as e:
                code = e.code
        finally:
            sys.stdout, sys.stderr, sys.stdin = so, se, si
        return (0 if code is None else code), self.cat(out.parts), self.cat(err.parts)

    def call(self, f, *a, **k):
        """Call f; ('ok', result) or ('raise', exception type name, message)."""
        so, se = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = Capture(), Capture()
        try:
            try:
                return ('ok', f(*a, **k))
            except (SystemExit, Exception) as e:
                if type(e).__module__ == 'symx.world':
                    raise
                return ('raise', type(e).__name__, self.tostr(e))
        finally:
            sys.stdout, sys.stderr = so, se


def wipe(root):
    if os.path.isdir(root):
        for n in os.listdir(root):
            p = os.path.join(root, n)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            else:
                os.unlink(p)
    else:
        os.makedirs(root)


class SymWorld(BaseWorld):
    symbolic = True

    def __init__(self, root):
        super().__init__(root)
        from . import core, models, iv
        self.S, self.M, self.I = core, models, iv
        self.log = []
        self.reached = set()
        self.nchecks = 0

    def start(self):
        self.M.fs.root = self.root
        self.M.fs.enc.clear()
        super().start()

    def open(self, p, mode, encoding='utf-8'):
        return self.M.sx_open(p, mode, encoding=encoding, newline='')

    # -- inputs
    def text(self, name, n, dom='word'):
        S = self.S
        d = dom if isinstance(dom, tuple) else self.I.DOMS[dom] if dom in self.I.DOMS else self.I.of(dom)
        e = S.ENG
        s = S.mk([S.new_char(f'{e.uname(name)}.{i}', d) for i in range(n)])
        self.log.append(s)
        return s

    def bool(self, name):
        b = self.S.new_bool(self.S.ENG.uname(name))
        self.log.append(b)
        return b

    def int(self, name, lo, hi):
        b = self.S.new_int(self.S.ENG.uname(name), lo, hi)
        self.log.append(b)
        return b

    def pick(self, name, options):
        i = self.S.ENG.choose(len(options))
        self.log.append(i)
        return options[i]

    def assume(self, c):
        self.S.ENG.assume(c)

    def eq(self, a, b):
        return self.S.deep_eq(a, b)

    def all(self, *xs):
        return self.S.sand(*flat(xs))

    def any(self, *xs):
        return self.S.sor(*flat(xs))

    def neg(self, x):
        return self.S.snot(x)

    def implies(self, a, b):
        return self.S.sor(self.S.snot(a), b)

    def iff(self, a, b):
        return self.S.snot(self.S.sne_bool(a, b))

    def check(self, c, label, info=None):
        self.nchecks += 1
        self.S.ENG.check(c, label, self)

    def obs(self, name, v):
        self.S.ENG.obs.append((name, v))

    def reach(self, label):
        self.reached.add(label)

    def cat(self, parts):
        return self.S.join('', parts)

    def tostr(self, x):
        return self.S.tostr(x)

    def conc(self, x):
        """Fork over the values of a symbolic string."""
        return self.S.concretize(x)


class ConcreteWorld(BaseWorld):
    def __init__(self, root, inputs):
        super().__init__(root)
        self.inputs = list(inputs)
        self.i = 0
        self.fails = []
        self.observed = []
        self.nchecks = 0
        self.open = None

    def start(self):
        super().start()
        self.open = lambda p, mode, encoding='utf-8': io.open(p, mode, encoding=encoding, newline='')

    def _next(self):
        v = self.inputs[self.i]
        self.i += 1
        return v

    def text(self, name, n, dom='word'):
        return self._next()

    def bool(self, name):
        return self._next()

    def int(self, name, lo, hi):
        return self._next()

    def pick(self, name, options):
        return options[self._next()]

    def assume(self, c):
        if not c:
            raise Failed('assumption')

    def eq(self, a, b):
        return a == b

    def all(self, *xs):
        return all(flat(xs))

    def any(self, *xs):
        return any(flat(xs))

    def neg(self, x):
        return not x

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def check(self, c, label, info=None):
        self.nchecks += 1
        if not c:
            self.fails.append([label, info if info is None else repr(info)[:1500]])

    def obs(self, name, v):
        self.observed.append((name, v))

    def reach(self, label):
        pass

    def cat(self, parts):
        return ''.join(parts)

    def tostr(self, x):
        return str(x)

    def conc(self, x):
        return x
