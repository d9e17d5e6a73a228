"""Concrete side: runs a harness on given inputs with the real, uninstrumented code."""
import importlib
import json
import os
import pkgutil
import signal
import sys
import traceback


class Alarm(BaseException):
    pass


def _alarm(*a):
    raise Alarm()


def jsonable(x):
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if isinstance(x, (list, tuple)):
        return [jsonable(y) for y in x]
    if isinstance(x, dict):
        return [[jsonable(k), jsonable(v)] for k, v in x.items()]
    if isinstance(x, (set, frozenset)):
        return sorted(map(repr, x))
    if isinstance(x, bytes):
        return x.decode('utf-8', 'replace')
    return repr(x)


def where(tb):
    """Innermost frame of mdpo in a traceback."""
    fn = None
    for f in traceback.extract_tb(tb):
        if '/mdpo/' in f.filename or 'polib' in f.filename:
            fn = f'{os.path.basename(os.path.dirname(f.filename))}/{os.path.basename(f.filename)}:{f.name}'
    return fn


def run_concrete(mod, case, inputs, root, limit=20):
    from . import world as W
    w = W.ConcreteWorld(root, inputs)
    exc = None
    signal.signal(signal.SIGALRM, _alarm)
    cwd = os.getcwd()
    so, se = sys.stdout, sys.stderr
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        w.start()
        mod.run(w, case)
    except W.Failed:
        exc = ['assumption', None, '']
    except Alarm:
        exc = ['timeout', None, '']
    except BaseException as e:
        exc = [type(e).__name__, where(e.__traceback__), str(e)[:300] + ' | ' + traceback.format_exc()[-1500:]]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.stdout, sys.stderr = so, se
        os.chdir('/')
    return {'fails': w.fails, 'obs': jsonable(w.observed), 'exc': exc}


def setup(repo):
    from . import instr
    instr.setup_paths(repo)


def main():
    repo, verif, modname, root = sys.argv[1:5]
    sys.path.insert(0, verif)
    setup(repo)
    sys.dont_write_bytecode = True
    mod = importlib.import_module('harness.' + modname)
    import mdpo
    for m in pkgutil.walk_packages(mdpo.__path__, 'mdpo.'):
        try:
            importlib.import_module(m.name)
        except Exception:
            pass
    from . import state
    state.save_all('mdpo', 'polib')
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    for line in sys.stdin:
        m = json.loads(line)
        state.restore()
        r = run_concrete(mod, m['case'], m['inputs'], root, m.get('limit', 20))
        out.write(json.dumps(r) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
