"""Mutable state of the modules under test, put back before each run."""
import collections
import sys
import types

_saved = {}
_CONT = (dict, list, set, collections.deque, bytearray)
_lru = []
_LRU = type(__import__('functools').lru_cache(lambda: 0))


def _containers(v, out, depth=4):
    if depth == 0:
        return
    t = type(v)
    if isinstance(v, _CONT) and not isinstance(v, type):
        if id(v) in out:
            return
        if isinstance(v, dict):
            out[id(v)] = (v, list(v.items()))
            inner = list(v.values())
        else:
            out[id(v)] = (v, list(v))
            inner = list(v) if t is not bytearray else []
        for x in inner:
            if isinstance(x, _CONT) or type(x) is tuple:
                _containers(x, out, depth - 1)
    elif t is tuple:
        for x in v:
            _containers(x, out, depth - 1)
    elif t is types.FunctionType:
        for x in (v.__defaults__ or ()):
            _containers(x, out, depth - 1)
        for x in (v.__kwdefaults__ or {}).values():
            _containers(x, out, depth - 1)
        _containers(vars(v), out, depth - 1)
        for c in v.__closure__ or ():
            try:
                _containers(c.cell_contents, out, depth - 1)
            except ValueError:
                pass
    elif t is _LRU:
        _lru.append(v)
        _containers(v.__wrapped__, out, depth - 1)
    elif t in (staticmethod, classmethod):
        _containers(v.__func__, out, depth - 1)


def _own(cls, name):
    return isinstance(cls, type) and cls.__module__ == name


def save(module):
    """Remember the state of a module that was just imported."""
    name = module.__name__
    conts = {}
    classes = []
    for k, v in list(vars(module).items()):
        if k.startswith('__'):
            continue
        _containers(v, conts)
        if _own(v, name):
            members = dict(vars(v))
            classes.append((v, members))
            for x in members.values():
                _containers(x, conts)
    _saved[name] = (module, dict(vars(module)), conts, classes)


def save_all(*tops):
    for name, module in list(sys.modules.items()):
        if name.split('.')[0] in tops and name not in _saved and isinstance(module, types.ModuleType):
            save(module)


def restore():
    for f in _lru:
        f.cache_clear()
    for module, binds, conts, classes in _saved.values():
        d = vars(module)
        for k, v in binds.items():
            if k not in d or d[k] is not v:
                d[k] = v
        if len(d) > len(binds):
            for k in list(d):
                if k not in binds and not isinstance(d[k], types.ModuleType):
                    del d[k]
        for cls, members in classes:
            cur = vars(cls)
            for k in list(cur):
                if k not in members and not k.startswith('__'):
                    delattr(cls, k)
            for k, v in members.items():
                if not k.startswith('__') and cur.get(k) is not v:
                    setattr(cls, k, v)
        for c, items in conts.values():
            if isinstance(c, dict):
                if len(c) == len(items) and all(
                        a is x and b is y for (a, b), (x, y) in zip(c.items(), items)):
                    continue
                c.clear()
                c.update(items)
            else:
                if len(c) == len(items) and all(a is b for a, b in zip(c, items)):
                    continue
                c.clear()
                if isinstance(c, set):
                    c.update(items)
                else:
                    c.extend(items)
