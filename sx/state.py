"""Module-level state of the code under test (caches, counters, mutable
defaults, class attributes): every symbolic path and every replay starts from
the state right after import, like a fresh process."""
import collections
import copy
import importlib
import itertools
import os
import pkgutil
import random
import sys
import threading
import types
import weakref

import numpy as np

PREFIX = 'pysgmcmc'
_restorers = {}      # module name -> (module object, list of closures)
_seen = {}           # id -> object already covered (kept alive)
_loaded = [False]

_ITERS = (itertools.count, itertools.cycle, itertools.chain, itertools.islice, type(iter([])), type(iter(())), type(iter(range(0))))
_CONTAINERS = (dict, list, set, bytearray, collections.deque, weakref.WeakKeyDictionary, weakref.WeakValueDictionary, weakref.WeakSet)


def _ours(o):
    m = getattr(o, '__module__', None)
    return isinstance(m, str) and (m == PREFIX or m.startswith(PREFIX + '.'))


def _keep(v):
    """value to rebind on restore: iterators are consumed in place, so a copy"""
    if isinstance(v, _ITERS):
        try:
            saved = copy.copy(v)
            return lambda: copy.copy(saved)
        except Exception:
            pass
    return lambda: v


def _mapping(get, set_, del_):
    """restore closure of a name -> object namespace"""
    saved = {k: _keep(v) for k, v in get().items()}
    raw = dict(get())

    def restore():
        now = dict(get())
        for k in now:
            if k not in saved:
                del_(k)
        for k, f in saved.items():
            if k not in now or now[k] is not raw[k] or isinstance(raw[k], _ITERS):
                set_(k, f())
    return restore


def _snap(o, out, depth=0):
    if depth > 8 or id(o) in _seen or o is None or isinstance(o, (bool, int, float, str, bytes, complex)):
        return
    if isinstance(o, _CONTAINERS):
        _seen[id(o)] = o
        if isinstance(o, (dict, weakref.WeakKeyDictionary, weakref.WeakValueDictionary)):
            items = list(o.items())
            keep = [(k, _keep(v)) for k, v in items]

            def restore_dict(o=o, keep=keep):
                o.clear()
                for k, f in keep:
                    o[k] = f()
            out.append(restore_dict)
            for k, v in items:
                _snap(v, out, depth + 1)
        elif isinstance(o, (list, collections.deque, bytearray)):
            items = list(o)
            keep = [_keep(v) for v in items]

            def restore_list(o=o, keep=keep):
                if isinstance(o, collections.deque):
                    o.clear()
                else:
                    del o[:]
                o.extend([f() for f in keep])
            out.append(restore_list)
            for v in items:
                _snap(v, out, depth + 1)
        else:
            items = list(o)

            def restore_set(o=o, items=items):
                o.clear()
                for v in items:
                    o.add(v)
            out.append(restore_set)
        return
    if isinstance(o, np.ndarray):
        _seen[id(o)] = o
        if o.dtype != object and o.flags.writeable:
            saved = o.copy()

            def restore_array(o=o, saved=saved):
                o[...] = saved
            out.append(restore_array)
        return
    if isinstance(o, np.random.RandomState):
        _seen[id(o)] = o
        st = o.get_state()
        out.append(lambda: o.set_state(st))
        return
    if isinstance(o, np.random.Generator):
        _seen[id(o)] = o
        st = copy.deepcopy(o.bit_generator.state)

        def restore_gen(o=o, st=st):
            o.bit_generator.state = copy.deepcopy(st)
        out.append(restore_gen)
        return
    if isinstance(o, random.Random) and not isinstance(o, random.SystemRandom):
        _seen[id(o)] = o
        st = o.getstate()
        out.append(lambda: o.setstate(st))
        return
    if isinstance(o, threading.local):
        _seen[id(o)] = o
        out.append(o.__dict__.clear)
        return
    if isinstance(o, (staticmethod, classmethod)):
        return _snap(o.__func__, out, depth)
    if isinstance(o, property):
        for f in (o.fget, o.fset, o.fdel):
            _snap(f, out, depth + 1)
        return
    if hasattr(o, 'cache_clear') and callable(o.cache_clear):
        _seen[id(o)] = o
        if _ours(o):
            out.append(o.cache_clear)
            _snap(getattr(o, '__wrapped__', None), out, depth + 1)
        return
    if isinstance(o, types.FunctionType):
        _seen[id(o)] = o
        if not _ours(o):
            return
        out.append(_mapping(lambda: o.__dict__, o.__dict__.__setitem__, o.__dict__.__delitem__))
        for v in list(o.__defaults__ or ()) + list((o.__kwdefaults__ or {}).values()) + list(o.__dict__.values()):
            _snap(v, out, depth + 1)
        for c in o.__closure__ or ():
            try:
                v = c.cell_contents
            except ValueError:
                continue
            keep = _keep(v)

            def restore_cell(c=c, v=v, keep=keep):
                try:
                    if c.cell_contents is v and not isinstance(v, _ITERS):
                        return
                except ValueError:
                    pass
                c.cell_contents = keep()
            out.append(restore_cell)
            _snap(v, out, depth + 1)
        return
    if isinstance(o, type):
        _seen[id(o)] = o
        if not _ours(o):
            return

        def namespace(o=o):
            return {k: v for k, v in vars(o).items()
                    if not (k.startswith('__') and k.endswith('__')) and not k.startswith('_abc')}

        def set_(k, v, o=o):
            try:
                setattr(o, k, v)
            except Exception:
                pass

        def del_(k, o=o):
            try:
                delattr(o, k)
            except Exception:
                pass
        out.append(_mapping(namespace, set_, del_))
        for k, v in list(vars(o).items()):
            _snap(v, out, depth + 1)
        for b in o.__mro__[1:]:
            _snap(b, out, depth + 1)
        return
    if _ours(type(o)) and hasattr(o, '__dict__'):
        _seen[id(o)] = o
        d = o.__dict__
        out.append(_mapping(lambda: d, d.__setitem__, d.__delitem__))
        for v in list(d.values()):
            _snap(v, out, depth + 1)


def _modules():
    return {n: m for n, m in list(sys.modules.items())
            if m is not None and (n == PREFIX or n.startswith(PREFIX + '.')) and isinstance(m, types.ModuleType)}


def load(repo):
    """import every module of the package (those that import here)"""
    if _loaded[0]:
        return
    _loaded[0] = True
    root = os.path.join(repo, PREFIX)
    names = []
    for base, dirs, files in sorted(os.walk(root)):
        dirs[:] = [d for d in sorted(dirs) if d not in ('tests', 'test', '__pycache__')]
        rel = os.path.relpath(base, repo).replace(os.sep, '.')
        if '__init__.py' in files:
            names.append(rel)
        names += [rel + '.' + f[:-3] for f in sorted(files) if f.endswith('.py') and f != '__init__.py']
    for n in names:
        try:
            importlib.import_module(n)
        except BaseException:
            pass
    snapshot()


def snapshot():
    for n, m in _modules().items():
        if n in _restorers and _restorers[n][0] is m:
            continue
        out = []
        d = vars(m)
        names = [k for k in d if not (k.startswith('__') and k.endswith('__'))]

        def namespace(d=d):
            return {k: v for k, v in d.items() if not (k.startswith('__') and k.endswith('__')) and
                    not isinstance(v, types.ModuleType)}
        out.append(_mapping(namespace, d.__setitem__, d.__delitem__))
        for k in names:
            v = d[k]
            if isinstance(v, types.ModuleType):
                continue
            _snap(v, out)
        _restorers[n] = (m, out)


def restore():
    """back to the state after import; modules seen for the first time are recorded"""
    for n, (m, out) in list(_restorers.items()):
        if sys.modules.get(n) is not m:
            del _restorers[n]
            continue
        for f in out:
            f()
    snapshot()
