"""Counts the package's objects that are still reachable.

A walk over Python-level contents from the driver's objects, its modules, the
event loop's queues and running tasks.  (The collector's own view is not used:
it also reports slots a dict no longer uses.)
"""
import asyncio
import collections
import functools
import sys
import types

ATOMS = (int, float, str, bytes, bytearray, bool, type(None), complex)
SKIP = (types.ModuleType, types.BuiltinFunctionType)


def _children(o):
    if isinstance(o, dict):
        yield from o.keys()
        yield from o.values()
        if type(o) is dict:
            return
    elif isinstance(o, (list, tuple, set, frozenset, collections.deque)):
        yield from o
    elif isinstance(o, types.MethodType):
        yield o.__self__
        return
    elif isinstance(o, types.FunctionType):
        for c in o.__closure__ or ():
            try:
                yield c.cell_contents
            except ValueError:
                pass
        return
    elif isinstance(o, functools.partial):
        yield o.func
        yield o.args
        yield o.keywords
        return
    elif isinstance(o, (types.CoroutineType, types.GeneratorType)):
        fr = getattr(o, "cr_frame", None) or getattr(o, "gi_frame", None)
        if fr is not None:
            yield from list(fr.f_locals.values())
        w = getattr(o, "cr_await", None) or getattr(o, "gi_yieldfrom", None)
        if w is not None:
            yield w
        return
    elif isinstance(o, asyncio.Handle):
        if not o.cancelled():
            yield o._callback
            yield o._args
        return
    elif isinstance(o, asyncio.Task) and not o.done():
        yield o.get_coro()
    d = getattr(o, "__dict__", None)
    if isinstance(d, dict):
        yield from d.values()
    for k in type(o).__mro__:
        for s in getattr(k, "__slots__", ()) or ():
            if isinstance(s, str) and not s.startswith("__"):
                v = getattr(o, s, None)
                if v is not None:
                    yield v


def count(loop, *roots):
    """-> {type name: number reachable} for types of the package and asyncio futures."""
    n = collections.Counter()
    for o in _walk(loop, roots):
        m = type(o).__module__
        if isinstance(m, str) and m.startswith("zigpy_cc"):
            n[m + "." + type(o).__name__] += 1
        elif isinstance(o, asyncio.Future) and not isinstance(o, asyncio.Task):
            n["Future"] += 1
    return n


def size(loop, *roots):
    """Bytes and items in everything reachable."""
    n = 0
    for o in _walk(loop, roots, atoms=True):
        if isinstance(o, (str, bytes, bytearray, memoryview)):
            n += len(o)
        elif isinstance(o, (dict, list, tuple, set, frozenset, collections.deque)):
            n += 8 * len(o)
        n += 8
    return n


def _walk(loop, roots, atoms=False):
    todo = list(roots) + [h for h in loop._scheduled] + list(loop._ready)
    todo += [t for t in asyncio.all_tasks(loop) if t is not asyncio.current_task()]
    for name, m in list(sys.modules.items()):
        if name == "zigpy_cc" or name.startswith("zigpy_cc."):
            todo.extend(vars(m).values())
    seen, keep = set(), []
    while todo:
        o = todo.pop()
        if isinstance(o, ATOMS):
            if atoms and isinstance(o, (str, bytes, bytearray)) and id(o) not in seen:
                seen.add(id(o))
                keep.append(o)
                yield o
            continue
        if isinstance(o, SKIP) or id(o) in seen:
            continue
        m = type(o).__module__
        if isinstance(o, type):
            if not o.__module__.startswith("zigpy_cc"):
                continue
            seen.add(id(o))
            todo.extend(v for v in vars(o).values() if not isinstance(v, types.FunctionType))
            continue
        if isinstance(m, str) and (m == "lib" or m.startswith("lib.")) and not m.startswith("lib.rig"):
            continue                              # the harness's own records
        seen.add(id(o))
        keep.append(o)
        yield o
        try:
            todo.extend(_children(o))
        except Exception:
            pass
