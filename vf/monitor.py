"""Watching the calls which the main loop makes to its building blocks during a run.

Only calls under their present names are seen; when a building block has been renamed or its arguments
have changed, the events are missing and the checks which use them have nothing to judge."""
import contextlib
import inspect
import types

import numpy as np


def snap(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, (list, tuple)):
        return type(v)(snap(t) for t in v)
    if hasattr(v, '__dict__') and not isinstance(v, (type, types.FunctionType, types.ModuleType)) and not callable(v):
        return types.SimpleNamespace(**{k: snap(t) for k, t in vars(v).items() if not callable(t)})
    return v


class Event:
    def __init__(self, name, args, ncalls, extra):
        self.name, self.args, self.ncalls, self.extra = name, args, ncalls, extra
        self.out = None

    def __getattr__(self, k):
        try:
            return self.__dict__['args'][k]
        except KeyError:
            raise AttributeError(k)

    def has(self, *names):
        return all(k in self.args for k in names)


@contextlib.contextmanager
def watch(names, count=lambda: 0, extra=lambda: None):
    import sqpdfo.sqpdfo_main as main
    events, saved = [], {}
    for name in names:
        f = getattr(main, name, None)
        if f is None:
            continue
        try:
            sig = inspect.signature(f)
        except (TypeError, ValueError):
            continue

        def wrapped(*a, _f=f, _sig=sig, _name=name, **k):
            try:
                b = _sig.bind(*a, **k)
                ev = Event(_name.rstrip('_'), {p.rstrip('_'): snap(v) for p, v in b.arguments.items() if p not in ('func', 'simul', 'args', 'kwargs')}, count(), extra())
            except TypeError:
                ev = None
            out = _f(*a, **k)
            if ev is not None:
                ev.out = snap(out)
                events.append(ev)
            return out
        saved[name] = f
        setattr(main, name, wrapped)
    try:
        yield events
    finally:
        for name, f in saved.items():
            setattr(main, name, f)
