"""comparison of sampler states"""
import array
from collections import deque
import types
import numpy as np
from cpnest.parameter import LivePoint

INF = float('inf')
SKIP = {'model', 'manager', 'logLmin', 'logLmax', 'logger', 'producer_pipe', 'thread_id', 'last_checkpoint_time'}


def canon(x, depth=0, seen=()):
    """a comparable picture of a value; None of the run-bound parts"""
    if isinstance(x, LivePoint):
        return ('LP', tuple(x.names), tuple(repr(float(v)) for v in x.values), repr(float(x.logL)), repr(float(x.logP)))
    if isinstance(x, (bool, np.bool_)):
        return ('b', bool(x))
    if isinstance(x, (int, np.integer)):
        return ('n', repr(float(x)))
    if isinstance(x, (float, np.floating)):
        return ('n', repr(float(x)))
    if isinstance(x, (str, bytes, type(None))):
        return x
    if id(x) in seen or depth > 7:
        return '...'
    seen = seen + (id(x),)
    if isinstance(x, deque):
        return ('deque', x.maxlen, tuple(canon(v, depth + 1, seen) for v in x))
    if isinstance(x, np.ndarray) or isinstance(x, array.array):
        if isinstance(x, np.ndarray) and x.dtype.names:
            return ('rec', x.dtype.names, tuple(canon(x[n], depth + 1, seen) for n in x.dtype.names))
        if getattr(x, 'dtype', None) == object:
            return ('seq', tuple(canon(v, depth + 1, seen) for v in x))
        return ('arr', np.shape(x), tuple(repr(float(v)) for v in np.ravel(x)))
    if isinstance(x, (list, tuple)):
        return ('seq', type(x).__name__, tuple(canon(v, depth + 1, seen) for v in x))
    if isinstance(x, dict):
        return ('dict', tuple(sorted((str(k), canon(v, depth + 1, seen)) for k, v in x.items())))
    if isinstance(x, (types.FunctionType, types.BuiltinFunctionType, types.MethodType, type, types.ModuleType)):
        return ('fn', getattr(x, '__name__', ''))
    d = getattr(x, '__dict__', None)
    if d is None:
        return ('obj', type(x).__name__)
    return ('obj', type(x).__name__, tuple(sorted((k, canon(v, depth + 1, seen)) for k, v in d.items() if k not in SKIP)))


def state(o, skip=()):
    return {k: canon(v) for k, v in o.__dict__.items() if k not in SKIP and k not in skip}


def differ(a, b):
    """attributes of a that b lacks or holds with another value"""
    return sorted(k for k in a if k not in b or a[k] != b[k])
