"""JSON with symbolic numbers: kept as the data that the text would be parsed back to."""

import orjson as _o

from engine.shims.nparr import has_sym
from engine.sym import is_sym

__name__ = "orjson"


class _Text:
    def __init__(self, data):
        self.data = data

    def decode(self, *a):
        return self.data


def _any(x):
    if isinstance(x, dict):
        return any(_any(v) for v in x.values())
    if isinstance(x, (list, tuple)):
        return any(_any(v) for v in x)
    return is_sym(x)


def _walk(x, default):
    if is_sym(x):
        return x
    if isinstance(x, dict):
        return {(k if isinstance(k, str) else str(k)): _walk(v, default) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_walk(v, default) for v in x]
    if x is None or isinstance(x, (bool, str)) or type(x) in (int,):
        return x.value if hasattr(x, "value") and isinstance(x, str) else x
    if type(x) is float:
        return x if x == x and abs(x) != float("inf") else None
    if default is not None:
        return _walk(default(x), default)
    raise TypeError(type(x))


def dumps(obj, default=None, option=None):
    if not _any(obj):
        return _o.dumps(obj, default=default, option=option)
    return _Text(_walk(obj, default))


class _Module:
    def __getattr__(self, name):
        return dumps if name == "dumps" else getattr(_o, name)


orjson = _Module()


def __getattr__(name):
    return getattr(_o, name)
