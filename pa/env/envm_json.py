"""Client programs around pointers and the JSON codec."""
from pandalone.pandata import JSONCodec, iter_jsonpointer_parts, iter_jsonpointer_parts_relaxed, Pandel
from envm_pandel import make


def encode(o):
    return JSONCodec.Encoder().encode(o)


def decode(s):
    return JSONCodec.Decoder().decode(s)


def strict(p):
    return list(iter_jsonpointer_parts(p))


def relaxed(p):
    return list(iter_jsonpointer_parts_relaxed(p))


def model_get(submodels, path, **kwds):
    m = make([], submodels)
    m.build()
    return m.get(path, **kwds)


class Picky(object):
    """An object refusing one key."""

    def __init__(self):
        self.kept = []

    def __setitem__(self, key, value):
        if key == "no":
            raise RuntimeError("refused")
        self.kept.append((key, value))

    def __getitem__(self, key):
        for k, v in self.kept:
            if k == key:
                return v
        raise KeyError(key)
