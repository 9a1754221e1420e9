"""Client programs around Pandel; `oracle` stands for what the environment decides."""
import oracle
import pandas
from pandalone.pandata import Pandel


class Maker(Pandel):
    def _get_json_schema(self, is_prevalidation):
        return oracle.schema(is_prevalidation)


class PlainMaker(Pandel):
    def _get_json_schema(self, is_prevalidation):
        return {}

    def _get_model_validator(self, schema):
        return oracle.validator(schema)


def make(funcs, submodels):
    m = Maker(curate_funcs=funcs)
    for s in submodels:
        m.add_submodel(s)
    return m


def make_plain(submodels):
    m = PlainMaker()
    for s in submodels:
        m.add_submodel(s)
    return m


def build_iter(m):
    return list(m.build_iter())


def build(m):
    return m.build()


def model(m):
    return m.model


def cause(err):
    return err.cause


def errors(errs, ex):
    for e in errs:
        yield e
    if ex is not None:
        raise ex


def listed(f, *args, **kwds):
    r = f(*args, **kwds)
    return [] if r is None else list(r)


class Ser(pandas.Series):
    """A pandas-series: an object of its labels, though iterating it gives values."""

    def __init__(self, names, values):
        self.names = names
        self.vals = values
        self.index = names

    def keys(self):
        return list(self.names)

    def items(self):
        return list(zip(self.names, self.vals))

    def tolist(self):
        return list(self.vals)

    def __iter__(self):
        return iter(self.vals)

    def __contains__(self, name):
        return name in self.names

    def __getitem__(self, name):
        for n, v in zip(self.names, self.vals):
            if n == name:
                return v
        raise KeyError(name)

    def __len__(self):
        return len(self.names)

    def __bool__(self):
        raise ValueError("The truth value of a Series is ambiguous.")


def series(names, values):
    return Ser(names, values)
