"""A client installing and invoking the pandas filters."""
from pandalone.xleash import _pandas_filters
from pandalone.xleash._lasso import Lasso
import oracle


def names():
    d = {}
    _pandas_filters.install_filters(d)
    return d


def filt(name, values, args, kwds):
    d = {}
    _pandas_filters.install_filters(d)
    return d[name]["func"](oracle.ranger, Lasso(xl_ref=oracle.xlref, values=values, opts=oracle.opts), *args, **kwds)
