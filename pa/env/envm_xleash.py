"""Client programs around lassoing; `oracle` stands for what the environment decides."""
import oracle
from pandalone import xleash
from pandalone.xleash import Lasso, Ranger


def do_lasso(factory, base_opts, filters, xlref, kwds):
    r = Ranger(factory, base_opts, filters)
    oracle.ranger(r)
    try:
        return r.do_lasso(xlref, **kwds), None, r.intermediate_lasso
    except Exception as ex:
        return None, ex, r.intermediate_lasso


def do_again(factory, base_opts, filters, xlref1, kwds1, xlref2, kwds2):
    """One ranger for two lassoings, however the first ended."""
    r = Ranger(factory, base_opts, filters)
    try:
        r.do_lasso(xlref1, **kwds1)
    except Exception:
        pass
    oracle.ranger(r)
    try:
        return r.do_lasso(xlref2, **kwds2), None, r.intermediate_lasso
    except Exception as ex:
        return None, ex, r.intermediate_lasso


def spy(ranger, lasso, *args, **kwds):
    """A filter."""
    oracle.saw(ranger, lasso, args, kwds)
    return oracle.result(lasso)


def nodoc(ranger, lasso, *args, **kwds):
    oracle.saw(ranger, lasso, args, kwds)
    return oracle.result(lasso)


def mutator(ranger, lasso, *args, **kwds):
    """A filter changing the options it sees."""
    opts = lasso.opts
    read = opts.get("read")
    oracle.opts(opts.get("lax"), opts.get("keep"), read and read.get("on_demand"), opts.get("new"), opts.get("added"))
    opts["lax"] = oracle.changed
    opts["added"] = oracle.changed
    if read:
        read["on_demand"] = oracle.changed
    return lasso


def twice(factory, base_opts, filters, xlref1, xlref2):
    r = Ranger(factory, base_opts, filters)
    r.do_lasso(xlref1)
    r.do_lasso(xlref2)


def twice_default(factory, filters, xlref1, xlref2):
    xleash.lasso(xlref1, sheets_factory=factory, available_filters=filters)
    xleash.lasso(xlref2, sheets_factory=factory, available_filters=filters)


def twice_given(factory, base_opts, filters, xlref1, xlref2):
    xleash.lasso(xlref1, sheets_factory=factory, base_opts=base_opts, available_filters=filters)
    xleash.lasso(xlref2, sheets_factory=factory, base_opts=base_opts, available_filters=filters)


def make_call(factory, filters, opts, name, args, kwds):
    r = Ranger(factory, {}, filters)
    return r.make_call(Lasso(xl_ref=oracle.xlref, values=oracle.values, opts=opts), name, args, kwds)


def one_call(xlref, factory, ret):
    return xleash.lasso(xlref, sheets_factory=factory, return_lasso=ret)


def step_a(ranger, lasso, *args, **kwds):
    return oracle.step("a", lasso, args, kwds)


def step_b(ranger, lasso, *args, **kwds):
    return oracle.step("b", lasso, args, kwds)


def pipe(factory, filters, lasso_args, specs):
    fs = dict(xleash.installed_filters)
    fs.update(filters)
    r = Ranger(factory, {}, fs)
    return r.make_call(Lasso(xl_ref=oracle.xlref, values=oracle.values, opts={}), "pipe", specs, {})


def filt(factory, filters, lasso_kwds, name, args, kwds, opts=None):
    """Invoke a filter as the ranger does."""
    fs = dict(xleash.installed_filters)
    fs.update(filters)
    r = Ranger(factory, {} if opts is None else opts, fs)
    return fs[name]["func"](r, Lasso(**lasso_kwds), *args, **kwds)


def element(ranger, lasso, context, elval, *args, **kwds):
    return oracle.element(elval, context, args, kwds, lasso)


def elementwise(factory, filters, lasso_kwds, specs, kwds):
    from pandalone.xleash import _filter
    r = Ranger(factory, {}, filters)
    return _filter.run_filter_elementwise(r, Lasso(**lasso_kwds), element, specs, **kwds)


def filt_call(factory, filters, lasso_kwds, name, args, kwds):
    """Invoke a filter by name, through the ranger."""
    fs = dict(xleash.installed_filters)
    fs.update(filters)
    r = Ranger(factory, {}, fs)
    return r.make_call(Lasso(**lasso_kwds), name, args, kwds)
