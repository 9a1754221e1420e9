"""Parts of the standard library written in python, as the analysed programs see them."""


class ExitStack(object):
    """contextlib.ExitStack"""

    def __init__(self):
        self._exits = []

    def __enter__(self):
        return self

    def enter_context(self, cm):
        res = cm.__enter__()
        self._exits.append(cm.__exit__)
        return res

    def push(self, exit):
        self._exits.append(exit.__exit__ if hasattr(exit, "__exit__") else exit)
        return exit

    def callback(self, callback, *args, **kwds):
        def call(exc_type, exc, tb):
            callback(*args, **kwds)
            return False

        self._exits.append(call)
        return callback

    def pop_all(self):
        other = type(self)()
        other._exits = self._exits
        self._exits = []
        return other

    def close(self):
        self.__exit__(None, None, None)

    def __exit__(self, exc_type, exc, tb):
        pending = exc
        while self._exits:
            leave = self._exits.pop()
            try:
                if leave(None if pending is None else type(pending), pending, tb):
                    pending = None
            except BaseException as ex:
                pending = ex
        if pending is not None and pending is not exc:
            raise pending
        return exc is not None and pending is None


class AbstractContextManager(object):
    """contextlib.AbstractContextManager"""

    def __enter__(self):
        return self

    def __exit__(self, exc_type, exc, tb):
        return None
