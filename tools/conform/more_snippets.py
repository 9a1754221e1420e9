import collections, functools, itertools, re, os, os.path as osp, io, sys, copy, string, math, types, enum, abc, contextlib, textwrap, json, logging, warnings, operator
from collections import OrderedDict, namedtuple, defaultdict, ChainMap, Counter, deque
from contextlib import contextmanager
from functools import partial, reduce, wraps, lru_cache
log = logging.getLogger(__name__)
P = namedtuple("P", "x y")
P3 = namedtuple("P3", ["a", "b", "c"])
class Q(namedtuple("Q", "u v")):
    __slots__ = ()
    def __new__(cls, u, v=9):
        return super(Q, cls).__new__(cls, u, v)
    @property
    def s(self): return self.u + self.v
    def flip(self): return self._replace(u=self.v, v=self.u)
class A:
    z = 5
    def __init__(self, x=0, **kw):
        self.x = x
        self.__dict__.update(kw)
    def __eq__(self, o): return isinstance(o, A) and self.x == o.x
    def __hash__(self): return hash(self.x)
    def __len__(self): return 2
    def __getitem__(self, i):
        if i > 2: raise IndexError(i)
        return i * 10
    def __contains__(self, i): return i == 7
    def __iter__(self): return iter([1, 2])
    def __bool__(self): return self.x != 0
    def __call__(self, *a, **k): return (a, sorted(k.items()))
    def __str__(self): return "A<%s>" % self.x
    def __lt__(self, o): return self.x < o.x
class B(A):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.b = "b"
    def __str__(self): return "B" + super().__str__()
    @classmethod
    def make(cls, v): return cls(v)
    @staticmethod
    def st(v): return v * 2
class D(dict):
    def __missing__(self, k): return "miss-" + k
    def __setitem__(self, k, v):
        super().__setitem__(k.lower(), v)
class L(list):
    def add(self, x):
        self.append(x); return self
class S(str):
    def __new__(cls, v, extra=None):
        o = str.__new__(cls, v); o.extra = extra; return o
    def up(self): return S(self.upper(), self.extra)
class E1(Exception):
    def __init__(self, a, b): super().__init__(a); self.b = b
class E2(ValueError):
    pass
class Desc:
    def __get__(self, o, t=None): return "got" if o is not None else "cls"
    def __set__(self, o, v): o.__dict__["d"] = v
class G:
    def __getattr__(self, n):
        if n.startswith("q"): return n * 2
        raise AttributeError(n)
    def __setattr__(self, n, v): object.__setattr__(self, n, (n, v))
    def __delattr__(self, n): self.__dict__["del_" + n] = 1
class Color(enum.Enum):
    RED = 1
    BLUE = 2
def s_nt():
    p = P(1, y=2); q = Q(3); x, y = p
    return p.x, p[1], tuple(p), p._asdict(), p._replace(x=9), P._fields, p == (1, 2), P(*[1, 2]) == p, q.s, tuple(q.flip()), len(p), list(p), x, y, isinstance(p, tuple), p + (3,), p._fields, P._make([4, 5]).y, max(P(1, 2), P(0, 9)).x, hash(p) == hash((1, 2)), 2 in p, p.index(2), sorted([P(2, 1), P(1, 2)])[0].x, q.v, Q(u=1, v=2).v, isinstance(q, Q), type(q).__name__, p != (1, 3), "%s-%s" % p, p[::-1], P(1, 2) < P(1, 3)
def s_obj():
    a = A(3, k=4); b = B.make(7)
    return a.x, a.k, a.z, A.z, len(a), a[1], 7 in a, 8 in a, list(a), bool(A()), a(1, k=2), str(a), "%s" % a, "{}".format(a), f"{a}", str(b), b.b, B.st(3), b.st(4), isinstance(b, A), issubclass(B, A), a == A(3), a != A(4), a in [A(3)], sorted([A(3), A(1)])[0].x, min(A(3), A(1)).x, {A(1): 2}[A(1)], vars(b)["b"], getattr(a, "nope", None), hasattr(a, "k"), type(b).__name__, b.__class__.__name__, B.__mro__[1].__name__, B.__bases__[0].__name__, a.__dict__, [i for i in a], not a, a and 1
def s_dictsub():
    d = D(); d["AB"] = 1; d["c"] = 2
    return dict(d), d["zz"], "ab" in d, len(d), list(d), d.get("nope"), isinstance(d, dict), sorted(d.items()), bool(D())
def s_listsub():
    l = L([1]); l.add(2).add(3)
    return list(l), len(l), l[0], isinstance(l, list), l == [1, 2, 3], l[-1], 2 in l, [x * 2 for x in l], sum(l)
def s_strsub():
    s = S("ab", 4); t = s.up()
    return s == "ab", s + "c", t.extra, str(t), isinstance(s, str), len(s), s[0], "a" in s, {s: 1}["ab"], s.upper(), "%s" % s, type(t).__name__, s.extra, "-".join([s, t]), s.startswith("a"), s * 2, hash(s) == hash("ab"), s in ["ab"], f"{s}!", sorted([S("b"), S("a")])[0]
def s_exc():
    out = []
    try: raise E1("m", 2)
    except E1 as ex: out += [str(ex), ex.b, ex.args]
    try: raise E2("q")
    except (KeyError, ValueError) as ex: out += [type(ex).__name__, isinstance(ex, E2)]
    try:
        try: raise KeyError("a")
        finally: out.append("fin")
    except Exception as ex: out.append(str(ex))
    else: out.append("no")
    try: pass
    except Exception: pass
    else: out.append("else")
    def f():
        for i in range(3):
            try:
                if i == 1: continue
                if i == 2: return "r%d" % i
            finally: out.append(i)
    out.append(f())
    def g():
        try: return 1
        finally: out.append("g")
    out.append(g())
    def h():
        while True:
            try: break
            finally: out.append("h")
        return "after"
    out.append(h())
    try:
        raise ValueError from KeyError("c")
    except ValueError as ex:
        out.append(type(ex.__cause__).__name__)
    try:
        try: 1 / 0
        except ZeroDivisionError as e: raise RuntimeError("x") from e
    except RuntimeError as ex: out.append(isinstance(ex.__cause__, ZeroDivisionError))
    try:
        raise Exception("a", "b")
    except Exception as ex: out.append(ex.args)
    return out
def s_nested():
    def outer(n):
        acc = []
        def inner(k):
            nonlocal n
            n += k; acc.append(n)
            return inner if k else acc
        return inner
    cnt = 0
    def bump():
        nonlocal cnt
        cnt += 1
        return cnt
    fs = [lambda i=i: i * 2 for i in range(3)]
    gs = [lambda: i for i in range(3)]
    return outer(1)(2)(3)(0), [bump(), bump()], [f() for f in fs], [g() for g in gs], (lambda *a, **k: (a, k))(1, *[2], b=3, **{"c": 4}), (lambda x, /, y=2, *, z=3: (x, y, z))(1, z=5)
def s_args():
    def f(a, b=2, *args, c, d=4, **kw): return a, b, args, c, d, kw
    out = [f(1, c=3), f(1, 2, 3, 4, c=5, e=6), f(*(1, 2), **{"c": 1})]
    for bad in (lambda: f(), lambda: f(1), lambda: f(1, c=1, a=2)):
        try: out.append(bad())
        except TypeError: out.append("TE")
    return out
def s_comp():
    return [x for x in range(5) if x % 2 if x > 1], [(i, j) for i in range(2) for j in range(i, 2)], {k: v for k, v in zip("ab", (1, 2))}, {len(x) for x in ("a", "bb", "c")}, list(x * y for x in (1, 2) for y in (3, 4) if x != y), [[y for y in range(x)] for x in range(3)], [a if a else None for a in (0, 1)], dict((v, k) for k, v in {"q": 1}.items()), any(x > 2 for x in (1, 3)), all([]), sum(1 for _ in "abc"), next((x for x in (1, 2, 3) if x > 1), None), next((x for x in () if x), "dflt"), [*range(3), *"ab"], {**{"a": 1}, "b": 2, **{"a": 3}}, (*[1], 2), max((len(s), s) for s in ("a", "bbb", "cc"))[1], [y := 5, y ** 2]
def s_str1():
    s = "Hello, World"
    return s.partition(", "), s.rpartition("o"), s.split(), s.split(",", 1), "a,b,,c".split(","), " x ".strip(), "xxaxx".strip("x"), "a-b_c".replace("-", "_"), s.find("o"), s.rfind("o"), s.find("zz"), s.count("l"), s.lower().title(), "abc".center(7, "*"), "7".zfill(3), "a\tb".expandtabs(4), "a\nb\r\nc".splitlines(), "aXbX".rstrip("X"), "ab".join(["1", "2", "3"]), "abc"[::-1], "abc"[-2:], "abc"[1], "b" in "abc", "abc" < "abd", "a" * 3, "abc".index("c"), "AbC".swapcase(), "abc".isalpha(), "12".isdigit(), "".isdigit(), "a1".isalnum(), "ab cd".capitalize(), "x".ljust(3) + "|", "%5.2f|%-4s|%03d|%x" % (3.14159, "a", 7, 255), "{0}{1}{0}".format("a", "b"), "{a}-{b!r}".format(a=1, b="q"), "{:>6}|{:<4}|{:^5}".format("r", "l", "c"), "{:,}".format(1234567), "%s" % (1,), "%r" % "q", "%%", "a%sb" % "X", "abc".translate({97: "z", 98: None}), "abc".translate(str.maketrans("ab", "xy")), s.startswith(("He", "x")), s.endswith("World"), "abcabc".rsplit("b", 1), "ß".casefold(), "a.b.c".rsplit(".", 1), "abc".removeprefix("a"), "abc".removesuffix("bc"), "é".encode("utf-8").decode("utf-8"), ord("a"), chr(98), "a" "b", r"\d", "tab\t".strip(), "1,2;3".translate({44: 32, 59: 32}).split()
def s_list1():
    l = [3, 1, 2]; m = l; n = l[:]; o = list(l); l.sort(); p = sorted(n, reverse=True); n.insert(1, 9); del n[0]; o[1:2] = [7, 8]; o += [4]; q = [1, 2] * 2; q.remove(2); r = l.pop(0); s = [0] * 3; s[1] = 5; t = [[0] * 2 for _ in range(2)]; t[0][1] = 1; u = [1, 2, 3, 4, 5]; del u[1:3]; v = list("abc"); v.reverse(); w = [1, 2, 3]; w[-1] = 9; x = [1, [2, 3]]; y = copy.copy(x); z = copy.deepcopy(x); x[1].append(4); a1 = [1, 2, 3][1:][0]; b1 = u[::2]; c1 = list(reversed([1, 2])); d1 = sorted(["bb", "a"], key=len); e1 = [5, 3].index(3); f1 = [1, 1, 2].count(1); g1 = [3, 4]; g1.extend(x for x in (5, 6)); h1 = g1.copy(); h1.clear(); i1 = [(1, "b"), (1, "a")]; i1.sort(key=lambda t: t[1])
    return l, m, n, o, p, q, r, s, t, u, v, w, y, z, a1, b1, c1, d1, e1, f1, g1, h1, i1, m is l, [1, 2] == [1, 2], [] or [1], l and l[0], [1, 2] + [3], [1] in [[1], 2], min([3, 1]), max([1, 3], key=lambda x: -x), sum([1, 2], 10), list(zip([1, 2], "ab")), list(enumerate("ab", 1)), any([0, ""]), all([1, "a"]), len([1, 2]), sorted({"b": 1, "a": 2}), list({"a": 1}.items()), [x for x in reversed(range(3))], sorted([(1, 2), (1, 1)]), sorted("bca"), list(map(lambda a, b: a + b, [1, 2], [3, 4])), list(filter(None, [0, 1, "", "a"])), tuple([1, 2]), [i for i, x in enumerate([5, 6, 5]) if x == 5], list(range(2, 10, 3)), list(range(3, 0, -1)), sum(range(5)), divmod(7, 2), round(2.567, 2), abs(-3), pow(2, 5, 7), int("12"), int(3.9), float("2.5"), str(1.0), bool([]), list(dict.fromkeys([1, 2, 1])), set([1, 1]) == {1}
def s_dict1():
    d = {"a": 1, "b": {"c": 2}}; e = dict(d); e["a"] = 9; f = copy.deepcopy(d); f["b"]["c"] = 5; g = {**d, "z": 0}; h = d.setdefault("n", []); h.append(1); i = d.pop("b"); j = d.pop("zz", "no"); k = dict(x=1, y=2); k.update({"x": 5}, w=3); l = dict([("p", 1)]); m = {v: kk for kk, v in k.items()}; n = dict(zip("ab", (1, 2))); del k["y"]; o = {}; o["q"] = o.get("q", 0) + 1; o["q"] += 2; p = defaultdict(int); p["a"] += 3; r = OrderedDict(); r["z"] = 1; r["a"] = 2; u = ChainMap({"a": 1}, {"a": 2, "b": 3}); w = {1: "i", "1": "s", (1, 2): "t", None: "n"}
    return d, e, f, g, i, j, k, l, m, n, o, dict(p), list(r), u["a"], u["b"], dict(u), w[1], w["1"], w[(1, 2)], w[None], list(d.keys()), list(d.values()), "a" in d, d.get("q"), d.get("q", 3), len(d), sorted(d), bool({}), {"a": 1} == {"a": 1}, {"a": 1, "b": 2} == {"b": 2, "a": 1}, list({"b": 1, "a": 2}), max({"a": 1, "b": 5}.items(), key=lambda kv: kv[1])[0], d.keys() == {"a", "n"}, d.keys() & {"a"}, {k: v for k, v in d.items() if v == 1}, any(v == 1 for v in d.values()), [k for k in d if k != "a"], next(iter(d)), isinstance(p, dict), {True: "t"}[1], d == dict(d)
def s_getset():
    g = G(); g.a = 1; g.b = 2; del g.b
    class W: d = Desc()
    w = W()
    return g.a, g.qq, hasattr(g, "zz"), getattr(g, "zz", "dd"), g.__dict__, w.d, W.d
def s_setattrs():
    a = A(1)
    for k, v in (("p", 1), ("q", 2)): setattr(a, k, v)
    b = copy.copy(a); b.p = 9
    return a.p, getattr(a, "q"), sorted(vars(a)), b.q, a.p, a.__dict__ is vars(a)
def s_super():
    class X:
        def f(self): return ["X"]
    class Y(X):
        def f(self): return ["Y"] + super().f()
    class Z(X):
        def f(self): return ["Z"] + super().f()
    class W(Y, Z):
        def f(self): return ["W"] + super().f()
    return W().f(), [c.__name__ for c in W.__mro__][:4], isinstance(W(), Z)
def s_props():
    class X:
        def __init__(self): self._v = 1
        @property
        def v(self): return self._v
        @v.setter
        def v(self, n):
            if n < 0: raise ValueError("neg")
            self._v = n
        @v.deleter
        def v(self): self._v = None
    x = X(); x.v = 5; out = [x.v]
    try: x.v = -1
    except ValueError as ex: out.append(str(ex))
    del x.v
    out.append(x.v)
    return out
def s_while():
    out = []; i = 0
    while i < 10:
        i += 1
        if i == 3: continue
        if i > 5: break
        out.append(i)
    else: out.append("never")
    for x in (1, 2):
        if x == 5: break
    else: out.append("else")
    n, k = 27, 0
    while n != 1 and k < 20:
        n = n // 2 if n % 2 == 0 else 3 * n + 1; k += 1
    for i, c in enumerate("ab"):
        for j in range(2):
            if j: break
            out.append((i, c, j))
    while True:
        if len(out) > 9: break
        out.append(len(out))
    return out, n, k
def s_global():
    return [type(x).__name__ for x in (1, "a", [], (), {}, set(), None, 1.5, True, A(), b"a")], isinstance(1, (int, str)), isinstance(True, int), type(1) is int, type("a") == str, isinstance([], collections.abc.Sequence), isinstance({}, collections.abc.Mapping), isinstance("a", collections.abc.Iterable), isinstance(5, collections.abc.Iterable), callable(len), callable(5), callable(A), issubclass(bool, int), isinstance(A, type), isinstance((), collections.abc.Hashable), isinstance([], collections.abc.Hashable), isinstance(None, type(None)), isinstance(1.0, float)
def s_enum():
    return Color.RED.value, Color(2).name, Color.RED is Color.RED, [c.name for c in Color], Color["BLUE"].value
def s_unp():
    a, (b, *c), d = 1, [2, 3, 4], 5
    *e, f = "xyz"
    g, = [7]
    (h, i), [j] = (1, 2), [3]
    k = l = [0]
    l.append(1)
    m, n = n1, m1 = 1, 2
    x = [0, 1]; i2 = 0
    i2, x[i2] = 1, 5
    d1 = {}; d1["a"], d1["b"] = 1, 2
    return a, b, c, d, e, f, g, h, i, j, k, m, n, n1, m1, x, d1
def s_num():
    return 7 // 2, -7 // 2, 7 % 3, -7 % 3, 2 ** 10, 1 / 4, 5 & 3, 5 | 3, 5 ^ 3, ~5, 1 << 3, 1 < 2 < 3, 1 < 3 < 2, 0.1 + 0.2 > 0.3, int(-3.7), round(2.5), math.floor(-1.5), math.ceil(1.2), 10 ** -1, 3 == 3.0, float("inf") > 1, float("nan") == float("nan"), bool(0.0), 5 .bit_length(), (3).__add__(4), 1_000, 0x1f, 1e3, True + True, sum([True, False, True]), min(3, 1, 2), max([1, 5], default=0), max([], default=7), int("0x1f", 16), int("11", 2), float("  3 "), str(10 ** 20), divmod(-7, 2), abs(-2.5), hex(255), bin(5), oct(8)
def s_cm():
    out = []
    @contextmanager
    def cm(n):
        out.append("in%s" % n)
        try: yield n
        except KeyError as ex: out.append("caught")
        finally: out.append("out%s" % n)
    with cm(1) as a, cm(2) as b: out.append(a + b)
    with cm(3): raise KeyError("k")
    def f():
        with cm(4):
            return "ret"
    out.append(f())
    try:
        with cm(5): raise ValueError("v")
    except ValueError as ex: out.append(str(ex))
    for i in range(3):
        with cm("L"):
            if i == 1: break
    with contextlib.suppress(ZeroDivisionError): 1 / 0
    with contextlib.ExitStack() as st: out.append("es")
    return out
def s_deco():
    calls = []
    def dec(f):
        @wraps(f)
        def w(*a, **k):
            calls.append((a, k)); return f(*a, **k)
        return w
    def decarg(n):
        def d(f):
            def w(*a): return f(*a) * n
            return w
        return d
    @dec
    def f(x, y=1): return x + y
    @decarg(3)
    @dec
    def g(x): return x
    return f(1), f(1, y=5), g(2), calls
def s_partial():
    p = partial(int, base=2); q = partial(max, 5)
    add = lambda a, b, c: (a, b, c)
    return p("101"), q(3, 9), partial(add, 1, c=3)(2), reduce(lambda a, b: a * b, [1, 2, 3], 10), list(map(partial(pow, 2), [1, 2])), functools.cmp_to_key(lambda a, b: b - a) is not None, sorted([1, 3, 2], key=functools.cmp_to_key(lambda a, b: b - a))
def s_gen2():
    def g():
        x = 0
        while True:
            x += 1
            yield x
    it = g(); a = next(it); b = next(it)
    def chunks(l, n):
        for i in range(0, len(l), n): yield l[i:i + n]
    def flat(x):
        for e in x:
            if isinstance(e, list): yield from flat(e)
            else: yield e
    def fib(n):
        a, b = 0, 1
        for _ in range(n):
            yield a
            a, b = b, a + b
    def early():
        yield 1
        return
        yield 2
    def withfin(out):
        try: yield 1
        finally: out.append("f")
    o = []; list(withfin(o))
    z = zip(fib(3), "abc")
    e = (x for x in [1, 2, 3]); e1 = next(e); e2 = next(e); e3 = list(e)
    gi = iter(fib(5)); g0 = next(gi); g1 = [x for x in gi]
    return a, b, list(chunks([1, 2, 3, 4, 5], 2)), list(flat([1, [2, [3]], 4])), list(fib(6)), list(early()), o, list(z), e1, e2, e3, list(itertools.islice(g(), 3)), sum(fib(5)), dict(enumerate(fib(3))), max(fib(5)), 3 in fib(5), sorted(fib(4), reverse=True), list(itertools.takewhile(lambda x: x < 4, g())), tuple(fib(3)), ",".join(str(i) for i in fib(3)), [*fib(3)], set(fib(4)) == {0, 1, 2}, g0, g1
def s_slots():
    x = slice(1, 3); l = [0, 1, 2, 3, 4]
    return l[x], l[slice(None, None, 2)], l[-3:-1], l[10:], l[:0], l[::-2], "abcdef"[1:5:2], (1, 2, 3)[-1:], l[len(l) - 1], x.start, x.indices(10)
def s_sets2():
    a = {1, 2, 3}; b = frozenset([2, 3, 4]); c = set(); c.add(1); c.update([2], (3,)); c.discard(9); c -= {1}
    return sorted(a & b), sorted(a | b), sorted(a ^ b), a <= {1, 2, 3, 4}, a.isdisjoint({9}), sorted(c), len(a), 2 in b, {1} == frozenset([1]), sorted(set("aab")), sorted(x for x in a if x > 1), set([1]) < a, a.issuperset([1]), bool(set()), min(a), sum(a), {frozenset([1]): 2}[frozenset([1])], sorted({1, 2}.union([3], [4])), sorted(set([3, 1]).difference([1])), {(1, 2)} == {(1, 2)}, a == {3, 2, 1}, a != {1}
def s_walrus():
    out = []
    if (n := len("abc")) > 2: out.append(n)
    while (m := len(out)) < 3: out.append(m)
    return out, [y for x in (1, 2, 3) if (y := x * 2) > 2], n
def s_ternary():
    def f(x): return "neg" if x < 0 else "zero" if x == 0 else "pos"
    a = None; b = a or "d"; c = 0 or None or "x"; d = a and a.b; e = (a is None) or a.b
    return [f(x) for x in (-1, 0, 1)], b, c, d, e, not a, a is not None, (1 and 2), (0 or [] or {}), 1 if a else 2, None or False, "" and 1
def s_inherit_exc():
    class Base(Exception): pass
    class Sub(Base):
        code = 4
        def __str__(self): return "sub:%s" % (self.args,)
    try: raise Sub(1, 2)
    except Base as ex: return str(ex), ex.code, ex.args, isinstance(ex, Sub), type(ex).__name__, repr(ex)
def s_io():
    f = io.StringIO(); f.write("a\n"); f.write("b"); print("c", 1, sep="-", file=f)
    g = io.StringIO("l1\nl2\n")
    return f.getvalue(), [l.strip() for l in g], g.read()
def s_json():
    return json.loads('{"a": [1, null, true, "x"], "b": {"c": 1.5}}'), json.loads(json.dumps({"a": [1, 2]})), json.dumps([1, {"a": None}])
def s_varscope():
    x = 1
    def f():
        return x
    x = 2
    def g(x=x): return x
    x = 3
    class C:
        y = x
        l = [y for _ in range(1)] if False else [y]
    return f(), g(), C.y, C.l
def s_chained():
    a = [1, 2]; b = {"k": a}
    b["k"][0] += 5
    b["k"] += [3]
    c = [b] * 2; c[0]["n"] = 1
    d = [[]] * 2; d[0].append(1)
    e = ([],); e[0].append(5)
    return a, b, c[1] is b, d, e
def s_sortstable():
    d = [("b", 2), ("a", 2), ("c", 1)]
    return sorted(d, key=lambda t: t[1]), sorted(d, key=operator.itemgetter(1, 0)), sorted(d, key=lambda t: (-t[1], t[0])), sorted([3, 1, 2], key=lambda x: -x), sorted(["B", "a"], key=str.lower), sorted([True, False]), sorted([[2], [1]]), sorted(d, reverse=True)[0]
def s_types():
    m = types.SimpleNamespace(a=1, b=2); mp = types.MappingProxyType({"a": 1})
    return m.a, sorted(vars(m)), mp["a"], "a" in mp, len(mp)
def s_dyn():
    C = type("C", (A,), {"w": 3, "h": lambda self: self.w + 1})
    return C().h(), C.__name__, isinstance(C(), A), C(5).x
def s_warn():
    warnings.warn("x"); log.warning("a %s", 1); log.debug("q")
    return 1
def s_path():
    return osp.join("a", "b", "c.txt"), osp.splitext("a/b.tar.gz"), osp.basename("a/b/"), osp.dirname("/a/b"), osp.normpath("a//b/../c"), osp.split("/a/b"), osp.isabs("/a"), osp.join("a", "/b"), osp.join("a", ""), os.sep, osp.relpath("/a/b", "/a"), osp.commonprefix(["abc", "abd"])
def s_re2():
    rx = re.compile(r"(?P<k>\w+)=(?P<v>\d+)?", re.I)
    m = rx.match("Ab=12"); n = rx.match("Ab="); 
    return m.group("k"), m["v"], n.group("v"), m.groups(), n.groups("d"), m.groupdict(), m.start("v"), [x.group() for x in rx.finditer("a=1 b=2")], rx.sub(lambda m: m.group(1).upper(), "a=1,b=2"), rx.sub(r"\g<k>", "a=1"), rx.search("zz") is None, bool(rx.fullmatch("a=1")), re.split(r"\s*,\s*", "a , b,c"), re.findall(r"(\w)(\d)", "a1b2"), re.escape("a.b"), re.match("a", "b"), re.sub("x", "y", "xx", count=1), rx.pattern, re.search("b+", "abbc").span(), m.lastgroup, re.compile("a|b").findall("cab"), m.string, re.fullmatch("[a-c]+", "abc") is not None, re.sub(r"(?i)A", "z", "aA"), m.expand(r"\1!"), re.subn("a", "b", "aa")
