import itertools, functools, operator, collections, re, copy, contextlib, string, os.path as osp, json
from itertools import chain, islice, takewhile, dropwhile, groupby, accumulate, count, zip_longest, starmap, product, permutations, combinations
from collections import OrderedDict, defaultdict, namedtuple, Counter, deque, ChainMap

def s_walrus():
    out = []
    it = iter([1, 2, 3, None, 4])
    while (x := next(it)) is not None:
        out.append(x)
    return out
def s_match():
    def f(x):
        match x:
            case 0: return "zero"
            case [a, b]: return a + b
            case {"k": v}: return v
            case str(): return "s"
            case None: return "none"
            case _: return "other"
    return [f(0), f([1, 2]), f({"k": 5, "z": 1}), f("q"), f(None), f(3.5)]
def s_star():
    a, *b, c = [1, 2, 3, 4]
    (d, e), f = [(1, 2), 3]
    return a, b, c, d, e, f
def s_zipstar():
    return list(zip(*[(1, 2), (3, 4)])), dict(zip("ab", [1, 2])), list(map(list, zip([1, 2, 3], "xy")))
def s_chain():
    return list(chain([1], (2, 3))), list(chain.from_iterable([[1], [2, 3]])), list(islice(count(3), 2)), list(islice([1, 2, 3, 4], 1, 3))
def s_group():
    return [(k, list(g)) for k, g in groupby([1, 1, 2, 3, 3])], list(accumulate([1, 2, 3])), list(zip_longest([1, 2], [3]))
def s_dropw():
    return list(dropwhile(lambda x: x < 3, [1, 3, 2])), list(takewhile(lambda x: x < 3, [1, 3, 2])), list(starmap(pow, [(2, 3), (3, 2)]))
def s_combi():
    return list(combinations([1, 2, 3], 2)), list(permutations([1, 2], 2)), list(product("ab", [1, 2]))
def s_reduce():
    return functools.reduce(operator.add, [1, 2, 3]), functools.reduce(lambda a, b: a * 10 + b, [1, 2, 3], 9), functools.partial(max, 3)(2)
def s_sorted():
    return sorted([3, 1, 2], reverse=True), sorted(["bb", "a"], key=len), sorted({"b": 1, "a": 2}.items(), key=operator.itemgetter(1)), max([1, 5, 2]), min(3, 2), max("ab", "c", key=len), min([], default=7)
def s_dictops():
    d = {"a": 1, "b": 2}
    d |= {"c": 3}
    e = {**d, "a": 9}
    f = dict(d, z=1)
    g = d | {"a": 0}
    d.pop("a"); d.pop("zz", None)
    k = d.setdefault("q", []); k.append(1)
    return d, e, f, g, list(d), list(d.items()), "b" in d, len(d), dict.fromkeys("ab", 0), d.get("nope"), d.get("nope", 3), list(reversed(d))
def s_dictpop():
    d = {"a": 1, "b": 2}
    x = d.popitem(); y = d.copy(); d.clear(); del y["a"]
    return x, d, y, bool(d)
def s_dd():
    d = defaultdict(list)
    for k, v in [("a", 1), ("b", 2), ("a", 3)]:
        d[k].append(v)
    c = Counter("abca")
    return dict(d), c["a"], c["zz"], c.most_common(1), dict(c)
def s_deque():
    q = deque([1, 2, 3]); q.appendleft(0); q.append(4); x = q.popleft(); y = q.pop()
    return list(q), x, y, len(q)
def s_sets():
    a, b = {1, 2, 3}, {2, 3, 4}
    c = set(a); c -= {1}; d = set(a); d |= b; e = set(a); e &= b; f = set(a); f ^= b
    g = frozenset([1]) | {2}
    return sorted(a | b), sorted(a & b), sorted(a - b), sorted(a ^ b), sorted(c), sorted(d), sorted(e), sorted(f), sorted(g), a <= {1, 2, 3}, a < a, a.isdisjoint({9}), a >= {1}, sorted(a.union([7], [8])), sorted(set().union(*[[1], [2]])), sorted(a.difference([1], [2])), sorted(a.intersection([1, 2], [2]))
def s_setmut():
    a = {1, 2}; a.add(3); a.discard(9); a.remove(1); a.update([5], [6]); 
    try:
        a.remove(77)
    except KeyError as ex:
        r = ex.args
    return sorted(a), r
def s_list():
    l = [1, 2, 3, 4, 5]
    l.insert(1, 9); l.remove(3); x = l.pop(); y = l.pop(0); l.extend((7, 8)); l.reverse(); del l[0]; l[0] = "q"; l[1:2] = [5, 6]; l += [1]; l.sort(key=str)
    return l, x, y, l.index(5), l.count(1), l[::-1], l[-2:], l[:2], l * 2, [0] * 3, l[1:-1:2], l == list(l), [1, 2] < [1, 3]
def s_del():
    l = list(range(6)); del l[1:3]; l[::2] = [9, 9]
    return l
def s_str():
    s = "Hello, World"
    return s.lower(), s.upper(), s.split(", "), s.partition(","), s.rpartition("o"), s.replace("l", "L", 1), s.startswith(("He", "x")), s.endswith("ld"), s.find("o"), s.rfind("o"), s.find("zz"), s.index("W"), s.count("l"), s.strip("Hd"), s.title(), s.swapcase(), s[::-1], s[2:5], s[-1], "-".join("abc"), s.isalpha(), "12".isdigit(), s.center(16, "*"), s.ljust(14), "7".zfill(3), s.casefold(), s.splitlines(), "a b  c".split(), "a,b,c".split(",", 1), "a,b,c".rsplit(",", 1), s.removeprefix("He"), s.removesuffix("zz"), s.lstrip("H"), s.rstrip("d"), "ab" in s, "l" not in s, "a" < "b", "ab" * 2, s.expandtabs(), s.encode("utf-8"), b"ab".decode(), "A".isupper(), " ".isspace(), "a1".isalnum(), "ab".translate(str.maketrans("a", "z")), s.capitalize()
def s_fmt():
    x, n, f = "q", 5, 3.14159
    return f"{x}-{n:03d}-{f:.2f}-{x!r}", "{}-{}".format(x, n), "{1}{0}".format(x, n), "{a}".format(a=n), "%s-%d-%5.1f|%-5s|%r" % (x, n, f, x, x), "%(a)s" % {"a": 1}, "%s" % (x,), "%s%%" % n, f"{n!s:>4}", format(n, "04d"), str(f), repr(x), f"{x=}", "{:>5}".format(x), "{!r}".format(x), "%x" % 255, "%i" % 4
def s_num():
    return 7 // 2, -7 // 2, 7 % 3, -7 % 3, 2 ** 5, 7 / 2, divmod(7, 3), abs(-3), round(2.5), int("12"), int("-3"), int(3.9), float("1.5"), bool(""), bool("0"), 5 & 3, 5 | 3, 5 ^ 3, ~5, 1 << 3, 8 >> 1, 1 < 2 < 3, 1 < 2 > 3, sum([1, 2]), sum([[1], [2]], []), pow(2, 3), True + True, not 0, -(-3), +2, hex(255), bin(5), chr(65), ord("A"), int("ff", 16), 0 or "x", 1 and "y", None or 0, 3 if 0 else 4
def s_try():
    out = []
    def f(x):
        try:
            if x == 0: raise ValueError("v")
            if x == 1: return "ret"
            if x == 2: {}["k"]
            out.append("body")
        except (KeyError, IndexError) as ex:
            out.append(type(ex).__name__)
        except ValueError as ex:
            out.append(str(ex))
            return "exc"
        else:
            out.append("else")
        finally:
            out.append("fin")
        return "end"
    return [f(0), f(1), f(2), f(3)], out
def s_tryloop():
    out = []
    for i in range(4):
        try:
            if i == 1: continue
            if i == 3: break
            out.append(i)
        finally:
            out.append("f%d" % i)
    else:
        out.append("never")
    return out
def s_forelse():
    out = []
    for x in (1, 2, 3):
        if x > 5: break
    else:
        out.append("else")
    while out and len(out) < 3:
        out.append(len(out))
    else:
        out.append("welse")
    return out, x
def s_reraise():
    def f():
        try:
            raise KeyError("a")
        except KeyError as ex:
            raise ValueError("b") from ex
    try:
        f()
    except ValueError as ex:
        return str(ex), type(ex.__cause__).__name__, ex.args, isinstance(ex, Exception)
def s_finret():
    def f():
        try:
            return 1
        finally:
            return 2
    def g():
        for i in range(3):
            try:
                raise ValueError
            except ValueError:
                if i == 1:
                    return i
            finally:
                pass
    return f(), g()
def s_suppress():
    d = {}
    with contextlib.suppress(KeyError):
        d["a"]
        d["never"] = 1
    return d
def s_ctx():
    log = []
    @contextlib.contextmanager
    def cm(x):
        log.append("in")
        try:
            yield x + 1
        finally:
            log.append("out")
    with cm(1) as v:
        log.append(v)
    try:
        with cm(5):
            raise ValueError
    except ValueError:
        log.append("caught")
    return log
class CM:
    def __init__(self): self.log = []
    def __enter__(self): self.log.append("e"); return self
    def __exit__(self, t, v, tb): self.log.append(t.__name__ if t else None); return t is KeyError
def s_cls_cm():
    a = CM()
    with a as b:
        b.log.append(1)
        raise KeyError("z")
    with a: pass
    return a.log
def s_gen():
    def g(n):
        for i in range(n):
            x = yield i
        return "done"
    def h():
        r = yield from g(2)
        yield r
    def ev():
        yield from (i for i in range(3) if i % 2 == 0)
    return list(h()), list(ev()), next(g(1)), next(iter([]), "dflt"), list(x * 2 for x in [1, 2]), any(x > 1 for x in [1, 2]), all(x > 1 for x in [1, 2]), sum(x for x in [1, 2]), tuple(g(2)), "".join(str(i) for i in g(3))
def s_compr():
    return [x + y for x in (1, 2) for y in (10, 20) if x + y != 21], {x: x * x for x in range(3)}, sorted({x % 2 for x in range(5)}), [[y for y in range(x)] for x in range(3)], [(i, v) for i, v in enumerate("ab", 1)], [a if a else b for a, b in [(0, 1), (2, 3)]]
def s_closure():
    n = 0
    def inc(k=1):
        nonlocal n
        n += k
        return n
    fs = [lambda i=i: i for i in range(3)]
    gs = [lambda: i for i in range(3)]
    return inc(), inc(5), n, [f() for f in fs], [g() for g in gs]
def s_args():
    def f(a, b=2, *args, c, d=4, **kw):
        return a, b, args, c, d, kw
    def g(a, /, b, *, c=3):
        return a, b, c
    return f(1, c=3), f(1, 5, 6, 7, c=8, e=9), f(*[1, 2], **{"c": 1}), g(1, b=2), g(1, 2, c=5), (lambda *a, **k: (a, k))(1, x=2)
def s_argerr():
    def f(a, b=1): return a
    out = []
    for a, k in (((), {}), ((1, 2, 3), {}), ((1,), {"z": 1}), ((1,), {"a": 2})):
        try:
            out.append(f(*a, **k))
        except TypeError:
            out.append("TE")
    return out
class A:
    cnt = 0
    def __init__(self, x): self.x = x; A.cnt += 1
    def __eq__(self, o): return isinstance(o, A) and self.x == o.x
    def __hash__(self): return hash(self.x)
    def __len__(self): return self.x
    def __bool__(self): return self.x > 2
    def __getitem__(self, i): return self.x + i
    def __iter__(self): return iter(range(self.x))
    def __contains__(self, v): return v == "me"
    def __call__(self, y): return self.x * y
    def __add__(self, o): return A(self.x + o.x)
    def __repr__(self): return "A(%r)" % self.x
    @property
    def dbl(self): return self.x * 2
    @dbl.setter
    def dbl(self, v): self.x = v // 2
    @staticmethod
    def st(v): return v + 1
    @classmethod
    def mk(cls, v): return cls(v)
class B(A):
    def __init__(self, x, y=0): super().__init__(x); self.y = y
    def __repr__(self): return "B" + super().__repr__()
    def __getattr__(self, n):
        if n.startswith("dyn_"): return n[4:]
        raise AttributeError(n)
def s_class():
    a, b = A(1), B(3, 4)
    a.dbl = 10
    return a.x, a.dbl, b.x, b.y, a == A(5), a != A(5), len(b), bool(A(1)), bool(b), b[1], list(b), "me" in b, a(3), (a + b).x, repr(b), A.st(1), B.mk(2).x, isinstance(b, A), issubclass(B, A), type(b) is B, type(b).__name__, hasattr(b, "zzz"), b.dyn_q, getattr(b, "zz", 5), hasattr(b, "dyn_r"), A.mk(4).dbl, callable(a), a in [A(5)], {a: 1}[A(5)], vars(b)
def s_nt():
    P = namedtuple("P", "x y")
    p = P(1, y=2)
    q = p._replace(x=5)
    a, b = p
    return p.x, q.x, q.y, p._asdict() == {"x": 1, "y": 2}, P._fields, p[0], p == (1, 2), list(p), P._make([3, 4]).y, a + b, isinstance(p, tuple), len(p)
def s_setattr():
    class O: pass
    o = O(); setattr(o, "k", 1); o.z = 2; delattr(o, "z")
    return vars(o), getattr(o, "k"), o.__dict__ is vars(o), hasattr(o, "z"), o.__class__.__name__
def s_copy():
    a = [1, [2]]; b = copy.copy(a); c = copy.deepcopy(a); a[1].append(3); a.append(4)
    d = {"k": [1]}; e = dict(d); e["k"].append(2); f = a[:]
    return a, b, c, d, f is a, e is d
def s_alias():
    a = b = []; a.append(1); c = [[]] * 2; c[0].append(1)
    def f(x, acc=[]):
        acc.append(x); return list(acc)
    t = (1, [2]); t[1].append(3)
    return b, c, f(1), f(2), t
def s_aug():
    a = [1]; b = a; b += [2]; c = (1,); d = c; d += (2,); x = 5; x -= 2; x *= 3; x //= 2; s = "a"; s += "b"; dd = {"n": 1}; dd["n"] += 1
    return a, c, d, x, s, dd
def s_re():
    m = re.match(r"(\w+)-(?P<n>\d+)", "ab-12x")
    return m.group(1), m.group("n"), m.groups(), m.groupdict(), m.span(), re.sub(r"\d", "#", "a1b2"), re.findall(r"\d", "a1b2"), re.split(r"[,;]", "a,b;c"), re.fullmatch("a+", "aab"), bool(re.search("b", "abc")), re.escape("a.b"), re.sub("(a)(b)", r"\2\1", "abab"), re.compile("x", re.I).match("X") is not None, m[0], m.end(), re.sub("a", lambda m: m.group().upper(), "banana")
def s_glob():
    return [osp.join("a", "b"), osp.basename("/x/y.z"), osp.dirname("/x/y"), osp.splitext("a.b.c"), osp.normpath("a/../b//c"), osp.isabs("/x"), osp.split("/a/b"), osp.commonprefix(["abc", "abd"])]
def s_json():
    return json.loads('{"a": [1, 2.5, null, true, "x"]}'), json.dumps({"a": [1, None, True]}), json.dumps("q")
def s_od():
    d = OrderedDict([("a", 1), ("b", 2)]); d.move_to_end("a"); c = ChainMap({"x": 1}, {"x": 2, "y": 3})
    return list(d.items()), c["x"], c["y"], "z" in c, sorted(c), dict(c)
def s_cond():
    x = None
    return x is None, x is not None, x == None, [] == [], () is (), "a" if x else "b", not x, 1 == 1.0, "1" == 1, (1, 2) == [1, 2], True == 1, None == 0, [1] != [1], 1 in (1, 2), None in [None], "" in "abc"
def s_unpackdict():
    d = {"a": 1, "b": 2}
    (k1, v1), (k2, v2) = d.items()
    x, y = d
    first = next(iter(d)); last = list(d.values())[-1]
    for i, (k, v) in enumerate(d.items()):
        pass
    return k1, v1, k2, v2, x, y, first, last, i, k, v, {v: k for k, v in d.items()}, list(filter(None, [0, 1, "", "a"])), list(map(str, [1, 2])), list(map(lambda a, b: a + b, [1, 2], [3, 4])), list(reversed([1, 2, 3])), [*d, *[1]], {*d}, (*d,)
def s_iter():
    it = iter([1, 2, 3]); a = next(it); rest = list(it); again = list(it)
    z = zip([1, 2], [3, 4]); p = next(z); q = list(z)
    e = list(iter(lambda c=[0]: c.append(1) or len(c), 4))
    m = map(str, [1, 2]); m1 = next(m)
    return a, rest, again, p, q, e, m1, list(m), list(enumerate(["a"])), list(range(5, 0, -2)), range(3)[1], len(range(4)), 2 in range(3), isinstance(it, collections.abc.Iterator)
def s_bytes():
    return b"ab" + b"c", b"abc"[0], b"abc"[1:], len(b"ab"), list(b"ab"), bytes([65]), "é".encode("utf8"), bytearray(b"a")
def s_global_dispatch():
    table = {"add": lambda a, b: a + b, "sub": operator.sub}
    return [table[k](5, 3) for k in ("add", "sub")], table.get("mul") is None, operator.itemgetter(0, 1)([5, 6, 7]), operator.attrgetter("real")(3), operator.contains([1], 1), operator.not_(0), operator.methodcaller("upper")("a")
def s_raise():
    out = []
    for bad in (lambda: [][0], lambda: {}["x"], lambda: int("q"), lambda: None.foo, lambda: 1 / 0, lambda: "a" + 1, lambda: None[0], lambda: next(iter([])), lambda: undefined_name, lambda: [].remove(1), lambda: "a".index("z"), lambda: (1, 2).index(5), lambda: {}.pop("k"), lambda: [].pop(), lambda: set().pop(), lambda: max([]), lambda: float("x"), lambda: None(), lambda: len(5), lambda: iter(5), lambda: 1 < "a", lambda: {[]: 1}, lambda: [1, 2, 3].index(7), lambda: "%d" % "x", lambda: "%s %s" % (1,), lambda: dict([1]), lambda: chr(-1), lambda: [1][5:], lambda: "abc"[7], lambda: int(None), lambda: getattr(1, "zz"), lambda: "a".foo, lambda: list(5), lambda: sum(["a"]), lambda: sorted([1, "a"]), lambda: {}.popitem(), lambda: str.upper(5)):
        try:
            r = bad()
            out.append(("ok", r))
        except Exception as ex:
            out.append(type(ex).__name__)
    return out
def s_unpackerr():
    out = []
    def f(v):
        a, b = v
    for v in ([1], [1, 2, 3], 5, None, "ab", {"x": 1, "y": 2}):
        try:
            f(v); out.append("ok")
        except Exception as ex:
            out.append(type(ex).__name__)
    return out
def s_asserts():
    try:
        assert 1 == 2, "msg"
    except AssertionError as ex:
        return ex.args, str(ex)
def s_lru():
    calls = []
    @functools.lru_cache(None)
    def f(x):
        calls.append(x); return x * 2
    f(1); f(1); f(2)
    return calls
def s_wraps():
    def deco(fn):
        @functools.wraps(fn)
        def w(*a, **k):
            return ("w", fn(*a, **k))
        return w
    @deco
    def f(x): return x
    return f(1), f.__name__
def s_typechecks():
    vals = [1, 1.0, True, "s", b"b", None, [], (), {}, set(), len, int, range(2)]
    return [[isinstance(v, t) for t in (int, float, bool, str, bytes, list, tuple, dict, set, type, (int, str), object, collections.abc.Sequence, collections.abc.Mapping, collections.abc.Iterable, collections.abc.Callable, collections.abc.Hashable, collections.abc.Sized)] for v in vals], [type(v).__name__ for v in vals], [bool(v) for v in vals[:10]], [callable(v) for v in vals]
def s_slices():
    s = slice(1, 3); l = [0, 1, 2, 3]
    return l[s], l[slice(None, None, -1)], "abcd"[s], (1, 2, 3)[s], s.start, l[-10:2], l[5:], l[::3], list(range(10))[2:8:3]
def s_nested():
    data = {"a": [{"b": 1}, {"b": 2}]}
    data["a"][1]["b"] += 5
    data["a"].append({"b": 9})
    for d in data["a"]:
        d["c"] = d["b"] * 2
    def walk(x):
        if isinstance(x, dict): return {k: walk(v) for k, v in x.items()}
        if isinstance(x, list): return [walk(v) for v in x]
        return -x
    return data, walk(data)
def s_str_iter():
    out = []
    for i, ch in enumerate("abc"):
        if ch == "b": continue
        out += [ch * i]
    a, b, c = "xyz"
    return out, a, c, list("ab"), sorted("cab"), set("aa"), "".join(reversed("abc")), max("abz"), "a" "b", "x".join(["1"]), tuple("ab"), "abc".find("c", 1), [*"hi"]
