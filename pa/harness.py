"""What the property checks share: running entry points abstractly, obligations, verdicts, evidence."""
import json
import os
import time

from .values import *
from .core import Program, Interp, Config, Undecided, AnchorLost, Raised, ClassInfo, StaticV
from . import core, models
from . import typesys as T

REGISTRY = {}
MODULES = ["pandalone.utils", "pandalone.mappings", "pandalone.components", "pandalone.pandata", "pandalone.xlsutils", "pandalone.xleash", "pandalone.xleash._parse", "pandalone.xleash._capture",
           "pandalone.xleash._filter", "pandalone.xleash._lasso", "pandalone.xleash.io.backend", "pandalone.xleash.io._xlrd", "bin.bumpver"]


def check(pid, technique, level_note):
    def deco(f):
        REGISTRY[pid] = (f, technique, level_note)
        return f
    return deco


class Outcome(object):
    """One abstract path's end: the state it ends in and what it returns or raises."""
    __slots__ = ("st", "val", "raised", "events", "it")

    def __init__(self, st, val, raised, events, it):
        self.st, self.val, self.raised, self.events, self.it = st, val, raised, events, it

    def exc_names(self):
        """Possible exception class names (None: unknown)."""
        if not self.raised:
            return frozenset()
        if self.val is None:
            return None
        t = self.it.types(self.val, self.st)
        return t

    def raises(self, *names):
        t = self.exc_names()
        return bool(t) and all(any(self.it.exc_isa(x, n) for n in names) for x in t)

    def calls(self, *names):
        return [e for e in self.events if e[0] == "call" and (not names or e[1] in names)]

    def writes(self):
        return [e for e in self.events if e[0] == "write"]

    def o_eq(self, want):
        """Is the value returned equal to `want`: strings by their text."""
        v = self.it.strval(self.val, self.st)
        v = self.st.facts.get(("val", v), v)
        return v == want

    def show(self, v=None):
        return show(self.val if v is None else v, self.st)

    def __repr__(self):
        return ("raise " if self.raised else "") + (self.show() if self.val is not None else "abort")


class Checker(object):
    def __init__(self, pid, tier, seed, root="/repo"):
        self.pid, self.tier, self.seed, self.root = pid, tier, seed, root
        self.prog = Program(root)
        self.viol = {}          # key -> dict
        self.undec = []
        self.obls = []          # (rule, subject, verdict)
        self.paths = 0
        self.states = 0
        self.funcs = set()
        self.assume = []
        self.notes = []
        self.loop_cuts = self.rec_cuts = 0
        self.loaded = False
        self.thorough = tier == "thorough"
        self.past = None            # what earlier calls left behind, in the passes which follow them
        self.past_syms = False      # does it mention unknown inputs of those calls?
        self.pass_no = 0
        self.kept = {}              # what was seen left behind: description -> True
        self.history = True
        self.same_symbols = False   # does a symbol stand for the same thing in all scenarios?

    # ------------------------------------------------------------- building abstract inputs
    def fn(self, mod, qual):
        return self.prog.func(mod, qual)

    def opt(self, mod, qual):
        """A private anchor: None (and an undecided note) when gone."""
        try:
            return self.prog.func(mod, qual)
        except AnchorLost as ex:
            self.undecided("anchor " + qual, str(ex))
            return None

    def state(self):
        if not self.loaded:
            self.loaded = True
            for m in MODULES:
                try:
                    self.prog.load(m)
                except AnchorLost:
                    pass
            self.prog.load("envm_stdlib")
        if self.past is not None:
            return self.past.fork()
        return self.prog.base.fork()

    def remember(self, outs):
        """What the calls left behind in the program itself: module variables, caches, defaults, class attributes."""
        if not self.history:
            return
        for o in outs if self.pass_no != 2 else reversed(outs):
            if o.val is None and o.raised:
                continue
            left = kept_by(self.prog, o.st, self.past)
            if not left:
                continue
            for x in left:
                self.kept.setdefault(x, True)
            if self.pass_no:
                self.past, sy = history(self.prog, o.st)
                self.past_syms = self.past_syms or sy
            return

    def run(self, fn, args=(), kwargs=(), st=None, label="", drain=False, **cfg):
        """All abstract outcomes of calling `fn`. Leaving the fragment is recorded as undecided."""
        conf = cfg.pop("config", None) or Config(**cfg)
        it = Interp(self.prog, conf)
        it.label = label
        st = st if st is not None else self.state()
        start = st.trace
        kw = tuple(kwargs.items()) if isinstance(kwargs, dict) else tuple(kwargs)
        out = []
        try:
            ctx = it.topctx()
            for s, v in it.call(fn, tuple(args), kw, st, ctx, None):
                if drain and not isinstance(v, Raised) and isinstance(v, Ref) and s.heap[v.oid].kind == "iter":
                    for s2, xs in models.materialise(it, v, s, ctx, None, conf.loop_k):
                        r = isinstance(xs, Raised)
                        out.append(Outcome(s2, xs.exc if r else xs, r, s2.events(start), it))
                    continue
                r = isinstance(v, Raised)
                out.append(Outcome(s, v.exc if r else v, r, s.events(start), it))
        except Undecided as ex:
            self.undecided(label or show(fn), str(ex))
        except RecursionError:
            self.undecided(label or show(fn), "recursion too deep")
        except AnchorLost:
            raise
        except Exception as ex:     # an unmodelled construct: the analysis does not apply, which is no alarm
            if os.environ.get("PA_DEBUG"):
                raise
            import traceback
            self.undecided(label or show(fn), "internal: %s: %s @ %s" % (type(ex).__name__, ex, traceback.extract_tb(ex.__traceback__)[-1][:3]))
        self.paths += len(out)
        self.states += it.states
        self.funcs |= it.funcs
        self.loop_cuts += it.loop_cuts
        self.rec_cuts += it.rec_cuts
        self.remember(out)
        return out

    def op(self, kind, st, obj, name, args=(), kwargs=(), label="", **cfg):
        """Outcomes of obj.name (kind 'get'), obj.name = args[0] ('set'), obj.name(*args) ('call') or obj(*args) ('apply')."""
        conf = cfg.pop("config", None) or Config(**cfg)
        it = Interp(self.prog, conf)
        start = st.trace
        out = []
        kw = tuple(kwargs.items()) if isinstance(kwargs, dict) else tuple(kwargs)

        def gen():
            ctx = it.topctx()
            if kind == "get":
                yield from it.getattr_(obj, name, st, ctx, None)
            elif kind == "set":
                for s, err in it.setattr_(obj, name, args[0], st, ctx, None):
                    yield s, (err if isinstance(err, Raised) else NONE)
            elif kind == "call":
                for s, m in it.getattr_(obj, name, st, ctx, None):
                    if isinstance(m, Raised):
                        yield s, m
                    else:
                        yield from it.call(m, tuple(args), kw, s, ctx, None)
            else:
                yield from it.call(obj, tuple(args), kw, st, ctx, None)
        try:
            for s, v in gen():
                r = isinstance(v, Raised)
                out.append(Outcome(s, v.exc if r else v, r, s.events(start), it))
        except Undecided as ex:
            self.undecided(label or str(name), str(ex))
        except RecursionError:
            self.undecided(label or str(name), "recursion too deep")
        except AnchorLost:
            raise
        except Exception as ex:
            if os.environ.get("PA_DEBUG"):
                raise
            import traceback
            self.undecided(label or str(name), "internal: %s: %s @ %s" % (type(ex).__name__, ex, traceback.extract_tb(ex.__traceback__)[-1][:3]))
        self.paths += len(out)
        self.states += it.states
        self.funcs |= it.funcs
        self.loop_cuts += it.loop_cuts
        self.rec_cuts += it.rec_cuts
        self.remember(out)
        return out

    # ------------------------------------------------------------- verdicts
    def ok(self, rule, subject):
        self.obls.append((rule, subject, "holds"))

    def bad(self, rule, subject, what, loc=None, path=None):
        if self.pass_no and self.past is not None:
            if self.past_syms and not self.same_symbols:
                self.undecided("%s | %s, after earlier calls" % (rule, subject), what)
                return
            what += " (after earlier calls, which left behind: %s)" % ", ".join(sorted(self.kept)[:6])
        esc = path.st.facts.get(("escaped",)) if isinstance(path, Path) else None
        if esc is not None:
            self.undecided("%s | %s" % (rule, subject), "%s; but %s, not modelled, was given functions of the program and may call them" % (what, esc))
            return
        self.obls.append((rule, subject, "violated"))
        key = "%s | %s" % (rule, subject)
        if key not in self.viol:
            self.viol[key] = dict(key=key, rule=rule, subject=subject, what=what, where=loc, path=path() if callable(path) else path)

    def oblige(self, cond, rule, subject, what="", loc=None, path=None):
        """cond: True holds, False violated, None undecided."""
        if cond is None:
            self.undecided("%s | %s" % (rule, subject), what)
        elif cond:
            self.ok(rule, subject)
        else:
            self.bad(rule, subject, what, loc, path)
        return cond

    def undecided(self, subject, why):
        self.undec.append((subject, why))


def kept_by(prog, st, past=None):
    """Descriptions of what a state changed of the program itself, against the state after loading it (or after earlier calls)."""
    base = past if past is not None else prog.base
    names = {m.fid: m.name for m in prog.modules.values()}
    out = []
    for fid, f in prog.base.frames.items():
        if names.get(fid, "").startswith("envm_"):
            continue
        g, b = st.frames.get(fid), base.frames.get(fid, f)
        if g is None or g is b or g is f:
            continue
        for k, v in g.items():
            if b.get(k) != v and f.get(k) != v:
                out.append("variable %s of %s" % (k, names.get(fid, "a function")))
    for oid, o in prog.base.heap.items():
        g, b = st.heap.get(oid), base.heap.get(oid, o)
        if g is not None and g is not b and g is not o and not same_obj(g, b) and not same_obj(g, o):
            out.append("contents of a shared %s" % getattr(o, "tname", o.kind))
    for k, v in st.over.items():
        if k not in base.over and lasting(k[0], prog):
            out.append("%s of %s" % (" ".join(str(x) for x in k[1:] if isinstance(x, str)), show(k[0], st)))
    for k in st.facts:
        if k[0] == "memo" and k not in base.facts:
            out.append("cached results of %s" % show(k[1], st))
    return sorted(set(out))


def lasting(v, prog):
    return isinstance(v, (FuncV, ClsV, ModV, ClassInfo)) or isinstance(v, Ref) and v.oid in prog.base.heap


def same_obj(a, b):
    if type(a) is not type(b):
        return False
    for c in type(a).__mro__:
        for s in getattr(c, "__slots__", ()):
            if s != "origin" and getattr(a, s) != getattr(b, s):
                return False
    return True


def atoms(v, st, out):
    """The unknown inputs and the heap objects a value mentions."""
    todo, seen = [v], set()
    while todo:
        x = todo.pop()
        if isinstance(x, Sym):
            out.add(x)
        elif isinstance(x, Ref):
            for oid in reachable(x, st):
                if oid in seen:
                    continue
                seen.add(oid)
                out.add(Ref(oid))
                o = st.heap[oid]
                for c in type(o).__mro__:
                    for s in getattr(c, "__slots__", ()):
                        y = getattr(o, s)
                        if not isinstance(y, Ref):
                            todo.append(y)
        elif isinstance(x, Val):
            todo += list(x._k[1:])
        elif isinstance(x, (tuple, list)):
            todo += [y for y in x if isinstance(y, (Val, tuple, list))]
    return out


def history(prog, st):
    """The state later calls find: the program as the calls so far left it, without what was only theirs."""
    s = prog.base.fork()
    s.n = st.n
    found = set()
    for fid, f in prog.base.frames.items():
        g = st.frames.get(fid, f)
        if g is not f:
            s.frames[fid] = g
            for k, v in g.items():
                if f.get(k) != v:
                    atoms(v, st, found)
    for oid, o in prog.base.heap.items():
        g = st.heap.get(oid, o)
        if g is not o and not same_obj(g, o):
            s.heap[oid] = g
            atoms(Ref(oid), st, found)
    for k, v in st.over.items():
        if lasting(k[0], prog) and prog.base.over.get(k) != v:
            s.over[k] = v
            atoms((k, v), st, found)
    for k, v in st.facts.items():
        if k[0] == "memo":
            s.facts[k] = v
            atoms((k[2], k[3], v), st, found)
    for a in found:
        if isinstance(a, Ref):
            s.heap.setdefault(a.oid, st.heap[a.oid])
    mine = {a for a in found if not (isinstance(a, Ref) and a.oid in prog.base.heap)}
    for d, t in ((st.over, s.over), (st.facts, s.facts)):
        for k, v in d.items():
            if k not in t and mine & atoms((k, v), st, set()):
                t[k] = v
    for fid, f in st.frames.items():        # functions made by those calls still see their variables
        s.frames.setdefault(fid, f)
    return s, any(isinstance(a, Sym) for a in found)


def reachable(v, st, seen=None):
    """Heap object ids reachable from a value."""
    seen = set() if seen is None else seen
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, Ref):
            if x.oid in seen or x.oid not in st.heap:
                continue
            seen.add(x.oid)
            o = st.heap[x.oid]
            if isinstance(o, InstO):
                todo.append(Ref(o.dict))
            elif isinstance(o, DictO):
                for k, y in o.items:
                    todo += [k, y]
                if o.base is not None:
                    todo.append(o.base)
            elif isinstance(o, (ListO, ArrO)):
                todo += list(o.items)
                if isinstance(o, ListO) and o.base is not None:
                    todo.append(o.base)
            elif isinstance(o, CopyO):
                todo.append(o.base)
            elif isinstance(o, IterO):
                todo += [y for y in (o.src if isinstance(o.src, tuple) else ()) if isinstance(y, Val)]
        elif isinstance(x, Tup):
            todo += list(x.items)
        elif isinstance(x, (Bound,)):
            todo += [x.fn, x.self_]
        elif isinstance(x, Partial):
            todo += list(x.args)
    return seen


def freeze(v, st, label):
    """Mark everything reachable from `v` as belonging to the input `label`."""
    for oid in reachable(v, st):
        o = st.heap[oid]
        st.heap[oid] = o.repl(origin="input:" + label)


def path_of(o, n=40):
    """A readable counterexample path of an outcome, made when needed."""
    return Path(o, n)


class Path(object):
    def __init__(self, o, n):
        self.o, self.n, self.st = o, n, o.st

    def __call__(self):
        return _path_of(self.o, self.n)


def _path_of(o, n):
    out = []
    for e in o.events[-n:]:
        out.append(" ".join(show(x, o.st) if isinstance(x, Val) else
                            "(" + ", ".join(show(y, o.st) if isinstance(y, Val) else str(y) for y in x) + ")" if isinstance(x, tuple) else str(x)
                            for x in e))
    facts = []
    for k, v in list(o.st.facts.items())[-60:]:
        facts.append("%s = %s" % (" ".join(show(x, o.st) if isinstance(x, Val) else str(x) for x in k),
                                  show(v, o.st) if isinstance(v, Val) else sorted(v) if isinstance(v, frozenset) and all(isinstance(x, str) for x in v) and len(v) < 12 else str(v)[:80]))
    return dict(events=out, facts=facts, outcome=repr(o))


KNOWN = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")


def known_findings(pid):
    try:
        with open(KNOWN) as f:
            data = json.load(f)
    except FileNotFoundError:
        return {}
    return {e["key"]: e for e in data.get("findings", []) if e["property"] == pid}


def main(pid, tier, seed, root="/repo"):
    verif = os.path.normpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
    evdir = os.path.join(verif, "evidence")
    os.makedirs(evdir, exist_ok=True)
    t0 = time.time()
    from . import checks
    checks.load_all()
    f, technique, note = REGISTRY[pid]
    c = Checker(pid, tier, seed, root)
    code = 0
    try:
        f(c)
        if c.history and c.kept and time.time() - t0 < 150:     # the calls leave something behind: follow them again, one after the other
            for c.pass_no in (1, 2):
                c.past, c.past_syms = None, False
                f(c)
                if time.time() - t0 > 400:
                    break
            c.pass_no = 0
    except AnchorLost as ex:
        print("ERROR property=%s anchor lost: %s" % (pid, ex))
        code = 2
    except Undecided as ex:
        c.undecided("check", str(ex))
    except RecursionError:
        c.undecided("check", "recursion too deep")
    except Exception as ex:
        if os.environ.get("PA_DEBUG"):
            raise
        import traceback
        tb = traceback.extract_tb(ex.__traceback__)
        c.undecided("check", "internal: %s: %s @ %s" % (type(ex).__name__, ex, [x[:3] for x in tb[-2:]]))
    known = known_findings(pid)
    new = []
    for key, v in c.viol.items():
        if key in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[key]["what"]))
        else:
            new.append(v)
    for n, v in enumerate(new):
        path = os.path.join(evdir, "replay_%s_%d.json" % (pid, n))
        with open(path, "w") as fp:
            json.dump(v, fp, indent=1, default=str)
        print("  %s: %s at %s: %s" % (v["rule"], v["subject"], v["where"], v["what"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        code = 1
    und = []
    for s, w in c.undec:
        if (s, w) not in und:
            und.append((s, w))
    for s, w in und[:20]:
        print("UNDECIDED property=%s %s: %s" % (pid, s, w))
    rules = {}
    for r, s, v in c.obls:
        d = rules.setdefault(r, dict(holds=0, violated=0))
        d[v] += 1
    cov = dict(
        explanation="%s. %s Counts below are of this run: abstract paths followed through the current source from the property's entry points, obligations "
                    "decided on them, and what stayed undecided." % (technique, note),
        obligations=len(c.obls), discharged=sum(1 for o in c.obls if o[2] == "holds"),
        distinct_obligations=len(set(c.obls)), rules=rules,
        abstract_paths=c.paths, abstract_steps=c.states,
        functions_analysed=sorted("%s:%s" % f for f in c.funcs),
        undecided=["%s: %s" % u for u in und], known_findings=sorted(set(known) & set(c.viol)),
        left_behind_by_calls=sorted(c.kept)[:20],
        loops_cut_at_bound=c.loop_cuts, recursions_cut_at_bound=c.rec_cuts, notes=c.notes,
        samples=["%s: %s -> %s" % o for o in sorted(set(c.obls))[:12]])
    ev = dict(property=pid, tier=tier, seed=seed, level="other", coverage=cov,
              assumptions=["library models in pa/models.py, pa/npmodel.py and pa/typesys.py", "loops over unknown collections are followed for generic elements up to the bounds in coverage"] + c.assume,
              wall_s=round(time.time() - t0, 2), violations=len(new))
    with open(os.path.join(evdir, "%s.json" % pid), "w") as fp:
        json.dump(ev, fp, indent=1, default=str)
    print("%s property=%s obligations=%d paths=%d undecided=%d wall=%.1fs" %
          ("OK" if code == 0 else "FAIL", pid, len(c.obls), c.paths, len(und), time.time() - t0))
    return code
