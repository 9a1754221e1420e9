"""Conformance of the analyser's models: evaluates small functions both abstractly and by running them (development tool, used by no check).

    python3 tools/conform/run.py [SNIPPETS]
"""
import sys, os, ast, copy as cp, warnings
warnings.simplefilter("ignore")
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(os.path.dirname(HERE)))
sys.dont_write_bytecode = True
import tempfile
ROOT = tempfile.mkdtemp()
src = open(sys.argv[1] if len(sys.argv)>1 else os.path.join(HERE, 'builtins_snippets.py')).read()
tree = ast.parse(src)
body=[]; names=[]
for n in tree.body:
    if isinstance(n, ast.FunctionDef) and n.name.startswith("s_"):
        r = n.body[-1]
        if isinstance(r, ast.Return) and isinstance(r.value, ast.Tuple) and len(r.value.elts)>1:
            for i,e in enumerate(r.value.elts):
                m=cp.deepcopy(n); m.name="%s__%d"%(n.name,i); m.body[-1].value=e; body.append(m); names.append((m.name, ast.unparse(e)))
        else:
            body.append(n); names.append((n.name,"return "+ (ast.unparse(r)[:80])))
    else: body.append(n)
tree.body=body
open(os.path.join(ROOT, 'genmod.py'),'w').write(ast.unparse(ast.fix_missing_locations(tree)))
sys.path.insert(0,ROOT)
import genmod
from pa import harness, core
from pa.core import *
from pa.values import *
from pa.harness import Checker
import pa.models as models
c = Checker("conf","quick",1,ROOT)
class Unk(Exception): pass
def conc(v, st, depth=0):
    if depth>20: raise Unk("deep")
    v2 = None
    if isinstance(v, Const): return v.v
    if isinstance(v, Tup): return tuple(conc(x,st,depth+1) for x in v.items)
    if isinstance(v, Lin) and not v.terms: return v.c
    if isinstance(v, Ref):
        o = st.heap[v.oid]
        if isinstance(o, ListO):
            if o.open: raise Unk("open list")
            l=[conc(x,st,depth+1) for x in o.items]
            return l if o.tname=="list" else set(l) if o.tname in("set","frozenset") else (o.tname, l) if o.tname!="tuple" else tuple(l)
        if isinstance(o, DictO):
            if o.open: raise Unk("open dict")
            return {conc(k,st,depth+1): conc(x,st,depth+1) for k,x in o.items if x is not models.live and x is not None and not (hasattr(models,'DEAD') and x is models.DEAD)}
        if isinstance(o, InstO): return "<inst>"
    raise Unk(repr(v)[:100])
def norm(x):
    if isinstance(x,(genmod.A,)) : return "<inst>"
    if isinstance(x, dict): return {norm(k) if isinstance(k,tuple) else (k if not isinstance(k,genmod.A) else "<inst>"): norm(v) for k,v in x.items()}
    if isinstance(x, tuple): return tuple(norm(v) for v in x)
    if isinstance(x, list): return [norm(v) for v in x]
    if isinstance(x,(set,frozenset)): return set(norm(v) for v in x)
    return x
only = sys.argv[2:] 
bad=und=ok=0
for name, text in names:
    if only and not any(name.startswith(o) for o in only): continue
    try: want = ("ret", norm(getattr(genmod,name)()))
    except Exception as ex: want=("exc", type(ex).__name__)
    c.undec=[]
    try:
        outs = c.run(c.fn("genmod", name), st=c.prog.base.fork(), label=name, raises="handled", loop_k=50, while_k=50, comp_k=50, rec_k=30)
    except Exception as ex:
        print("CRASH", name, text, repr(ex)[:200]); bad+=1; continue
    if not outs or c.undec:
        print("UNDEC", name, text, [str(u)[:150] for u in c.undec][:1]); und+=1; continue
    res=set(); r=[]
    try:
        for o in outs:
            if o.raised: r.append(("exc", "|".join(sorted(o.exc_names()))))
            else: r.append(("ret", conc(o.val,o.st)))
    except Unk as ex:
        print("OPAQUE", name, text, str(ex)[:150], "(%d outs)"%len(outs)); und+=1; continue
    def same(a,b):
        if a[0]!=b[0]: return False
        return repr(a[1])==repr(b[1]) or (a[1]==b[1] and type(a[1]) is type(b[1]))
    if len(r)==1 and same(r[0],want): ok+=1
    elif any(same(x,want) for x in r): print("MULTI", name, text, str(r)[:200]); und+=1
    else: print("WRONG", name, text, "\n    got ", str(r)[:300], "\n    want", str(want)[:300]); bad+=1
print("ok",ok,"und",und,"bad",bad)

import shutil
shutil.rmtree(ROOT)
