"""C01: no operation on an invalid feature-structure handle reaches CAS memory."""
from sa.core import *

HBASE = "uima::FeatureStructure"
TYFS = "uima::FeatureStructure::iv_tyFS"
CASF = "uima::FeatureStructure::iv_cas"
HEAP = "uima::lowlevel::FSHeap::"
# heap operations that are themselves the validity test / do not take a handle's cell
NEUTRAL = {"isValid", "getTypeSystem"}

def inline(f, fr):
    if f.q.startswith(HEAP): return f.name == "getTypeSystem"
    if f.q.startswith("uima::lowlevel::"): return False
    if f.q.startswith("uima::CAS::"): return f.name == "getHeap"
    if "ErrorInfo" in f.q or "ErrorMessage" in f.q or "Exception" in f.q: return False
    return True

def handle_of(form):
    """the handle whose address field this form is"""
    if form is not None and form[0] == "f" and form[2] == TYFS: return form[1]
    return None

def external(h):
    """a handle supplied by the caller: the object itself or a parameter"""
    return h == ("this",) or (h is not None and h[0] == "param")

def run(prog, c):
    c.rule("in every public operation of the handle classes (and of the list/array templates, instantiated) each "
           "heap access whose address operand is the handle's cell is reached only with FSHeap::isValid(that cell) established "
           "on the path (path-sensitive, helpers inlined)")
    c.rule("FSHeap::isValid itself returns true only for a cell strictly below the heap top (and, unless every access site tests it, not the null cell)")
    c.rule("each use of the handle's CAS pointer as the object of a call is reached only with the pointer proven non-null")
    classes = [HBASE] + prog.subclasses(HBASE)
    c.count("handle_classes", len(classes))
    fns = []
    for f in prog.fns.values():
        if not f.blocks: continue
        if f.cls in classes or (f.cls and f.file.endswith(("listfs.cpp", "arrayfs.cpp"))):
            if f.d["kind"] in ("ctor", "dtor"): continue
            if f.d.get("acc", "public") == "public": fns.append(f)
    # what the heap's own test establishes about the cell
    hv = prog.fn(HEAP + "isValid")
    g = Graph(prog, hv, inline=lambda t, fr: True, depth=3)
    cell = ("param", 0, hv.params[0]["n"])
    nonnull, res = True, True
    r = explore(g); c.fn(hv)
    for n in g.nodes:
        if n.k != "ret" or n.fr is not g.frame or n.i not in r.at: continue
        for st in r.at[n.i]:
            F = assume(st[0], n.ev[0], True, prog)
            if F is None: continue
            if holds(F, ("b", cell), True) is not True: nonnull = False
            if not any(x[0] == "le" and x[2] <= -1 and dict(x[1]).get(cell) == 1 and len(x[1]) == 2 for x in F): res = False
    c.judge(res, "heap-valid", "%s: FSHeap::isValid can return true for a cell outside the heap" % hv.loc())
    for f in sorted(fns, key=lambda f: (f.file, f.line, f.u)):
        g = Graph(prog, f, inline=inline, depth=6)
        def step(n, facts, us):
            # a cell the operation itself just created is valid
            if n.k == "set" and n.ev[0] is not None and n.ev[0][0] == "f" and n.ev[0][2] == TYFS:
                rhs = n.ev[2]
                fresh = rhs is not None and rhs[0] == "call" and rhs[1] == HEAP + "createFS"
                us = (us - {n.ev[0]}) | ({n.ev[0]} if fresh else set())
            return [(facts, us)]
        r = explore(g, ustate=frozenset(), step=step, keepthis=True)   # a handle assigned to itself stays in its CAS
        c.fn(f)
        c.count("public_operations")
        for n in g.nodes:
            if n.k != "call" or n.i not in r.at or not n.ev[0]: continue
            q, u, obj, args = n.ev[0], n.ev[1], n.ev[2], n.ev[3]
            if q.startswith(HEAP) and q[len(HEAP):] not in NEUTRAL and args:
                h = handle_of(args[0])
                # stored operands of a mutator may be null references; the receiver may not
                if h == ("this",) or (f.d.get("static") and external(h)):
                    c.count("heap_accesses")
                    for st in r.at[n.i]:
                        if args[0] not in st[1] and not any(x[0] == "b" and x[1][0] == "call" and x[1][1] == HEAP + "isValid" and x[1][3] == (args[0],) and (nonnull or holds(st[0], ("b", args[0]), True) is True) for x in st[0]):
                            c.bad("%s|%s|%s" % (f.u, q, show(args[0])),
                                  "%s: %s accesses the heap cell %s without a validity check on the path %s" % (n.where(), f.u, show(args[0]), trace(g, r, n.i, st)))
                            break
                    else: c.ok("%s %s(%s)" % (n.loc(), q, show(args[0])))
            if obj is not None and obj[0] == "f" and obj[2] == CASF and external(obj[1]):
                c.count("cas_derefs")
                for st in r.at[n.i]:
                    at = atom(obj, prog)
                    if holds(st[0], at[0], at[1]) is not True:
                        c.bad("%s|casderef|%s" % (f.u, show(obj)),
                              "%s: %s calls through the CAS pointer %s that may be null on the path %s" % (n.where(), f.u, show(obj), trace(g, r, n.i, st)))
                        break
                else: c.ok()
    c.floor("heap_accesses", 100); c.floor("cas_derefs", 100)
