"""C06: a reset CAS carries nothing over into the next document."""
from .common import *
from sa.loops import *
from .c09 import calls, last, std, values, Ctx

CAS = "uima::CAS"
FH = "uima::lowlevel::FSHeap"
SC = "uima::internal::SerializedCAS"
CD = "uima::internal::CASDeserializer"

# fields of a CAS object that are not part of a document's content: field -> why resetting leaves them alone
KEPT = {
    "iv_sofaNum": "number of the view, same for every document",
    "iv_componentInfo": "engine context, set by the engine around each call",
    "iv_initialView": "view object kept for reuse, emptied like every registered view",
    "iv_sofa2tcasMap": "view objects kept for reuse, each emptied by reset()",
    "iv_sofa2indexMap": "index repositories of the registered views, each emptied by reset()",
    "iv_utDocumentType": "type system lookup", "iv_utDocumentLangAsIntFeat": "type system lookup", "iv_utDocumentLangAsStrFeat": "type system lookup",
}
NONMUT = ("begin", "end", "find", "at", "operator[]", "front", "back", "rbegin", "rend", "size", "count", "lower_bound", "upper_bound", "operator->", "operator*", "get", "data", "c_str")

def run(prog, c):
    c.rule("every field of CAS that any function other than construction, destruction and reset changes is restored by CAS::reset on every path, for this CAS and for every registered view, to the value a new CAS has; or is listed as not being document content")
    c.rule("every CAS object created as a view is registered where reset() finds it")
    c.rule("FSHeap::reset resets every heap; CAS::reset resets the heap, the base index repository and each view's index repository")
    c.rule("binary deserialisation resets the base CAS before it changes any heap or index, and fills indexes only after every heap is in place")
    c.rule("every table of a SerializedCAS is emptied by reset() or overwritten as a whole by each function that fills it")
    muts = mutated(prog)
    casreset(prog, c, muts); registered(prog, c); heapreset(prog, c); deserialise(prog, c); tables(prog, c, muts); entry(prog, c)
    c.floor("document_fields", 5); c.floor("heaps", 6); c.floor("tables", 15)

def rootfield(fm):
    while isinstance(fm, tuple) and fm:
        if fm[0] == "f": return fm
        if fm[0] == "idx": fm = fm[1]
        elif fm[0] == "call" and last(fm[1]) in NONMUT: fm = fm[2]
        else: return None
    return None

def mutated(prog):
    """class -> field -> [(function, node, kind)] for direct changes of a field (assignment, ++, changing call on a std container)"""
    out = {}
    for f in prog.fns.values():
        if not f.blocks: continue
        g = Graph(prog, f, raw=True)
        for n in g.nodes:
            t = None
            if n.k == "set" and n.ev[0] is not None: t = rootfield(n.ev[0])
            elif n.k == "call" and n.ev[0] and n.ev[0].startswith("std::") and n.ev[2] is not None and n.ev[1] and not n.ev[1].rstrip().endswith("const") and last(n.ev[0]) not in NONMUT: t = rootfield(n.ev[2])
            if t is not None:
                k, _, nm = t[2].rpartition("::")
                out.setdefault(k, {}).setdefault(nm, []).append((f, n))
    return out

def resetfn(f): return f.name in ("reset", "clear")

def initial(prog, cls):
    """field -> forms assigned in constructors of the class"""
    out = {}
    for f in prog.fns.values():
        if f.cls == cls and f.d.get("kind") == "ctor":
            g = Graph(prog, f)
            for n in g.nodes:
                if n.k == "set" and n.ev[1] == "=" and n.ev[0] is not None and n.ev[0][0] == "f" and n.ev[0][1] == ("this",): out.setdefault(last(n.ev[0][2]), []).append(n.ev[2])
    return out

def same_value(prog, a, b):
    if a == b: return True
    x, y = num(prog, a) if a is not None else None, num(prog, b) if b is not None else None
    return x is not None and x == y

def casreset(prog, c, muts):
    f = prog.fn(CAS + "::reset"); c.fn(f)
    g = Graph(prog, f, inline=lambda t, fr: (t.cls == CAS and t.u != f.u and t.d.get("kind") not in ("ctor", "dtor") and t.u not in prog.virt_decl) or (t.cls is None and t.file == f.file), depth=4); L = Loops(g)
    init = initial(prog, CAS)
    isview = ("f", ("this",), CAS + "::isbaseCas"); base = ("f", ("this",), CAS + "::iv_baseCas"); mp = ("f", ("this",), CAS + "::iv_sofa2tcasMap")
    r = explore(g)
    # a view hands over to its base CAS: nodes on the view's side
    deleg = [n for n in g.nodes if n.k == "call" and n.i in L.live and n.ev[0] == CAS + "::reset" and base in values(g, n.ev[2])]
    exits = [g.exit.i]
    def onbase(i):
        """node reached only by the base CAS's own path: not every path to it has delegated"""
        return True
    ends = [g.exit.i]
    def always(nodes):
        """every normal path from entry to the exit passes one of the nodes or the delegation"""
        b = [x.i if isinstance(x, N) else x for x in nodes] + [d.i for d in deleg]
        return not L.path([g.entry.i], ends, b)
    c.judge(bool(deleg), "delegate", "%s: resetting a view does not reset its base CAS" % f.loc(), "a view delegates to the base CAS")
    for d in deleg:
        for facts, us in r.at.get(d.i, ()):
            c.judge(has_b(facts, lambda fm: fm == isview, False), "delegate2", "%s: reset delegates to the base CAS although it may be the base CAS" % d.loc())
    # view loop
    viewloops = []
    for lp in L.loops.values():
        it = L.iteration(lp)
        if it is not None and it.cont == mp and it.full() and not it.early: viewloops.append((lp, it))
    c.judge(bool(viewloops) and any(always([lp.head]) for lp, it in viewloops), "views", "%s: reset does not visit every registered view" % f.loc(), "reset visits every registered view")
    def viewobj(it, o):
        for v in values(g, o):
            if v is not None and v[0] == "f" and last(v[2]) == "second" and (it.iselem(v[1]) or v[1] == it.var): return True
            if v is not None and it.iselem(v): return True
        return False
    def inviews(pred):
        """a node satisfying pred(n, object-test) is executed for every view"""
        for lp, it in viewloops:
            ns = [n for n in g.nodes if n.i in lp.body and n.i in L.live and pred(n, lambda o: viewobj(it, o))]
            if ns and not L.cycle_avoids(lp, [n.i for n in ns]): return True
        return False
    def forbase(pred):
        ns = [n for n in g.nodes if n.i in L.live and pred(n, lambda o: o == ("this",) or o == base)]
        return bool(ns) and always(ns)
    fields = muts.get(CAS, {})
    seen = 0
    kept = set()
    for nm in sorted(fields):
        outside = sorted({x.q for x, n in fields[nm] if x.d.get("kind") not in ("ctor", "dtor") and x.u not in {fr.fn.u for fr in g.frames}})
        if not outside: continue
        if nm in KEPT: kept.add(nm); continue
        seen += 1; c.count("document_fields")
        ini = init.get(nm, [])
        q = CAS + "::" + nm
        # where is the field changed: through the base CAS only, or on views?
        onviews = any(n.ev[0 if n.k == "set" else 2] is not None and (rootfield(n.ev[0 if n.k == "set" else 2])[1] != base and not (rootfield(n.ev[0 if n.k == "set" else 2])[1][0] == "call" and last(rootfield(n.ev[0 if n.k == "set" else 2])[1][1]) == "getBaseCas")) for x, n in fields[nm] if x.d.get("kind") not in ("ctor", "dtor") and x.u not in {fr.fn.u for fr in g.frames})
        def restores(n, isobj, strict=True):
            if n.k == "set" and n.ev[1] == "=" and n.ev[0] is not None and n.ev[0][0] == "f" and n.ev[0][2] == q and isobj(n.ev[0][1]):
                return any(same_value(prog, n.ev[2], v) for v in ini) or (nm == "iv_sofaCount" and num(prog, n.ev[2]) == 1)
            if n.k == "call" and n.ev[2] is not None and n.ev[2][0] == "f" and n.ev[2][2] == q and isobj(n.ev[2][1]) and last(n.ev[0]) in ("clear", "reset"): return True
            return False
        if onviews:
            ok = inviews(restores)
            c.judge(ok, "field|" + nm, "%s: CAS::%s is changed by %s and not restored by reset() in every view: the next document starts with the last one's value" % (f.loc(), nm, ", ".join(outside[:3])), "CAS::%s restored in every view" % nm)
        else:
            ok = forbase(restores)
            c.judge(ok, "field|" + nm, "%s: CAS::%s is changed by %s and not restored by reset(): the next document starts with the last one's value" % (f.loc(), nm, ", ".join(outside[:3])), "CAS::%s restored in the base CAS" % nm)
    # sub-objects
    def resets(n, isobj, fld, cls): return n.k == "call" and n.ev[0] == cls + "::reset" and any(v is not None and v[0] == "f" and v[2] == CAS + "::" + fld and isobj(v[1]) for v in values(g, n.ev[2]))
    c.judge(forbase(lambda n, o: resets(n, o, "iv_heap", FH)), "sub|heap", "%s: reset() does not reset the FS heap" % f.loc(), "heap reset")
    c.judge(forbase(lambda n, o: resets(n, o, "iv_indexRepository", "uima::lowlevel::IndexRepository")), "sub|baseindex", "%s: reset() does not reset the base CAS's indexes (Sofas stay listed)" % f.loc(), "base indexes reset")
    c.judge(inviews(lambda n, o: resets(n, o, "iv_indexRepository", "uima::lowlevel::IndexRepository")), "sub|viewindex", "%s: reset() does not reset every view's indexes" % f.loc(), "view indexes reset")
    # the document copy is released exactly once and not used afterwards
    dels = [n for n in g.nodes if n.k == "del" and n.i in L.live and n.ev[0] is not None and n.ev[0][0] == "f" and n.ev[0][2] == CAS + "::iv_copyOfDocument"]
    for n in dels:
        sets = [m.i for m in g.nodes if m.k == "set" and m.ev[0] == n.ev[0]]
        lp = L.innermost(n)
        ok = lp is not None and not L.path(L.succs(n.i), [lp.head, g.exit.i], sets) and n.ev[1]
        c.judge(ok, "docfree", "%s: the view keeps a pointer to the released document copy" % n.loc(), "document copy released and forgotten")
    if "iv_copyOfDocument" in fields: c.judge(bool(dels), "docleak", "%s: reset() forgets the document copies without releasing them" % f.loc())

def registered(prog, c):
    """new view objects are entered into iv_sofa2tcasMap of the base CAS"""
    cnt = 0
    for f in prog.fns.values():
        if not f.blocks or not any(n["k"] == "new" and n.get("at", "").endswith("CASImpl") for n in f.nodes): continue
        g = Graph(prog, f, inline=lambda t, fr: t.cls == f.cls and t.cls is not None and t.d.get("kind") == "method" and len(t.blocks) < 12 and t.name not in ("reset",), depth=2) if f.cls == CAS else Graph(prog, f)
        L = Loops(g)
        for n in g.nodes:
            if n.k != "new" or n.i not in L.live or n.fr.fn.u != f.u or not n.ev[1].endswith("CASImpl"): continue
            fm = n.ev[0]; fn = n.fr.fn
            ct = fn.nodes[n.nid].get("s"); ct = fn.nodes[fn.strip(ct)] if ct is not None else None
            if ct is None or ct["k"] != "ctor" or not ct.get("a"): continue
            if not split_sig(ct.get("u") or "")[0][:1] == ["uima::CAS *"]: continue
            cnt += 1; c.fn(f)
            holders = {fm} | {m.ev[0] for m in g.nodes if m.k == "set" and m.ev[1] == "=" and m.ev[2] == fm}
            def holds_(v, d=4):
                if v is None or not d: return False
                for y in subforms(v):
                    if y in holders: return True
                    if y[0] in ("var", "ret") and any(w != y and holds_(w, d - 1) for w in values(g, y)): return True
                return False
            regs = [m.i for m in g.nodes if m.i in L.live and ((m.k == "call" and m.ev[2] is not None and m.ev[2][0] == "f" and m.ev[2][2] == CAS + "::iv_sofa2tcasMap" and last(m.ev[0]) in ("insert", "emplace", "insert_or_assign", "try_emplace") and any(holds_(a) for a in m.ev[3]))
                    or (m.k == "set" and m.ev[0] is not None and m.ev[0][0] == "idx" and m.ev[0][1] is not None and m.ev[0][1][0] == "f" and m.ev[0][1][2] == CAS + "::iv_sofa2tcasMap" and holds_(m.ev[2])))]
            ok = bool(regs) and not L.path(L.succs(n.i), [g.exit.i], regs)
            c.judge(ok, "register|%s" % f.u, "%s: %s creates a view that is not registered with the base CAS: reset() does not empty it" % (n.loc(), f.q), "view created in %s is registered" % f.q)
    if cnt < 3: raise AnalysisBroken("creations of views: %d" % cnt)

def heapreset(prog, c):
    f = prog.fn(FH + "::reset"); c.fn(f)
    g = Graph(prog, f, inline=lambda t, fr: t.cls == FH and t.d.get("kind") == "method" and t.u != f.u, depth=4); L = Loops(g)
    for fd in prog.classes[FH]["fields"]:
        t = fd["t"].replace("const ", "").strip()
        if "internal::Heap<" not in t or t.endswith("*"): continue
        c.count("heaps")
        ff = ("f", ("this",), fd["q"])
        rs = [n.i for n in calls(g, L, lambda n: last(n.ev[0]) == "reset" and n.ev[0] != f.q and ff in values(g, n.ev[2]))]
        c.judge(bool(rs) and not L.path([g.entry.i], [g.exit.i], rs), "heap|" + fd["n"], "%s: FSHeap::reset() leaves %s filled" % (f.loc(), fd["n"]), "%s reset" % fd["n"])

def deserialise(prog, c):
    """reset first, indexes last"""
    hq = "uima::lowlevel::internal::Heap<"
    n0 = 0
    for f in prog.fns.values():
        if f.cls != CD or not f.name.startswith("deserialize") or not f.blocks: continue
        if not any((n.get("fn") or "").endswith("::deserializeIndexedFSs") for i, n in f.calls()): continue
        if f.name == "deserializeIndexedFSs": continue
        n0 += 1; c.fn(f)
        g = Graph(prog, f, inline=lambda t, fr: t.cls == CD and t.name != "deserializeIndexedFSs", depth=3); L = Loops(g)
        def isbase(o):
            return any(v is not None and ((v[0] == "call" and last(v[1]) == "getBaseCas") or (v[0] == "f" and last(v[2]) == "iv_baseCas") or v[0] == "param") for v in values(g, o))
        rs = [n.i for n in calls(g, L, lambda n: n.ev[0] == CAS + "::reset" and isbase(n.ev[2]))]
        heaps = calls(g, L, lambda n: n.ev[0].startswith(hq) and last(n.ev[0]) in ("reset", "increaseHeap", "setHeapValue", "addHeapValue"))
        idx = calls(g, L, lambda n: last(n.ev[0]) == "deserializeIndexedFSs")
        c.judge(bool(rs) and all(L.dom(n.i, rs) for n in heaps + idx), "first|" + f.u, "%s: %s fills the CAS without resetting it first: views the data does not mention keep their content" % (f.loc(), f.q), "%s resets first" % f.q)
        grow = [n for n in heaps if last(n.ev[0]) != "reset"]
        if len(grow) < 5: raise AnalysisBroken("heap fills in %s: %d" % (f.q, len(grow)))
        for n in idx:
            late = [h for h in heaps if L.path(L.succs(n.i), [h.i])]
            c.judge(not late, "last|" + f.u, "%s: FSs are indexed before %s is filled: sorted indexes compare keys that are not there yet" % (n.loc(), show(late[0].ev[2]) if late else ""), "%s indexes after all heaps" % f.q)
            c.judge(not L.path([g.entry.i], [n.i], rs), "idx|" + f.u, "%s: indexes are filled before the reset" % n.loc())
    if n0 < 2: raise AnalysisBroken("deserialisers: %d" % n0)
    # reset of each heap precedes filling it
    f = prog.fn(CD + "::deserializeIndexedFSs"); c.fn(f)

def tables(prog, c, muts):
    """tables of SerializedCAS: emptied by reset or overwritten as a whole by every filler"""
    f = prog.fn(SC + "::reset"); g = Graph(prog, f, inline=lambda t, fr: t.cls == SC, depth=3); L = Loops(g); c.fn(f)
    cont = [fd for fd in prog.classes[SC]["fields"] if fd["t"].startswith(("std::vector", "std::list", "std::map", "std::set"))]
    for fd in cont:
        c.count("tables")
        ff = ("f", ("this",), fd["q"])
        cl = [n.i for n in g.nodes if n.i in L.live and ((n.k == "call" and n.ev[2] == ff and last(n.ev[0]) in ("clear", "swap")) or (n.k == "call" and n.ev[2] == ff and last(n.ev[0]) == "resize" and num(prog, n.ev[3][0]) == 0) or (n.k == "set" and n.ev[0] == ff and n.ev[1] == "="))]
        ok = bool(cl) and not L.path([g.entry.i], [g.exit.i], cl)
        fillers = {x.u: x for x, n in muts.get(SC, {}).get(fd["n"], []) if x.d.get("kind") not in ("ctor", "dtor") and x.u != f.u}
        self_ = bool(fillers)
        for x in fillers.values():
            gx = Graph(prog, x); Lx = Loops(gx)
            m = [n for n in gx.nodes if n.i in Lx.live and ((n.k == "call" and n.ev[2] is not None and n.ev[0].startswith("std::") and last(n.ev[0]) not in NONMUT and rootfield(n.ev[2]) is not None and rootfield(n.ev[2])[2] == fd["q"]))]
            w = [n.i for n in m if last(n.ev[0]) in ("clear", "assign")]
            self_ = self_ and bool(w) and all(Lx.dom(n.i, w) for n in m if n.i not in w)
        c.judge(ok or self_, "table|" + fd["n"], "%s: %s is neither emptied by reset() nor overwritten by the functions that fill it: entries of the last CAS are sent again" % (f.loc(), fd["n"]), "%s is emptied" % fd["n"])

def entry(prog, c):
    """the reset entry point of the JNI interface resets the CAS and the serialised form"""
    fs = [f for f in prog.fns.values() if f.name.startswith("Java_") and f.name.endswith("_resetJNI")]
    if len(fs) != 1: raise AnalysisBroken("resetJNI: %d" % len(fs))
    f = fs[0]; c.fn(f); g = Graph(prog, f, inline=lambda t, fr: t.cls is None and t.file == f.file, depth=2); L = Loops(g)
    for q, what in ((CAS + "::reset", "the CAS"), (SC + "::reset", "the serialised form")):
        rs = [n.i for n in calls(g, L, lambda n: n.ev[0] == q)]
        ok = bool(rs)
        # it can be left out only where an error is reported to the caller instead
        err = [n.i for n in calls(g, L, lambda n: last(n.ev[0]).startswith("throwNew") or last(n.ev[0]) in ("ThrowNew", "Throw"))]
        ok = ok and not L.path([g.entry.i], [g.exit.i], rs + err)
        c.judge(ok, "jni|" + q, "%s: resetJNI can return without resetting %s" % (f.loc(), what), "resetJNI resets " + what)
