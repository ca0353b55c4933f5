"""C26: references into CAS storage are not used after the storage may have moved."""
import re
from .common import *
from sa.flow import facts_le

HQ = "uima::lowlevel::internal::Heap<"
REFCLS = "uima::UnicodeStringRef"

def reflike(t):
    t = t.replace("const ", "").strip()
    while t.endswith(("&", " const")): t = t[:-1].strip() if t.endswith("&") else t[:-6].strip()
    if t == REFCLS: return True
    if t.endswith("*"):
        b = t[:-1].replace("const", "").strip()
        return b in ("int", "unsigned int", "char", "signed char", "unsigned char", "short", "unsigned short", "char16_t", "long", "unsigned long", "double", "float", "bool", "void", "long long")
    return False

def run(prog, c):
    c.rule("a local, parameter or field that may point into a CAS heap of element type T (result of the heap-start accessor or of anything derived from it, interprocedurally; a string argument of an API function) is not dereferenced, passed on or returned after a call that may replace the block of a Heap<T> on some path, unless the path proves it lies outside that block")
    c.rule("no pointer into a CAS heap is stored in an object that outlives the call")
    startfields = {n["f"] for f in prog.fns.values() for n in f.nodes if n["k"] == "mem" and n.get("d") != "fn" and n["f"].startswith(HQ) and n["t"].rstrip().endswith("*")}
    # which functions replace the block of Heap<T>
    seeds = {}
    for f in prog.fns.values():
        if not f.q.startswith(HQ): continue
        cls = f.q.rsplit("::", 1)[0]; T = f.q[f.q.index("Heap<") + 5:f.q.index(">::")]
        if f.name in ("Heap", "~Heap") or f.name.startswith("~"): continue
        for i, n in enumerate(f.nodes):
            if n["k"] == "asg":
                m = f.nodes[f.strip(n["a"][0])]
                if m["k"] == "mem" and m["f"] in startfields:
                    seeds.setdefault(T, set()).add(f.u)
    # the view's own copy of the document text: pointer fields of CAS whose array is deleted, and their aliases
    CASQ = "uima::CAS::"
    docf = set()
    def memf(f, i):
        m = f.nodes[f.strip(i)]
        return m["f"] if m["k"] == "mem" and m.get("d") != "fn" else None
    for f in prog.fns.values():
        if f.cls != "uima::CAS": continue
        for i, n in enumerate(f.nodes):
            if n["k"] == "del":
                q = memf(f, n["s"])
                if q and q.startswith(CASQ) and "char16_t" in fieldtype(prog, q): docf.add(q); seeds.setdefault("document", set()).add(f.u)
    ch = True
    while ch:
        ch = False
        for f in prog.fns.values():
            if f.cls != "uima::CAS": continue
            for n in f.nodes:
                if n["k"] == "asg":
                    a, b = memf(f, n["a"][0]), memf(f, n["a"][1])
                    if b in docf and a and a not in docf: docf.add(a); ch = True
    seeds["document"] = {u for u in seeds.get("document", ()) if not prog.fns[u].name.startswith("~")}
    if not docf or not seeds["document"]: raise AnalysisBroken("no owned copy of the document text found")
    if not seeds: raise AnalysisBroken("no function replaces a heap block")
    c.count("block_replacing_functions", sum(len(x) for x in seeds.values()))
    callers = prog.callers()
    # heaps are told apart by the member that holds them
    hfields = {}
    for cl in prog.raw["classes"]:
        for x in cl["fields"]:
            m = re.search(r"internal::Heap<([^<>]+)>$", x["t"].replace("const ", "").strip())
            if m: hfields[x["q"]] = m.group(1)
    if len(hfields) < 3: raise AnalysisBroken("heap members: %s" % hfields)
    byT = {}
    for q, T in hfields.items(): byT.setdefault(T, set()).add(q)
    graphs = {}
    def graph(f):
        if f.u not in graphs: graphs[f.u] = Graph(prog, f, raw=True)
        return graphs[f.u]
    acc = {}
    for f in prog.fns.values():
        if "internal::Heap<" in f.d.get("rett", "") and f.d["rett"].rstrip().endswith(("&", "*")) and f.d.get("blocks"):
            r = set()
            for n in graph(f).nodes:
                if n.k == "ret" and n.ev[0] is not None and n.ev[0][0] == "f": r.add(n.ev[0][2])
            acc[f.q] = r if r and r <= set(hfields) else None
    def hids(obj, T):
        if obj is not None:
            if obj[0] == "f" and obj[2] in hfields: return {obj[2]}
            if obj[0] == "call" and acc.get(obj[1]): return acc[obj[1]]
        return byT.get(T, set())
    def elem(q): return q[q.index("Heap<") + 5:q.index(">::")]
    grow = {}
    seedu = {}
    for T, ss in seeds.items():
        if T == "document": grow[T] = set(ss); continue
        for u in ss: seedu[u] = T
    for f in prog.fns.values():
        if f.q.startswith(HQ) or not f.d.get("blocks"): continue
        if not any(n["k"] == "call" and n.get("u") in seedu for n in f.nodes): continue
        for n in graph(f).nodes:
            if n.k == "call" and n.ev[1] in seedu:
                for h in hids(n.ev[2], seedu[n.ev[1]]): grow.setdefault(h, set()).add(f.u)
    for T in grow:
        todo = list(grow[T]); g = grow[T]
        while todo:
            u = todo.pop()
            for f, i in callers.get(u, []):
                if T == "document" and f.d.get("kind") == "ctor": continue      # works on a new view
                if f.u not in g: g.add(f.u); todo.append(f.u)
    # methods of string refs that do not touch the characters / hand out the pointer
    harmless, passthru = set(), set()
    for f in prog.fns.values():
        if f.cls == REFCLS:
            touched = any(n["k"] == "mem" and n["f"].startswith(REFCLS + "::") and fieldtype(prog, n["f"]).endswith("*") for n in f.nodes) \
                or any(t.cls == REFCLS and t.u != f.u for i, t in prog.callees(f))
            if not touched and not f.name.startswith("operator="): harmless.add(f.q)
            if reflike(f.d.get("rett", "")): passthru.add(f.q)
    # summaries: functions returning a pointer into a heap of T; parameters that may
    src, ptaint, hsrc = {}, {}, set()
    def tsrc(fr, fm, env):
        """{(T, root)} a reference-like value may point into"""
        if fm is None or not isinstance(fm, tuple) or not fm: return set()
        k = fm[0]
        if fm in env: return set(env[fm])
        if k == "f":
            if fm[2] in startfields: return {(h, "heap") for h in hids(fm[1], elem(fm[2]))}
            if fm[2] in docf: return {("document", "heap")}
            return set()
        if k == "call":
            r = set()
            ts = hids(fm[2], elem(fm[1])) if fm[1] in hsrc else src.get(fm[1])
            if ts: r |= {(T, "heap") for T in ts}
            if fm[1] in passthru: r |= tsrc(fr, fm[2], env)
            return r
        if k == "ctor" and fm[1] == REFCLS:
            r = set()
            for a in fm[2]: r |= tsrc(fr, a, env)
            return r
        if k == "op" and fm[1] in ("+", "-", "u-"):
            a, b = tsrc(fr, fm[2], env), tsrc(fr, fm[3], env)
            return set() if a and b else a | b
        if k == "ite": return tsrc(fr, fm[2], env) | tsrc(fr, fm[3], env)
        if k == "idx": return {(T, "idx:" + r) for T, r in tsrc(fr, fm[1], env)}
        return set()
    def noidx(s): return {(T, r) for T, r in s if not r.startswith("idx:")}
    def ptr(s): return {(T, r[4:] if r.startswith("idx:") else r) for T, r in s}
    lib = [f for f in prog.fns.values() if f.file.startswith("src/") and not f.file.startswith("src/test")]
    def params0(f):
        env = {}
        for ix, p in enumerate(f.params):
            if not reflike(p["t"]): continue
            r = {(T, "arg:" + p["n"]) for T in ptaint.get((f.u, ix), ())}
            t = p["t"].replace("const", "").replace("&", "").strip()
            if t == REFCLS or (t == "char16_t *" and "const" in p["t"]): r |= {(h, "arg:" + p["n"]) for h in byT["char16_t"] | {"document"}}
            if r: env[("param", ix, p["n"])] = frozenset(r)
        return env
    # flow-insensitive summary fixpoint over functions that mention sources
    cand = [f for f in lib if f.d.get("blocks") and not f.q.startswith(HQ)]
    def interesting(f):
        return any((n["k"] == "mem" and (n.get("f") in startfields or n.get("f") in docf)) or (n["k"] == "call" and n.get("fn") in src) for n in f.nodes) or any((f.u, ix) in ptaint for ix in range(len(f.params)))
    for f in prog.fns.values():
        if f.q.startswith(HQ) and reflike(f.d.get("rett", "")):
            if any(n["k"] == "mem" and n.get("f") in startfields for n in f.nodes):
                src.setdefault(f.q, set()); hsrc.add(f.q)
    if not src: raise AnalysisBroken("no accessor of the heap start")
    def insens(f):
        g = graph(f); fr = g.frame
        types = f.ldefs()[2]
        env = {}
        for p, r in params0(f).items(): env[p] = {x for x in r}
        for ix, p in enumerate(f.params):
            if ("param", ix, p["n"]) in env: env[fr.varform(p["id"], p["n"])] = env[("param", ix, p["n"])]
        ch = True
        while ch:
            ch = False
            for n in g.nodes:
                if n.k == "set" and n.ev[0] is not None and n.ev[0][0] == "var" and reflike(types.get(n.ev[0][2], "")):
                    r = ptr(tsrc(fr, n.ev[2], env))
                    if r and not r <= env.get(n.ev[0], set()): env[n.ev[0]] = env.get(n.ev[0], set()) | r; ch = True
        return g, env
    ch, rounds = True, 0
    while ch:
        ch = False; rounds += 1
        for f in cand:
            if not interesting(f): continue
            g, env = insens(f)
            if reflike(f.d.get("rett", "")):
                for n in g.nodes:
                    if n.k == "ret" and n.ev[0] is not None:
                        for T, r in ptr(tsrc(g.frame, n.ev[0], env)):
                            if r == "heap" and T not in src.get(f.q, set()): src.setdefault(f.q, set()).add(T); ch = True
            for n in g.nodes:
                if n.k != "call" or not n.ev[1]: continue
                for t in prog.targets(n.ev[1], n.ev[4] if len(n.ev) > 4 else False):
                    for ix, a in enumerate(n.ev[3]):
                        if ix >= len(t.params) or a is None or not reflike(t.params[ix]["t"]): continue
                        for T, r in ptr(tsrc(g.frame, a, env)):
                            if r == "heap" and T not in ptaint.get((t.u, ix), set()): ptaint.setdefault((t.u, ix), set()).add(T); ch = True
    c.count("accessors_of_heap_pointers", len(src)); c.count("parameters_holding_heap_pointers", len(ptaint))
    # stores into long-lived objects
    for f in cand:
        if f.cls and f.cls.startswith(REFCLS): continue
        if not interesting(f) and not params0(f): continue
        g, env = insens(f)
        for n in g.nodes:
            if n.k == "set" and n.ev[0] is not None and n.ev[0][0] == "f" and reflike(fieldtype(prog, n.ev[0][2])):
                r = [x for x in ptr(tsrc(g.frame, n.ev[2], env)) if x[1] == "heap"]
                if n.ev[0][2] in docf: r = [x for x in r if x[0] != "document"]
                base = n.ev[0]
                while base[0] in ("f", "idx"): base = base[1]
                if base[0] == "var": continue
                c.judge(not r, "escape|%s|%s" % (f.q, n.ev[0][2]), "%s: %s keeps a pointer into the CAS heap of %s" % (n.loc(), n.ev[0][2], sorted(T for T, _ in r)))
    # flow-sensitive staleness
    for f in cand:
        gT = {}
        if any(n["k"] == "del" and memf(f, n["s"]) in docf for n in f.nodes): gT["document"] = {f.u}
        for i, t in prog.callees(f):
            for T, s in grow.items():
                if t.u in s or t.u in seedu: gT.setdefault(T, set()).add(t.u)
        if not gT: continue
        p0 = params0(f)
        if not interesting(f) and not p0: continue
        c.fn(f); c.count("functions_that_hold_and_grow")
        stale(prog, c, f, graph(f), p0, grow, tsrc, ptr, harmless, seedu, hids, docf)
    c.floor("functions_that_hold_and_grow", 5); c.floor("accessors_of_heap_pointers", 8)

def fieldtype(prog, q):
    cl, _, nm = q.rpartition("::")
    for k in prog.clsq.get(cl, []):
        for x in k["fields"]:
            if x["n"] == nm: return x["t"]
    return ""

def stale(prog, c, f, g, p0, grow, tsrc, ptr, harmless, seedu, hids, docf):
    fr = g.frame; types = f.ldefs()[2]
    # state: frozenset of (lvalue, T, root, stale)
    init = set()
    for p, r in p0.items():
        for T, root in r:
            init.add((p, T, root, False))
    for ix, p in enumerate(f.params):
        pf = ("param", ix, p["n"])
        if pf in p0 and fr.varform(p["id"], p["n"]) != pf:
            for T, root in p0[pf]: init.add((fr.varform(p["id"], p["n"]), T, root, False))
    def envof(us):
        e = {}
        for lv, T, root, s in us: e.setdefault(lv, set()).add((T, root))
        return e
    reported = set()
    nuses = [0]
    def uses(fm, st, out, top=True):
        """stale lvalues read by a form"""
        if not isinstance(fm, tuple) or not fm: return
        if fm in st: out.append(fm); return
        if fm[0] in ("call", "ctor"): return      # evaluated at its own node
        for x in fm[1:]:
            if isinstance(x, tuple):
                if x and isinstance(x[0], str): uses(x, st, out)
                else:
                    for y in x:
                        if isinstance(y, tuple): uses(y, st, out)
    def isstart(fm, env, T):
        return any(r == "heap" for t, r in tsrc(fr, fm, env) if t == T)
    def outside(facts, lvs, T, env):
        """do the path facts place one of the values outside the current block of Heap<T>?"""
        for d, b in facts_le(facts):
            it = list(d.items())
            pos = [x for x, k in it if k == 1]; negs = [x for x, k in it if k == -1]
            if len(it) == 2 and len(pos) == 1 and len(negs) == 1 and pos[0] in lvs and isstart(negs[0], env, T) and b <= -1: return True
            if len(it) == 3 and len(pos) == 2 and len(negs) == 1 and negs[0] in lvs and b <= 0 and any(isstart(x, env, T) for x in pos): return True
        return False
    def step(n, facts, us):
        st = {}
        for lv, T, root, s in us:
            if s: st[lv] = (T, root)
        forms = []
        if n.k == "call":
            q, u, obj, args = n.ev[:4]
            if not (q in harmless):
                if obj is not None: forms.append(obj)
            forms += [a for a in args if a is not None]
        elif n.k == "set":
            lhs, op, rhs = n.ev
            if rhs is not None: forms.append(rhs)
            if lhs is not None and lhs[0] in ("idx", "f"): forms += [x for x in lhs[1:] if isinstance(x, tuple)]
            if lhs is not None and op != "=": forms.append(lhs)
        elif n.k == "ret" and n.ev[0] is not None: forms.append(n.ev[0])
        for t, lab in n.succ:
            if lab is not None and len(lab) > 1 and isinstance(lab[1], tuple) and lab[0] != "eh": forms.append(lab[1])
        for fm in forms:
            out = []
            if st: uses(fm, st, out)
            for lv in out:
                nuses[0] += 1
                T, root = st[lv]
                c.bad("stale|%s|%s|%s" % (f.q, T, show(lv)), "%s: %s uses %s, which may point into the CAS heap of %s, after a call that can move that heap" % (n.loc(), f.q, show(lv), T))
        us2 = us
        if n.k == "set" and n.ev[0] is not None and n.ev[0][0] in ("var", "param"):
            lhs, op, rhs = n.ev
            if op == "=":
                r = ptr(tsrc(fr, rhs, envof(us))) if reflike(types.get(lhs[2] if lhs[0] == "var" else -1, "")) else set()
                us2 = frozenset([x for x in us if x[0] != lhs] + [(lhs, T, root, False) for T, root in r])
        elif n.k == "del":
            dm = n.ev[0] if n.ev else None
            if dm is not None and dm[0] == "f" and dm[2] in docf:
                us2 = frozenset((lv, T, root, True) if T == "document" else (lv, T, root, s) for lv, T, root, s in us)
        elif n.k == "call" and n.ev[1]:
            us3 = set()
            ts = {t.u for t in prog.targets(n.ev[1], n.ev[4] if len(n.ev) > 4 else False)}
            for x in us:
                lv, T, root, s = x
                if not s and (ts & grow.get(T, set()) or (n.ev[1] in seedu and T in hids(n.ev[2], seedu[n.ev[1]]))):
                    env = envof(us)
                    lvs = {y[0] for y in us if y[2] == root and y[1] == T} if root != "heap" else {lv}
                    c.ok("%s: %s is held across a call that may move the %s heap" % (n.loc(), show(lv), T))
                    if outside(facts, lvs, T, env): us3.add(x)
                    else: us3.add((lv, T, root, True))
                else: us3.add(x)
            us2 = frozenset(us3)
        return [(facts, us2)]
    explore(g, ustate=frozenset(init), step=step, facts=True, limit=24)
    c.ok()
