"""C10: an XCAS or XMI document, however malformed, leaves a well-formed CAS or is refused: no subscript out of range, no ID left where an address belongs."""
import re
from .common import *
from sa.flow import entails_le, ul
from sa.loops import *
from sa.absint import AI
from .c09 import last, values

XC, XM, SD = "uima::XCASDeserializerHandler", "uima::XmiDeserializerHandler", "uima::XmiSerializationSharedData"
FILES = re.compile(r"(xcasdeserializer|xmideserializer|xmishareddata)\w*\.[ch]pp$")
NUMBER = {"atoi", "atol", "atoll", "strtol", "strtoul", "strtoll", "strtoull", "stoi", "stol", "stoll", "stoul", "sscanf"}
OTHER, STRSUB = 900001, 900002
RAW, RES, OLD, END, NIL = ("raw",), ("res",), ("old",), ("end",), ("nil",)      # ID; entry/address found for it; stale; past the end; through a null entry

def run(prog, c):
    c.rule("a subscript of a vector or array, a pointer into array storage and a heap cell offset in the XML readers is reached only with an index proven inside (branch facts of every path, with the calling functions where the index is a parameter)")
    c.rule("for every range kind and multipleReferencesAllowed setting, the reader leaves a document ID in a reference cell iff the pass at the end of the document replaces it, on every path, by 0 or by the address found for it (abstract interpretation of reader and finalizer over all kinds)")
    c.rule("every FS and array an element creates is entered exactly once into a collection that the end of the document works through completely, with a finalizer that resolves it; a document ID is never used as address")
    c.rule("the handlers' per-element state: over all sequences of start and end events nothing that belongs to an FS element before the current one is used")
    c.rule("an attribute that may be missing is used only where a null string is allowed; a Sofa number read from an FS is used only if that FS is a Sofa and the number has a view")
    c.assumptions += ["Xerces calls startElement/endElement in properly nested order for well-formed XML and calls fatalError otherwise"]
    fns = [f for f in prog.fns.values() if FILES.search(f.file) and f.blocks]
    if len(fns) < 30: raise AnalysisBroken("XML reader functions: %d" % len(fns))
    subscripts(prog, c, fns)
    nullable(prog, c, fns)
    for cls in (XC, XM):
        ids(prog, c, cls)
        registration(prog, c, cls)
        elements(prog, c, cls)
    sofanumbers(prog, c, fns)

# ------------------------------------------------------------------ subscripts
VEC = ("std::vector<", "std::basic_string<", "std::deque<", "std::array<")
def ownfile(f):
    return lambda t, fr: (t.cls == f.cls and t.cls is not None and t.d.get("kind") == "method") or (t.cls is None and t.file == f.file)

def size_forms(facts, v, prog):
    out = set()
    for fa in facts:
        for z in fact_forms(fa):
            for y in subforms(z):
                if isinstance(y, tuple) and len(y) > 3 and y[0] == "call" and y[2] == v and last(y[1]) in ("size", "length"): out.add(y)
    return out

def in_range(facts, v, i, prog, unsigned=False):
    def le(a, k):
        d, cc = lin(ul(a)); return entails_le(facts, d, k - cc)
    i = unconv(i)
    ok = False
    if i[0] == "int":
        if i[1] < 0: return False
        if i[1] == 0:
            for fa in facts:
                if fa[0] == "nb" and fa[1][0] == "call" and last(fa[1][1]) == "empty" and fa[1][2] == v: return True
    for s in size_forms(facts, v, prog):
        if le(("op", "-", i, s), -1): ok = True
    return ok and (unsigned or le(("op", "-", ("int", 0), i), 0))

def idxtype(f, nid):
    n = f.nodes[f.strip(nid)] if nid is not None else {}
    return n.get("t", "")

def indexing(g):
    """(node, container, index, container's kind) of the unchecked element accesses in a graph"""
    for n in g.nodes:
        if n.k == "call" and n.ev[0] and last(n.ev[0]) == "operator[]" and n.ev[0].startswith(VEC) and len(n.ev[3]) == 1:
            yield n, n.ev[2], n.ev[3][0], "vector"

def nonneg(prog, g, n, i):
    """the index cannot be negative by its type: a loop counter from 0 upwards, or an unsigned value that was not converted from a signed one"""
    i = unconv(i)
    if i[0] == "int": return i[1] >= 0
    if i[0] == "var":
        ds = [m for m in g.nodes if m.k == "set" and m.ev[0] == i]
        return bool(ds) and all((m.ev[1] == "=" and m.ev[2] is not None and m.ev[2][0] == "int" and m.ev[2][1] >= 0) or m.ev[1] in ("++",) or (m.ev[1] == "+=" and m.ev[2][0] == "int" and m.ev[2][1] >= 0) for m in ds)
    return False

def grown(facts_at, n): return False

_nr = {}
def never_returns(prog, t):
    """every path of a small function ends in a throw"""
    if not FILES.search(t.file) or not t.blocks: return False
    if (id(prog), t.u) not in _nr:
        g = Graph(prog, t); seen = {g.entry.i}; todo = [g.entry]
        while todo:
            for x, l in todo.pop().succ:
                if x.i not in seen: seen.add(x.i); todo.append(x)
        _nr[(id(prog), t.u)] = not any(g.nodes[i].k == "exit" for i in seen)
    return _nr[(id(prog), t.u)]

def subscripts(prog, c, fns):
    callers = prog.callers()
    graphs = {}
    def check(root, inl, only):
        """locations of unproven subscripts in the graph of root; only: just those in this function"""
        a, b = checkg(root, inl, only, False), checkg(root, inl, only, True)        # with locals replaced by their values, and as they are
        return {k: [(x[0] or all(y[0] for y in b.get(k, [(False,)])),) + x[1:] for x in l] for k, l in a.items()}
    def checkg(root, inl, only, raw):
        g = Graph(prog, root, inline=lambda t, fr: inl is not None and inl(t, fr) or never_returns(prog, t), depth=4, raw=raw)
        L = Loops(g)
        sites = [(n, v, i) for n, v, i, k in indexing(g) if n.i in L.live and (only is None or n.fr.fn.u == only)]
        raws = list(pointer_sites(prog, g, L, only))
        if not sites and not raws: return {}
        r = explore(g, ustate=frozenset(), step=lambda n, facts, us: [(facts, sized_by(n, us))])
        bad = {}
        for n, v, i in sites:
            okall = n.i in r.at
            for facts, us in r.at.get(n.i, ()):
                o = in_range(facts, v, i, prog, nonneg(prog, g, n, i)) or grown_to(us, facts, v, i, prog)
                okall = okall and o
            bad.setdefault((n.fr.fn.u, n.nid), []).append((okall, n, "%s[%s]" % (show(v), show(i))))
        for n, what, bound in raws:
            okall = n.i in r.at and all(bound(facts) for facts, us in r.at.get(n.i, ()))
            bad.setdefault((n.fr.fn.u, n.nid), []).append((okall, n, what))
        return bad
    for f in sorted(fns, key=lambda f: f.u):
        res = check(f, None, None)
        if not res: continue
        c.fn(f)
        for key, l in sorted(res.items(), key=str):
            if all(o for o, n, w in l):
                c.ok("%s: %s" % (l[0][1].loc(), l[0][2][:80])); c.count("subscripts"); continue
            # the range may be established by the callers
            o, n, w = [x for x in l if not x[0]][0]
            cs = {x.u: x for x, i in callers.get(f.u, []) if x.u != f.u}
            done = bool(cs)
            for x in cs.values():
                rr = check(x, lambda t, fr: t.u == f.u, f.u)
                sub = [y for k, yl in rr.items() if k == key for y in yl]
                if not sub or not all(y[0] for y in sub): done = False
            c.count("subscripts")
            c.judge(done, "range|%s|%s" % (f.q, w[:60]), "%s: nothing on some path keeps the index of %s inside" % (n.loc(), w))
    c.floor("subscripts", 8)

def sized_by(n, us):
    """user state: {(container, size form)} after resize, and containers that just got an element"""
    if n.k == "call" and n.ev[0] and n.ev[2] is not None and n.ev[0].startswith("std::"):
        m = last(n.ev[0])
        if m in ("resize",): return frozenset({x for x in us if x[0] != n.ev[2]} | {(n.ev[2], n.ev[3][0])})
        if m in ("push_back", "emplace_back"): return us
        if m in ("clear", "pop_back", "erase", "assign", "swap", "operator="): return frozenset(x for x in us if x[0] != n.ev[2])
    if n.k == "set" and us:
        return frozenset(x for x in us if not contains(x[1], n.ev[0]) and not contains(x[0], n.ev[0]))
    return us

def grown_to(us, facts, v, i, prog):
    for x, s in us:
        if x == v:
            d, cc = lin(ul(("op", "-", unconv(i), unconv(s))))
            lo, lc = lin(ul(("op", "-", ("int", 0), unconv(i))))
            if entails_le(facts, d, -1 - cc) and entails_le(facts, lo, -lc): return True
    return False

def pointer_sites(prog, g, L, only):
    """element storage of an array FS: p[i] with p from getCArrayFromFS(a); heap cells a + 2 + i"""
    SIZEQ = HEAP + "getArraySize"
    def arrays(facts, a):
        out = set()
        for fa in facts:
            for z in fact_forms(fa):
                for y in subforms(z):
                    if isinstance(y, tuple) and len(y) > 3 and y[0] == "call":
                        if last(y[1]) in ("getArraySize",) and y[3] and y[3][-1] == a: out.add(y)
                        if last(y[1]) == "getHeapValue" and lin(ul(("op", "-", y[3][0], a))) == ({}, 1): out.add(y)
        return out
    def bound(a, i):
        def ok(facts):
            for s in arrays(facts, a):
                d, cc = lin(ul(("op", "-", unconv(i), unconv(s))))
                lo, lc = lin(ul(("op", "-", ("int", 0), unconv(i))))
                if entails_le(facts, d, -1 - cc): return True
            return False
        return ok
    for n in g.nodes:
        if n.i not in L.live or (only is not None and n.fr.fn.u != only): continue
        fms = [n.ev[0], n.ev[2]] if n.k == "set" else list(n.ev[3]) if n.k == "call" else []
        for fm in fms:
            for y in subforms(fm) if fm is not None else ():
                if isinstance(y, tuple) and y and y[0] == "idx" and isinstance(y[1], tuple) and y[1][0] == "call" and last(y[1][1]) == "getCArrayFromFS":
                    yield n, "element storage of an array [%s]" % show(y[2]), bound(y[1][3][-1], y[2])
        if n.k == "call" and n.ev[0] and last(n.ev[0]) in ("setHeapValue", "getHeapValue") and n.ev[3]:
            d, k = lin(ul(n.ev[3][0]))
            if k >= 2 and len(d) >= 2:
                cand = [x for x in d if x[0] == "var" and any(m.k == "set" and m.ev[0] == x and m.ev[1] == "++" for m in g.nodes)]
                if len(cand) == 1 and d[cand[0]] == 1:
                    rest = [x for x in d if x != cand[0]]
                    if len(rest) == 1 and d[rest[0]] == 1:
                        i = cand[0] if k == 2 else ("op", "+", cand[0], ("int", k - 2))
                        yield n, "heap cell %s" % show(n.ev[3][0]), bound(rest[0], i)

# ------------------------------------------------------------------ attributes that may be missing
def nullable(prog, c, fns):
    NULLOK = ("uima::UnicodeStringRef", "icu_74::UnicodeString")
    for f in sorted(fns, key=lambda f: f.u):
        if not any(n["k"] == "call" and str(n.get("fn", "")).endswith("Attributes::getValue") for n in f.nodes): continue
        g = Graph(prog, f); L = Loops(g); c.fn(f)
        srcs = {}
        for n in g.nodes:
            if n.k == "call" and n.i in L.live and n.ev[0] and n.ev[0].endswith("Attributes::getValue") and "unsigned long" not in n.ev[1]:
                srcs[("call", n.ev[0], n.ev[2], n.ev[3])] = n
        if not srcs: continue
        tainted = set(srcs)
        for n in g.nodes:
            if n.k == "set" and n.ev[0] is not None and n.ev[0][0] == "var" and n.ev[2] in tainted: tainted.add(n.ev[0])
        r = explore(g)
        for n in g.nodes:
            if n.i not in L.live: continue
            if n.k == "call":
                q = n.ev[0] or ""
                use = [a for a in n.ev[3] if a in tainted]
                if not use: continue
                c.count("optional_attributes")
                ok = re.sub(r"icu_\d+", "icu_74", q.rsplit("::", 1)[0]) in NULLOK and last(q) in ("UnicodeStringRef", "UnicodeString")
                for a in use:
                    if not ok:
                        nz = atom(("cmp", "!=", a, ("int", 0)), prog)
                        ok = all(holds(facts, nz[0], nz[1]) is True for facts, us in r.at.get(n.i, ()))
                    c.judge(ok, "null|%s|%s" % (f.q, last(q)), "%s: the value of an attribute that may be missing (NULL) goes to %s" % (n.loc(), q), "%s: %s accepts a missing attribute" % (n.loc(), last(q)))
            elif n.k in ("set", "br", "ret"):
                for fm in [x for x in n.ev if isinstance(x, tuple)]:
                    for y in subforms(fm):
                        if isinstance(y, tuple) and y and y[0] in ("idx", "deref") and y[1] in tainted:
                            c.bad("null|%s|deref" % f.q, "%s: the value of an attribute that may be missing is dereferenced" % n.loc())

# ------------------------------------------------------------------ IDs and addresses
def typecodes(prog):
    return {q.rsplit("::", 1)[-1]: v for q, v in prog.gcv.items() if re.match(r"uima::internal::gs_ty\w+Type$", q) and isinstance(v, int)}

class Kinds:
    """what TypeSystem's type predicates say about a type code (their own bodies, interpreted)"""
    def __init__(self, prog):
        self.prog = prog; self.memo = {}
        self.string = typeconst(prog, "gs_tyStringType")
    def ask(self, q, k):
        m = self.memo.get((q, k), 0)
        if m != 0: return m
        fs = [f for f in self.prog.byq.get(q, []) if f.d["rett"] == "bool" and len(f.params) == 1 and f.blocks]
        r = None
        if len(fs) == 1 and k is not None:
            self.memo[(q, k)] = None
            g = Graph(self.prog, fs[0])
            me = self
            class O(Base):
                def leaf(s, f):
                    if f[0] == "param": return k
                    return Base.leaf(s, f)
            vals = {e.get(("result",)) for n, e in KAI(g, O(self.prog, self)).run() if n.k == "exit"}
            if len(vals) == 1: r = vals.pop()
        self.memo[(q, k)] = r
        return r

class KAI(AI):
    def __init__(self, g, o, init=None, maxstates=400000):
        AI.__init__(self, g, o, init, maxstates)
    def val(self, f, env):
        if f is None: return None
        if f in env: return env[f]
        k = f[0]
        if k in ("f", "deref", "arrow"):
            for y in f[1:]:
                if isinstance(y, tuple) and y and y[0] not in ("this",):
                    v = self.val(y, env)
                    if v == RES: return RES
                    if v in (END, NIL) or (v == 0 and y[0] not in ("int",)): return NIL
        if k == "idx":
            if self.val(f[2], env) in (RAW, RES): return RES if self.o.found else 0
            if self.val(f[1], env) == RES: return RES
        if k == "ctor":
            vs = [self.val(x, env) for x in f[2]]
            if RAW in vs: return RAW
            if len(vs) == 1 and vs[0] is not None: return vs[0]
            return self.o.leaf(f)
        if k == "ite" and self.truth(f[1], env) is None:
            vs = {self.val(f[2], env), self.val(f[3], env)}
            if vs <= {0, RES}: return RES
            if RAW in vs: return RAW
            if NIL in vs: return NIL
        if k == "op":
            vs = [self.val(x, env) for x in f[2:]]
            if RAW in vs: return RAW
            if RES in vs: return None
        return AI.val(self, f, env)

class Base:
    found = True                # is there an FS with the ID that is looked up?
    def __init__(self, prog, kinds, found=True): self.prog = prog; self.kinds = kinds; self.found = found
    def cmp(self, op, a, b):
        if op in ("==", "!=") and {a, b} <= {RES, END, 0} and (END in (a, b) or RES in (a, b)): return (a == b) == (op == "==") if a != b or a == END else None
        if a == RES and isinstance(b, int): return {">": b <= 0 or None, ">=": b <= 1 or None, "<": False if b <= 1 else None, "<=": False if b <= 0 else None}.get(op)
        if b == RES and isinstance(a, int): return {"<": a <= 0 or None, "<=": a <= 1 or None, ">": False if a <= 1 else None, ">=": False if a <= 0 else None}.get(op)
        for x, y in ((a, b), (b, a)):
            if x == RAW and y == 0 and op in ("==", "!="): return op == "!="        # the ID of an FS is not 0
        return None
    def leaf(self, f):
        if f[0] in ("g", "enum"):
            v = self.prog.gcv.get(f[1]) if f[0] == "g" else f[2]
            return v if isinstance(v, int) else None
        return None
    def call(self, f, args, rec):
        nm = last(f[1] or "")
        if nm in NUMBER: return RAW
        if nm in ("demoteType", "promoteType", "Type") and args: return args[0]
        if nm == "subsumes" and len(args) == 2 and args[0] == self.kinds.string:
            return None if args[1] is None else int(args[1] in (self.kinds.string, STRSUB))
        if nm == "getParentType" and args and args[0] is not None: return self.kinds.string if args[0] == STRSUB else -1
        if nm in ("at", "operator[]") and RAW in args: return RES if self.found else 0
        if nm == "find" and RAW in args: return RES if self.found else END
        if nm == "end" and f[2] is not None and ("std::map" in f[1] or "std::unordered_map" in f[1]): return END
        if nm in ("count",) and RAW in args: return int(self.found)
        if nm in ("operator->", "operator*") and f[2] is not None: return rec(f[2])
        if f[1] in self.prog.byq and len(args) == 1 and isinstance(args[0], int):
            r = self.kinds.ask(f[1], args[0])
            if r is not None: return r
        if f[2] is not None and not args and f[1] in self.prog.byq:
            o = rec(f[2])
            if isinstance(o, int) and nm.startswith("is"):
                if nm == "isValid": return 1
                return self.kinds.ask("uima::TypeSystem::" + nm, o)
            if o == RES: return RES
        return None
    def throws(self, n): return n.k == "call" or n.k == "throw"

def typed(prog, f, sugar):
    return [ix for ix, p in enumerate(f.params) if re.search(sugar, p.get("ts", p["t"]))]

def ids(prog, c, cls):
    K = Kinds(prog)
    codes = typecodes(prog)
    if len(codes) < 25: raise AnalysisBroken("built-in type codes: %d" % len(codes))
    kinds = {n[5:-4]: v for n, v in codes.items()}
    kinds["(user type)"] = OTHER; kinds["(string subtype)"] = STRSUB
    short = cls.rsplit("::", 1)[-1]
    def inl(t, fr): return (t.cls in (cls, SD) and t.d.get("kind") == "method") or (t.cls is None and FILES.search(t.file))
    # the reader: what a feature of range kind k gets
    def slot(n, ai, env):
        """('feat'|'elem', value, args) if this call writes a reference cell"""
        if n.k != "call" or not n.ev[0]: return None
        q, a = n.ev[0], n.ev[3]; nm = last(q)
        if nm in ("setFeatureInternal", "setFSValue") and len(a) >= 2:
            if isinstance(ai.val(a[-2], env), int): return "list", ai.val(a[-1], env), a      # a fixed feature of a list node
            return "feat", ai.val(a[-1], env), a
        if nm == "setHeapValue" and len(a) == 2: return "elem", ai.val(a[1], env), a
        if nm == "set" and "ArrayFS" in q and len(a) == 2: return "elem", ai.val(a[1], env), a
        return None
    def addresses(f, n, ai, env):
        """document IDs handed to something that takes an address"""
        if n.k != "call" or not n.ev[1]: return
        t = prog.fns.get(n.ev[1])
        if t is None or t.cls == cls: return
        for ix, (p, a) in enumerate(zip(t.params, n.ev[3])):
            if re.search(r"TyFS$|TyFS &$", p.get("ts", p["t"]).replace("const ", "")) and ai.val(a, env) == RAW:
                if slot(n, ai, env) and ix == len(t.params) - 1: continue
                if t.d.get("kind") == "ctor" and t.cls == "uima::FeatureStructure": continue   # only the carrier of an array element; its use is judged
                c.bad("id as address|%s|%s" % (n.fr.fn.q, last(n.ev[0])), "%s: an ID of the document goes to %s as address" % (n.loc(), n.ev[0]))
        if n.ev[2] is not None and t.cls in ("uima::FeatureStructure", "uima::AnnotationFS", "uima::SofaFS") and ai.val(n.ev[2], env) == RAW:
            c.bad("id as address|%s|%s" % (n.fr.fn.q, last(n.ev[0])), "%s: %s is called for an FS whose address is an ID of the document" % (n.loc(), n.ev[0]))
    heads = {f.u: f for f in prog.fns.values() if f.cls == cls and f.blocks and any(x["k"] == "call" and last(str(x.get("fn", ""))) in ("setFeatureInternal",) for x in f.nodes)}
    readers = [f for f in prog.fns.values() if f.cls == cls and f.blocks and f.name == "handleFeature"]
    if not readers: raise AnalysisBroken("%s: no feature reader" % short)
    finals = [f for f in prog.fns.values() if f.cls == cls and f.blocks and f.name == "finalizeFS"]
    if len(finals) != 1: raise AnalysisBroken("%s: no finalizer" % short)
    fin = finals[0]
    readgraphs = [Graph(prog, f, inline=inl, depth=5, eh="try") for f in readers]
    fgraph = Graph(prog, fin, inline=inl, depth=4, eh="try"); fL = Loops(fgraph)
    c.fn(fin)
    for f in readers: c.fn(f)
    def ranges(n, env, k):
        """getRangeType(Type &) sets its argument"""
        if n.k == "call" and n.ev[0] and last(n.ev[0]) == "getRangeType" and n.ev[3]:
            env = dict(env); env[n.ev[3][0]] = k; return env
        return None
    # loop over the features in the finalizer
    rng = [n for n in fgraph.nodes if n.k == "call" and n.i in fL.live and n.ev[0] and last(n.ev[0]) == "getRangeType"]
    if not rng: raise AnalysisBroken("%s: no loop over the features" % fin.q)
    floop = fL.innermost(rng[0])
    if floop is None: raise AnalysisBroken("%s: no loop over the features" % fin.q)
    it = fL.iteration(floop)
    c.judge(it is not None and it.full(), "all features|%s" % short, "%s: the pass over the features of an FS does not reach each of them (%s)" % (rng[0].loc(), it.why() if it is not None else "no counter"), "%s: all appropriate features" % rng[0].loc())
    appr = [n for n in fgraph.nodes if n.k == "call" and n.i in fL.live and n.ev[0] and last(n.ev[0]) == "getAppropriateFeatures"]
    c.judge(bool(appr) and it is not None and all(unconv(n.ev[3][0]) == unconv(it.cont) for n in appr), "appropriate|%s" % short, "%s: the features gone through are not the appropriate ones of the type" % rng[0].loc())
    for kn, k in sorted(kinds.items()):
        for multi in (0, 1):
            class O(Base):
                def call(s, f, args, rec):
                    nm = last(f[1] or "")
                    if nm == "isMultipleReferencesAllowed": return multi
                    if nm == "getFeatureInternal": return RAW
                    if nm == "isValid": return 1
                    return Base.call(s, f, args, rec)
            # --- reading
            got = set(); where = {}
            for f, g in zip(readers, readgraphs):
                init = {}
                for ix in typed(prog, f, r"TyFSType$"): init[("param", ix, f.params[ix]["n"])] = k
                ai = KAI(g, O(prog, K), init)
                def visit(n, env):
                    s = slot(n, ai, env)
                    if s is not None and s[0] == "feat":
                        w = "id" if s[1] == RAW else "address"
                        got.add(w); where.setdefault(w, n.loc())
                    addresses(f, n, ai, env)
                    return ranges(n, env, k)
                ai.run(visit)
            # --- finalizing an FS with a feature of that range
            class OF(O):
                def call(s, f, args, rec):
                    nm = last(f[1] or "")
                    if nm == "getRangeType": return None
                    if nm == "isArrayType" and f[3] and args[0] is None: return 0        # the FS is no array: those are below
                    return O.call(s, f, args, rec)
            out = []
            def visit(n, env):
                r = ranges(n, env, k)
                if r is not None:
                    r[("in",)] = 1; r.pop(("done",), None); return r
                if n.i == floop.head and env.get(("in",)):
                    out.append(env.get(("done",), "left")); env = dict(env); env.pop(("in",)); return env
                s = slot(n, ai, env)
                addresses(fin, n, ai, env)
                if s is not None and s[0] == "feat" and n.i in floop.body:
                    env = dict(env)
                    env[("done",)] = "resolved" if s[1] in (0, RES) else "wrong"
                    return env
                return None
            for found in (True, False):
                ai = KAI(fgraph, OF(prog, K, found)); ai.run(visit)
            if not out: raise AnalysisBroken("%s: feature of kind %s not followed" % (fin.q, kn))
            c.count("kind_cases")
            for o in out:
                if o == "wrong": c.bad("finalize|%s|%s" % (short, kn), "%s: a feature of range %s gets a value that is neither 0 nor the address found for its ID" % (rng[0].loc(), kn))
            c.judge("id" not in got or set(out) == {"resolved"}, "unresolved|%s|%s|%d" % (short, kn, multi),
                    "%s: a feature of range %s (multipleReferencesAllowed %s) keeps the document's ID as address: %s leaves it" % (where.get("id"), kn, bool(multi), fin.q),
                    "%s: range %s, multi %d: ID %s" % (short, kn, multi, "resolved" if "id" in got else "not stored"))
            if "id" not in got and "address" in got:
                c.judge(set(out) == {"left"}, "doubly|%s|%s|%d" % (short, kn, multi),
                        "%s: a feature of range %s (multipleReferencesAllowed %s) holds an address which %s takes for an ID" % (where.get("address"), kn, bool(multi), fin.q))
            c.judge(not ("id" in got and "address" in got), "mixed|%s|%s|%d" % (short, kn, multi), "%s: a feature of range %s gets an ID here, an address there (%s)" % (where.get("id"), kn, where.get("address")))
    # --- array elements
    adders = [f for f in prog.fns.values() if f.cls == cls and f.blocks and f.name == "addArrayElement"]
    if not adders: raise AnalysisBroken("%s: no array reader" % short)
    arrays = {n: v for n, v in kinds.items() if K.ask("uima::TypeSystem::isArrayType", v)}
    if len(arrays) < 9: raise AnalysisBroken("array kinds: %s" % sorted(arrays))
    elemloops = [lp for lp in fL.loops.values() if any(n.k == "call" and n.i in lp.body and n.ev[0] and last(n.ev[0]) == "setHeapValue" for n in fgraph.nodes)]
    for kn, k in sorted(arrays.items()):
        got = set(); loc = None
        for f in adders:
            g = Graph(prog, f, inline=inl, depth=4, eh="try"); c.fn(f)
            init = {("param", ix, f.params[ix]["n"]): k for ix in typed(prog, f, r"TyFSType$")}
            for n in g.nodes:
                for t, l in n.succ:
                    if l is not None and l[0] == "case" and any(x in codes.values() for x in l[2]) and l[1] is not None: init[l[1]] = k
            if not init: raise AnalysisBroken("%s: where is the array's type?" % f.q)
            ai = KAI(g, Base(prog, K), init)
            def visit(n, env):
                nonlocal loc
                s = slot(n, ai, env)
                if s is not None and s[0] == "elem" and s[1] == RAW and isref(prog, n):
                    got.add("id"); loc = n.loc()
                addresses(f, n, ai, env)
            ai.run(visit)
        out = []
        class OA(Base):
            def call(s, f, args, rec):
                nm = last(f[1] or "")
                if nm == "getType": return k
                if nm == "getHeapValue": return RAW
                return Base.call(s, f, args, rec)
        body = set().union(*[lp.body for lp in elemloops]) if elemloops else set()
        hd = {lp.head for lp in elemloops}
        reads = {n.i for n in fgraph.nodes if n.k == "call" and n.i in body and n.ev[0] and last(n.ev[0]) == "getHeapValue"}
        started = []
        def visit(n, env):
            if n.i in hd:
                started.append(1)
                if env.get(("in",)):
                    out.append(env.get(("done",), "left")); env = dict(env); env.pop(("in",)); env.pop(("done",), None); return env
            s = slot(n, ai, env)
            addresses(fin, n, ai, env)
            if n.i in reads: env = dict(env); env[("in",)] = 1; return env
            if s is not None and s[0] == "elem" and n.i in body:
                env = dict(env); env[("done",)] = "resolved" if s[1] in (0, RES) else "wrong"; return env
            return None
        for found in (True, False):
            ai = KAI(fgraph, OA(prog, K, found)); ai.run(visit)
        c.count("kind_cases")
        if "wrong" in out: c.bad("finalize|%s|%s" % (short, kn), "%s: an element of %s gets a value that is neither 0 nor the address found for its ID" % (fin.loc(), kn))
        c.judge("id" not in got or (bool(out) and set(out) == {"resolved"}), "unresolved|%s|%s" % (short, kn), "%s: an element of a %s keeps the document's ID as address: %s leaves it" % (loc, kn, fin.q),
                "%s: elements of %s: %s" % (short, kn, "resolved" if "id" in got else "no IDs"))
        if "id" in got:
            for lp in elemloops:
                c.judge(counts_up(fL, lp), "all elements|%s" % short, "%s: the pass over an array's elements does not reach each of them" % fin.loc())
    c.floor("kind_cases", 60)

def counts_up(L, lp):
    """for (i = 0; i < size of the array; i++), and no other way out"""
    g = L.g
    ex = [(n, exitcond(l)) for n, t, l in L.exits(lp) if not L.throws(t.i)]
    for n, x in ex:
        if x is None or x[0] != "cmp": return False
        op, a, b = x[1], unconv(x[2]), unconv(x[3])
        if op == "<=": op, a, b = ">=", b, a
        if op not in (">=", "==") or a[0] != "var": return False
        vs = values(g, b)
        if not all(v is not None and (lambda y: y[0] == "call" and (last(y[1]) == "getArraySize" or (last(y[1]) == "getHeapValue" and lin(ul(y[3][0]))[1] == 1)))(unconv(v)) for v in vs): return False
        ins = [m for m in g.nodes if m.k == "set" and m.ev[0] == a and m.i in L.live]
        steps = [m.i for m in ins if m.i in lp.body and effect(m, a) == "step"]
        if any(m.i in lp.body and m.i not in steps for m in ins): return False
        starts = [m for m in ins if m.i not in lp.body]
        if not starts or any(m.ev[2] != ("int", 0) or m.ev[1] != "=" for m in starts): return False
        if L.cycle_avoids(lp, steps) or any(L.path(L.succs(s), steps, [lp.head], within=lp.body) for s in steps): return False
    return len(ex) == 1

def isref(prog, n):
    """the array operation takes an FS"""
    t = prog.fns.get(n.ev[1])
    if last(n.ev[0]) == "setHeapValue": return True
    return "FeatureStructure" in n.ev[1]

# ------------------------------------------------------------------ every FS made is finalized
NEW = ("new",)
def inl_all(cls, keep=()):
    return lambda t, fr: ((t.cls == cls and t.d.get("kind") == "method") or (t.cls is None and FILES.search(t.file))) and t.name not in keep

def collections(prog, c, cls):
    """collection field -> finalizer: what the end of the document goes through"""
    f = prog.fn(cls + "::endDocument"); c.fn(f)
    g = Graph(prog, f, inline=lambda t, fr: t.cls == cls and not any(n["k"] == "call" and last(str(n.get("fn", ""))) in ("setFSValue", "setFeatureInternal", "setHeapValue") for n in reachnodes(prog, t)), depth=2)
    L = Loops(g)
    out = {}
    for lp in L.loops.values():
        it = L.iteration(lp)
        if it.cont is None or it.cont[0] != "f": continue
        cs = [n for n in g.nodes if n.k == "call" and n.i in lp.body and n.i in L.live and n.ev[1] in prog.fns and prog.fns[n.ev[1]].cls == cls and n.ev[3]]
        for n in cs:
            a = n.ev[3][0]
            if not any(it.iselem(y) or (y[0] == "call" and last(y[1]) in ("at", "operator*") ) for y in [unconv(a)] + [z for z in subforms(a) if isinstance(z, tuple) and z and isinstance(z[0], str) and (z[0] == "f" or z[0] == "idx" or (z[0] == "call" and len(z) > 3))]): continue
            el = [z for z in subforms(a) if isinstance(z, tuple) and z and (it.iselem(z) or (z[0] == "call" and len(z) > 3 and last(z[1]) in ("at",) and z[3] == (it.var,) and z[2] == it.cont))]
            if not el: continue
            out[it.cont] = prog.fns[n.ev[1]]
            c.judge(it.full(), "end of document|%s|%s" % (cls, last(it.cont[2])), "%s: the end of the document does not go through all of %s (%s)" % (n.loc(), show(it.cont), it.why()), "%s: all of %s" % (n.loc(), show(it.cont)))
            # it is skipped only for a null entry
            for i in sorted(lp.body):
                m = g.nodes[i]
                for t, l in m.succ:
                    if l is None or l[0] != "t" or t.i not in lp.body or m.i == it.br.i: continue
                    if not L.path([t.i], [n.i], [lp.head], within=lp.body) and t.i != n.i:
                        x = l[1] if l[2] else neg(l[1])
                        null = x is not None and x[0] == "cmp" and x[1] == "==" and ("int", 0) in (x[2], x[3]) and any(e in (unconv(x[2]), unconv(x[3])) or any(e == y for y in subforms(x)) for e in el)
                        c.judge(null, "skipped|%s|%s" % (cls, last(it.cont[2])), "%s: entries of %s are skipped at the end of the document" % (m.loc(), show(it.cont)))
    if not out: raise AnalysisBroken("%s: nothing is finalized" % f.q)
    c.count("collections", len(out))
    return out

def reachnodes(prog, t):
    return [n for u in prog.reach([t], stop=lambda f: f.cls != t.cls) for n in prog.fns[u].nodes if u in prog.fns] if t.blocks else []

class NAI(KAI):
    """only follows what was created"""
    keepnone = False
    def val(self, f, env):
        v = KAI.val(self, f, env)
        return v if isinstance(v, tuple) and v == self.me else None
    def truth(self, f, env):
        return bool(f[1]) if f is not None and f[0] == "int" else None

def relevant(g, fin):
    """locals, new objects and their classes whose value may end up in one of the collections"""
    R = set()
    def add(fm):
        for y in subforms(fm):
            if isinstance(y, tuple) and y and y[0] in ("var", "ret", "new"): R.add(y)
    for n in g.nodes:
        if n.k == "call" and n.ev[2] in fin:
            for a in n.ev[3]: add(a)
        if n.k == "set" and n.ev[0] is not None and n.ev[0][0] == "idx" and n.ev[0][1] in fin and n.ev[2] is not None: add(n.ev[2])
    while True:
        k = len(R)
        for n in g.nodes:
            if n.k == "set" and n.ev[0] in R and n.ev[2] is not None: add(n.ev[2])
            if n.k == "new" and n.ev[0] in R: R.add(n.ev[1])
            if n.k == "call" and n.ev[2] is not None and (n.ev[2][0] == "tmp" or n.ev[2] in R) and n.ev[0] and "::".join(n.ev[0].split("::")[:-1]) in R:
                for a in n.ev[3]: add(a)
        if len(R) == k: return R

CREATE = re.compile(r"create\w*FS$")
def registration(prog, c, cls):
    K = Kinds(prog); codes = typecodes(prog); byc = {v: n for n, v in codes.items()}
    fin = collections(prog, c, cls)
    short = cls.rsplit("::", 1)[-1]
    refless = {v for n, v in codes.items() if re.search(r"(Int|Float|String|Byte|Boolean|Short|Long|Double)ArrayType$|(Int|Float|String)ListType$|gs_tyEListType$", n)}
    for q in (cls + "::startElement", cls + "::endElement"):
        f = prog.fn(q); c.fn(f)
        g = Graph(prog, f, inline=inl_all(cls, ("handleFeature",) if q.endswith("startElement") else ()), depth=7, eh="try")
        L = Loops(g)
        sites = [n for n in g.nodes if n.k == "call" and n.i in L.live and n.ev[0] and CREATE.match(last(n.ev[0])) and n.ev[1] in prog.fns and prog.fns[n.ev[1]].cls != cls]
        RV = relevant(g, fin)
        forms = {}
        for n in sites:
            fm = ("call", n.ev[0], n.ev[2], n.ev[3])
            forms.setdefault(fm, []).append(n)
        class O(Base):
            def call(s, fm, args, rec):
                if fm in forms: return ("new", id(forms[fm][0]))
                nm = last(fm[1] or "")
                if nm in ("demoteFS", "promoteFS") and args: return args[0] if args[0] is None or args[0][0] == "new" else None
                if nm in ("demoteType", "promoteType") : return None
                return None
            def leaf(s, fm):
                if fm[0] == "ctor" and len(fm[2]) == 1: return None
                return None
        for fm, ns in forms.items():
            n0 = ns[0]
            # what is created: a constant type without references to resolve needs nothing
            cre = last(fm[1]); const = None
            for a in fm[3]:
                if a[0] == "int" and a[1] in byc and cre in ("createFS", "createArrayFS"): const = a[1]
                if a[0] == "g" and a[1].rsplit("::", 1)[-1] in codes: const = codes[a[1].rsplit("::", 1)[-1]]
            m = re.match(r"create(\w+?)FS$", cre)
            if m and m.group(1) and m.group(1) != "Array" and ("gs_ty%sType" % m.group(1)) in codes: const = codes["gs_ty%sType" % m.group(1)]
            if m and m.group(1) == "StringList" : const = codes.get("gs_tyStringListType", const)
            c.count("creations")
            if const in refless:
                c.ok("%s: %s has no references" % (n0.loc(), cre)); continue
            me = ("new", id(n0))
            res = set()
            o = O(prog, K)
            ai = NAI(g, o); ai.me = me
            starts = {x.i for x in ns}
            def holds_me(a, env):
                v = ai.val(a, env)
                if v == me: return True
                return a is not None and a[0] == "ctor" and any(ai.val(x, env) == me for x in a[2])
            def reg(coll, env):
                env = dict(env); env[("n",)] = min(env.get(("n",), 0) + 1, 2); env[("c",)] = coll; return env
            def visit(n, env):
                if n.i in starts:
                    if env.get(("made",)) and env.get(("n",)) == 0: res.add((0, None))      # made anew before the last one was entered
                    env = dict(env); env[("n",)] = 0; env[("made",)] = 1; return env
                if not env.get(("made",)): return None
                for k in [k for k in env if k[0] == "result" or k[0] in ("var", "ret", "new") and k not in RV or k[0] == "ctorof" and k[1] not in RV]: del env[k]
                if n.k == "call" and n.ev[0]:
                    nm = last(n.ev[0])
                    t = prog.fns.get(n.ev[1])
                    if n.ev[2] in fin and nm in ("push_back", "insert", "emplace_back") and any(holds_me(a, env) for a in n.ev[3]): return reg(n.ev[2], env)
                    if t is not None and t.d.get("kind") == "ctor" and any(holds_me(a, env) for a in n.ev[3]) and n.ev[2] is not None and n.ev[2][0] == "tmp":
                        env = dict(env); env[("ctorof", t.cls)] = me; return env
                if n.k == "new" and env.get(("ctorof", n.ev[1])) == me:
                    env = dict(env); env[n.ev[0]] = me; env.pop(("ctorof", n.ev[1])); return env
                if n.k == "set" and n.ev[0] is not None and n.ev[0][0] == "idx" and n.ev[0][1] in fin and holds_me(n.ev[2], env): return reg(n.ev[0][1], env)
                return None
            for n, env in [x for y in sorted(starts) for x in ai.run(visit, start=y)]:
                if n.k == "exit" and env.get(("made",)): res.add((env.get(("n",)), env.get(("c",))))
            if not res: raise AnalysisBroken("%s: %s not followed" % (f.q, cre))
            c.judge(all(x[0] != 0 for x in res), "unregistered|%s|%s|%s" % (short, n0.fr.fn.name, cre), "%s: an FS created here may not be among those the end of the document goes through: IDs in it stay" % n0.loc(), "%s: %s registered once" % (n0.loc(), cre))
            c.judge(all(x[0] != 2 for x in res), "registered twice|%s|%s|%s" % (short, n0.fr.fn.name, cre), "%s: an FS created here is entered twice: the second pass takes addresses for IDs" % n0.loc())
            for x in res:
                if x[1] is None: continue
                ff = fin[x[1]]
                listnode = const == codes.get("gs_tyNEListType")
                if listnode: c.judge(remaps_node(prog, c, cls, ff, K, const), "list node|%s" % short, "%s: the finalizer %s does not replace the ID in the head of this node" % (n0.loc(), ff.q))
                else: c.judge(ff.name == "finalizeFS", "finalizer|%s|%s" % (short, cre), "%s: what is created here is finalized by %s" % (n0.loc(), ff.q))
    # an entry that is replaced is kept elsewhere first
    for f in sorted((f for f in prog.fns.values() if f.cls == cls and f.blocks), key=lambda f: f.u):
        g = Graph(prog, f)
        sets = [n for n in g.nodes if n.k == "set" and n.ev[0] is not None and n.ev[0][0] == "idx" and n.ev[0][1] in fin and n.ev[2] != n.ev[0]]
        if not sets: continue
        def step(n, facts, us):
            if n.k == "call" and n.ev[2] in fin and last(n.ev[0] or "") in ("push_back", "insert", "emplace_back"): us = us | frozenset(n.ev[3])
            return [(facts, us)]
        r = explore(g, ustate=frozenset(), step=step)
        for n in sets:
            x = n.ev[0]
            ok = n.i in r.at and all(x in us or entails_eq0(facts, x) for facts, us in r.at[n.i])
            c.judge(ok, "replaced|%s|%s" % (short, f.name), "%s: an FS already entered under the same ID is dropped: nothing finalizes it any more" % n.loc(), "%s: nothing dropped" % n.loc())
    c.floor("creations", 8)

def entails_eq0(facts, x):
    for fa in facts:
        if fa[0] == "nb" and unconv(fa[1]) == x: return True
        if fa[0] == "eq" and fa[2] == 0 and len(fa[1]) == 1 and unconv(fa[1][0][0]) == x: return True
    return False


def remaps_node(prog, c, cls, f, K, code):
    """the list finalizer replaces the head, and only the head, of a node of this type"""
    g = Graph(prog, f, inline=lambda t, fr: inl_all(cls)(t, fr) or t.cls == SD, depth=5, eh="try"); c.fn(f)
    codes = {q.rsplit("::", 1)[-1]: v for q, v in prog.gcv.items() if q.startswith("uima::internal::gs_ty")}
    head, tail = codes["gs_tyHeadFeature"], codes["gs_tyTailFeature"]
    class O(Base):
        def call(s, fm, args, rec):
            nm = last(fm[1] or "")
            if nm == "getType": return code
            if nm in ("getFeatureInternal", "getFSValue"): return RAW if args[-1] == head else None
            return Base.call(s, fm, args, rec)
    res = set()
    def visit(n, env):
        if n.k == "call" and n.ev[0] and last(n.ev[0]) in ("setFeatureInternal", "setFSValue"):
            ft, v = ai.val(n.ev[3][-2], env), ai.val(n.ev[3][-1], env)
            env = dict(env); env[("done",)] = "ok" if ft == head and v in (0, RES) and env.get(("done",)) != "bad" else "bad"
            return env
    for found in (True, False):
        ai = KAI(g, O(prog, K, found))
        for n, env in ai.run(visit):
            if n.k == "exit": res.add(env.get(("done",)))
    return res == {"ok"}

# ------------------------------------------------------------------ state of the element being read
GROW = {"append", "operator+=", "insert"}
def built(prog, cls, x):
    """a number or a text"""
    t = [fl["t"] for fl in prog.classes[cls]["fields"] if fl["q"] == x[2]]
    return bool(t) and bool(re.match(r"(const )?(int|unsigned int|long|unsigned long|size_t|short|icu\w*::UnicodeString|std::basic_string<.*|std::string)$", t[0]))
def readonly(prog, en, ch, closure, fld):
    out = set()
    for f in closure(en) + closure(ch):
        for n in Graph(prog, f).nodes:
            for fm in ([n.ev[2]] if n.k == "set" else list(n.ev[3]) + ([n.ev[2]] if last(n.ev[0] or "") not in DEF | GROW else []) if n.k == "call" else [n.ev[0]] if n.k in ("br", "ret") else []):
                if fm is not None and n.k == "br" and fm[0] == "cmp" and ("int", 0) in (fm[2], fm[3]): continue       # a nesting depth
                out |= {y for y in subforms(fm) if isinstance(y, tuple) and y and y[0] == "f"} if fm is not None else set()
    return out
DEF = {"operator=", "remove", "clear", "setTo", "setToBogus"}
def elements(prog, c, cls):
    short = cls.rsplit("::", 1)[-1]
    pre = cls + "::"
    st, en, ch = (prog.fn(pre + x) for x in ("startElement", "endElement", "characters"))
    def closure(f): return [prog.fns[u] for u in prog.reach([f], stop=lambda t: t.cls != cls) if u in prog.fns and prog.fns[u].cls == cls and prog.fns[u].blocks]
    def fld(fm):
        while fm is not None and fm[0] == "idx": return None
        return fm if fm is not None and fm[0] == "f" and fm[1] == ("this",) and fm[2].startswith(pre) else None
    over = set()
    for f in closure(st):
        for n in Graph(prog, f).nodes:
            if n.k == "set" and fld(n.ev[0]) and n.ev[1] == "=": over.add(n.ev[0])
            if n.k == "call" and n.ev[2] is not None and fld(n.ev[2]) and last(n.ev[0] or "") in DEF: over.add(n.ev[2])
    state = [x for x in over if last(x[2]) == "iv_state"]
    if not state: raise AnalysisBroken("%s: state field" % short)
    state = state[0]
    read = set()
    for f in closure(en) + closure(ch):
        for n in Graph(prog, f).nodes:
            for fm in ([n.ev[2]] if n.k == "set" else list(n.ev[3]) + [n.ev[2]] if n.k == "call" else [n.ev[0]] if n.k in ("br", "ret") else []):
                for y in subforms(fm) if fm is not None else ():
                    if isinstance(y, tuple) and y and y[0] == "f" and y in over: read.add(y)
    # what the content events build up themselves has to start anew, too
    for f in closure(en) + closure(ch):
        for n in Graph(prog, f).nodes:
            x = n.ev[0] if n.k == "set" else n.ev[2] if n.k == "call" and last(n.ev[0] or "") in GROW else None
            if x is not None and fld(x) and x in readonly(prog, en, ch, closure, fld) and built(prog, cls, x): over.add(x); read.add(x)
    E = (over & read) - {state}
    if len(E) < 3: raise AnalysisBroken("%s: per-element fields %s" % (short, sorted(map(show, E))))
    c.count("element_fields", len(E))
    def touches(f):
        return any(fld(y) in E | {state} for n in Graph(prog, f).nodes for fm in ([n.ev[0], n.ev[2]] if n.k == "set" else list(n.ev[3]) + [n.ev[2]] if n.k == "call" else [n.ev[0]] if n.k in ("br", "ret") else []) if fm is not None for y in subforms(fm) if isinstance(y, tuple) and y and y[0] == "f")
    tm = {}
    def wants(t, fr):
        if not ((t.cls == cls and t.d.get("kind") == "method") or (t.cls is None and FILES.search(t.file))): return False
        if t.u not in tm: tm[t.u] = any(touches(x) for x in closure(t)) if t.cls == cls else False
        return tm[t.u]
    graphs = {k: Graph(prog, f, inline=wants, depth=6) for k, f in (("start", st), ("end", en), ("chars", ch))}
    for f in (st, en, ch): c.fn(f)
    release = {k: releasing(g, E) for k, g in graphs.items()}
    init = {}
    for f in prog.fnall(pre + short):
        if f.cls != cls: continue
        for n in Graph(prog, f).nodes:
            if n.k == "set" and n.ev[0] in E and n.ev[2] is not None and n.ev[2][0] == "int": init[n.ev[0]] = n.ev[2][1]
    scen = {"normal": dict(valid=1, arr=0, code=OTHER), "array": dict(valid=1, arr=1, code=codesof(prog, "gs_tyIntArrayType")), "bytes": dict(valid=1, arr=1, code=codesof(prog, "gs_tyByteArrayType")), "unknown": dict(valid=0, arr=0, code=0)}
    used = set()
    class O:
        def __init__(s, sc): s.sc = sc
        def cmp(s, op, a, b):
            if isinstance(a, tuple) and isinstance(b, int) and a[0] == "ty": a = a[1]
            if "obj" in (a, b) and 0 in (a, b): return {"==": False, "!=": True}.get(op)
            if isinstance(a, int) and isinstance(b, int): return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
            return None
        def leaf(s, f):
            if f[0] in ("g", "enum"):
                v = prog.gcv.get(f[1]) if f[0] == "g" else f[2]
                return v if isinstance(v, int) else None
            if f[0] == "new": return "obj"
            return None
        def call(s, f, args, rec):
            nm = last(f[1] or "")
            if nm == "getType" and "TypeSystem" in (f[1] or ""): return ("ty", s.sc["code"], s.sc["valid"], s.sc["arr"])
            o = rec(f[2]) if f[2] is not None else None
            a0 = args[0] if args else None
            if nm == "demoteType" and isinstance(a0, tuple) and a0[0] == "ty": return a0[1] if a0[2] else 0
            if nm == "isValid" and isinstance(o, tuple) and o[0] == "ty": return o[2]
            if nm == "isArrayType" and isinstance(a0, int):
                return {OTHER: 0, 0: 0}.get(a0, 1)
            if nm == "isArrayType" and isinstance(a0, tuple) and a0[0] == "ty": return a0[3]
            return None
    def event(g, o, env0, what):
        ai = AI(g, o, env0)
        rel = release["start" if g is graphs["start"] else "end" if g is graphs["end"] else "chars"]
        def visit(n, env):
            fms = []
            if n.i in rel: return None
            if n.k == "call":
                nm = last(n.ev[0] or "")
                if n.ev[2] in E and nm in DEF and not (nm == "remove" and n.ev[3]):
                    env = dict(env)
                    v = ai.val(n.ev[3][0], env) if n.ev[3] else 0
                    env[n.ev[2]] = v if v is not None else ("cur",)
                    if n.ev[3] and stale(n.ev[3][0], ai, env): flag(n, n.ev[3][0], ai, env)
                    return env
                if n.ev[2] in E and nm in GROW and env.get(n.ev[2]) != OLD: env = dict(env); env[n.ev[2]] = ("cur",); return env
                t = prog.fns.get(n.ev[1])
                if t is not None and wants(t, None) and t.u != g.root.u: fms = [x for x in n.ev[3] if x not in E]     # its body follows
                else: fms = list(n.ev[3]) + [n.ev[2]]
            elif n.k == "set":
                fms = [n.ev[2]] if n.ev[1] == "=" else [n.ev[0], n.ev[2]]
                if n.ev[0] in E and n.ev[1] == "=":
                    if stale(n.ev[2], ai, env): flag(n, n.ev[2], ai, env)
                    return None
                if n.ev[0] in E:
                    if stale(n.ev[0], ai, env): flag(n, n.ev[0], ai, env)
                    env = dict(env); env[n.ev[0]] = ("cur",); return env
            elif n.k in ("br", "ret"): fms = [n.ev[0]]
            for fm in fms:
                if fm is not None and stale(fm, ai, env): flag(n, fm, ai, env)
            return None
        def flag(n, fm, ai, env):
            for y in subforms(fm):
                if y in E and env.get(y) == OLD: used.add((y, n.loc(), n.fr.fn.q, what))
        def stale(fm, ai, env):
            return any(y in E and env.get(y) == OLD for y in subforms(fm) if isinstance(y, tuple) and y and y[0] == "f")
        outs = []
        for n, env in ai.run(visit):
            if n.k == "exit": outs.append({k: v for k, v in env.items() if k in E or k == state})
        return outs
    seen = set(); todo = []
    start = {k: OLD for k in E}
    start.update(init)
    doc = [n.ev[2][1] for n in Graph(prog, prog.fn(pre + "startDocument")).nodes if n.k == "set" and n.ev[0] == state and n.ev[2] is not None and n.ev[2][0] == "int"]
    if len(doc) != 1: raise AnalysisBroken("%s: first state" % short)
    start[state] = doc[0]
    fs = {o.get(state) for o in event(graphs["start"], O(scen["normal"]), dict(start), "root")}
    if len(fs) != 1 or fs & {None, doc[0]}: raise AnalysisBroken("%s: states %s" % (short, fs))
    FS = fs.pop(); used.clear()
    todo.append(frozenset(start.items())); n = 0
    while todo:
        e = todo.pop()
        if e in seen: continue
        seen.add(e); n += 1
        if n > 400: raise AnalysisBroken("%s: element states do not converge" % short)
        env = dict(e)
        for sname, sc in scen.items():
            e1 = dict(env)
            if env[state] == FS:
                for k in E:
                    if not isinstance(e1.get(k), int): e1[k] = OLD
            for o in event(graphs["start"], O(sc), e1, sname):
                for k in E: o.setdefault(k, ("cur",))
                todo.append(frozenset(o.items()))
        for k in ("end", "chars"):
            for o in event(graphs[k], O(scen["normal"]), dict(env), k):
                for kk in E: o.setdefault(kk, ("cur",))
                todo.append(frozenset(o.items()))
    c.count("element_states", n)
    for y in sorted(E, key=show):
        u = [x for x in used if x[0] == y]
        c.judge(not u, "stale|%s|%s" % (short, last(y[2])), "%s: %s, used here, may still be that of an FS element before the current one" % (sorted(u)[0][1] if u else "", show(y)), "%s: %s set anew for every FS element" % (short, last(y[2])))

def releasing(g, E):
    """nodes that only delete what a field holds"""
    L = Loops(g); out = set()
    for lp in L.loops.values():
        ns = [g.nodes[i] for i in lp.body]
        if not any(n.k == "del" for n in ns): continue
        if any(n.k == "call" and last(n.ev[0] or "") not in ("begin", "end", "operator++", "operator!=", "operator==", "operator->", "operator*", "size", "operator[]", "at") and not (n.ev[0] or "").startswith("~") and "~" not in (n.ev[0] or "") for n in ns): continue
        if any(n.k == "set" and n.ev[0] is not None and n.ev[0][0] not in ("var", "ret") for n in ns): continue
        out |= {n.i for n in ns}
    if out:
        for n in g.nodes:
            fm = n.ev[2] if n.k == "set" else n.ev[3][0] if n.k == "call" and last(n.ev[0] or "") == "operator=" and n.ev[3] and n.ev[2] is not None and n.ev[2][0] == "var" else ("call", n.ev[0], n.ev[2], n.ev[3]) if n.k == "call" else None
            while fm is not None and fm[0] == "ctor" and len(fm[2]) == 1: fm = fm[2][0]
            if fm is not None and fm[0] == "call" and last(fm[1] or "") in ("begin", "end") and fm[2] in E and any(m.k == "call" and m.ev[2] == fm[2] and m.i in out for m in g.nodes): out.add(n.i)
    return out

def codesof(prog, n): return typeconst(prog, n)

def always(prog, cls, fm, g):
    """the form is the global g, or a field that every constructor and method sets to nothing else"""
    fm = unconv(fm)
    if fm == ("int", prog.gcv.get(g)) or fm[0] == "g" and fm[1] == g: return True
    if fm[0] != "f" or fm[1] != ("this",): return False
    st = [n for f in prog.fns.values() if f.cls == cls and f.blocks for n in Graph(prog, f).nodes if n.k == "set" and n.ev[0] == fm]
    return bool(st) and all(n.ev[2] is not None and unconv(n.ev[2]) in (("g", g), ("int", prog.gcv.get(g))) for n in st)

def sofanumbers(prog, c, fns):
    SN = prog.gcv.get("uima::internal::gs_tySofaNumFeature")
    for f in sorted(fns, key=lambda f: f.u):
        g = Graph(prog, f, inline=lambda t, fr: never_returns(prog, t), depth=2)
        L = Loops(g)
        rd = [n for n in g.nodes if n.k == "call" and n.i in L.live and last(n.ev[0] or "") in ("getIntValue", "getHeapValue", "getFeatureInternal") and len(n.ev[3]) == 2 and n.ev[3][1] in (("g", "uima::internal::gs_tySofaNumFeature"), ("int", SN))]
        if not rd: continue
        c.fn(f)
        r = explore(g)
        for n in rd:
            a = unconv(n.ev[3][0]); c.count("sofa_reads")
            def sofa(facts):
                for x in facts:
                    if x[0] != "eq" or x[2] != 0 or len(x[1]) != 2: continue
                    ts = [unconv(y[0]) for y in x[1]]
                    for p, q in (ts, ts[::-1]):
                        if p[0] == "call" and last(p[1]) == "getType" and p[3] and unconv(p[3][0]) == a and always(prog, f.cls, q, "uima::internal::gs_tySofaType"): return True
                return False
            ok = all(sofa(facts) for facts, us in r.at.get(n.i, ()))
            c.judge(ok, "sofa|%s|%s" % (f.q, n.ev[0]), "%s: the sofaNum of an FS the document names is read before it is known to be a Sofa" % n.loc(), "%s: a Sofa" % n.loc())
            v = ("call", n.ev[0], n.ev[2], n.ev[3])
            for m in g.nodes:
                if m.k == "ret" and m.i in L.live and m.ev[0] is not None and any(y == v for y in subforms(m.ev[0])):
                    for facts, us in r.at.get(m.i, ()):
                        hi = any(entails_le(facts, {unconv(m.ev[0]): 1, z: -1}, -1) or entails_le(facts, {m.ev[0]: 1, z: -1}, -1) for z in size_any(facts))
                        lo = entails_le(facts, {unconv(m.ev[0]): -1}, -1)
                        c.judge(hi and lo, "view|%s" % f.q, "%s: a Sofa number is returned that may have no view (or be that of no view)" % m.loc(), "%s: a number with a view" % m.loc())
    c.floor("sofa_reads", 2)

def size_any(facts):
    return {y for x in facts if x[0] in ("le", "eq") for z in x[1] for y in [z[0]] if "indexRepositories" in show(y)}
