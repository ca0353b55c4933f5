"""C09: index membership is exact and every iterator reflects it."""
from .common import *
from sa.loops import *
from sa.flow import facts_le

IR = "uima::lowlevel::IndexRepository"
AB = "uima::lowlevel::IndexABase"
IN = "uima::lowlevel::internal::"

def F(name): return ("f", ("this",), IR + "::" + name)
def last(q): return q.rsplit("::", 1)[-1] if q else ""
def samecls(f):
    def inl(t, fr): return (t.cls == f.cls and t.cls is not None and not t.name.startswith("~") and t.d.get("kind") != "ctor" and t.u not in f.prog.virt_decl) or (t.cls is None and t.file == f.file)
    return inl

def calls(g, L, pred):
    return [n for n in g.nodes if n.k == "call" and n.i in L.live and n.ev[0] and pred(n)]

def std(n, name, obj=None):
    return n.ev[0].startswith("std::") and last(n.ev[0]) == name and (obj is None or n.ev[2] == obj)

def values(g, fm, depth=3):
    """the values a variable can hold (or the form itself)"""
    if fm is None or fm[0] not in ("var", "ret") or not depth: return [fm]
    vs = [n.ev[2] for n in g.nodes if n.k == "set" and n.ev[0] == fm and n.ev[1] == "="]
    if not vs: return [fm]
    out = []
    for v in vs:
        if v == ("int", 0): continue
        out += [v] if v is None else values(g, v, depth - 1)
    return out or [fm]

class Ctx:
    def __init__(self, prog, f, depth=4, keep=()):
        inl = samecls(f)
        self.f = f; self.g = Graph(prog, f, inline=lambda t, fr: t.name not in keep and inl(t, fr), depth=depth); self.L = Loops(self.g)
    def after_or_before(self, m, blockers):
        """every normal path through m passes a blocker before or after it"""
        L = self.L; b = [x.i if isinstance(x, N) else x for x in blockers]
        return L.dom(m.i, b) or L.post(m.i, b)

def run(prog, c):
    c.rule("every change of an index's content clears the freshness marks of the changed type, so composite iterators refill their cache (path rule over IndexRepository)")
    c.rule("the index of a type is marked used before anything is added, and reset() empties every index so marked, all marks and the list of un-indexed members")
    c.rule("add/remove visit every index of the FS's own type (loop covers the whole vector); each single index inserts exactly the given FS and erases only an element proven identical to it")
    c.rule("a composite iterator is built only over a cache known fresh; the fill visits every component and every element once; the marks cover exactly the subsumed types")
    c.rule("iterator steps: forward steps use only forward moves and stop at an element that passes the filter or at the end, and symmetrically backward")
    muts(prog, c); freshness(prog, c); fills(prog, c); singles(prog, c); iters(prog, c); decorators(prog, c); build(prog, c); api(prog, c); listing(prog, c); composites(prog, c)
    c.floor("content_changes", 4); c.floor("iterator_methods", 12)

# ---------------------------------------------------------------- repository
def idxmut(prog, n, names):
    """call of the virtual add/remove/reset of an index"""
    return n.ev[1] and last(n.ev[0]) in names and (n.ev[0].startswith(AB + "::") or any(n.ev[0] == q + "::" + last(n.ev[0]) for q in prog.subclasses(AB)))

def typeofs(n):
    """forms that denote the type of the index/FS a content change works on"""
    o, a = n.ev[2], n.ev[3]
    def ok(t):
        if t is None: return False
        if t[0] == "call" and last(t[1]) == "getType" and t[1].startswith("uima::lowlevel::FSHeap") and a and t[3] == (a[0],): return True
        if t[0] == "call" and last(t[1]) == "getType" and not t[3] and t[2] == o: return True
        return False
    return ok

def lookup_ok(prog, c):
    """getSingleIndexForType(t,id) hands out iv_indexes[t][iv_idMaximalTypeMapping[t][id]]"""
    f = prog.fn(IR + "::getSingleIndexForType"); x = Ctx(prog, f); c.fn(f)
    rets = [n for n in x.g.nodes if n.k == "ret" and n.i in x.L.live]
    T = ("param", 0, f.params[0]["n"]); ID = ("param", 1, f.params[1]["n"])
    for n in rets:
        v = n.ev[0]
        ok = v[0] == "idx" and v[1] == ("idx", F("iv_indexes"), T)
        p = v[2] if ok else None
        ok = ok and (p == ("idx", ("idx", F("iv_idMaximalTypeMapping"), T), ID) or (p[0] == "f" and last(p[2]) == "second" and p[1][0] == "call" and last(p[1][1]) == "find" and p[1][2] == ("idx", F("iv_idMaximalTypeMapping"), T) and p[1][3] == (ID,)))
        c.judge(ok, "lookup|getSingleIndexForType", "%s: the index of a type and id is not taken from the slot recorded for that type and id (%s)" % (n.loc(), show(v)))

def muts(prog, c):
    lookup_ok(prog, c)
    dirty, used, usedl, undef, idx = F("iv_cacheDirtyFlags"), F("iv_isUsed"), F("iv_usedIndexes"), F("iv_undefinedindex"), F("iv_indexes")
    entries = [f for f in prog.fns.values() if f.cls == IR and f.d.get("kind") == "method" and f.d.get("acc") != "private" and not f.u.endswith("const")]
    if len(entries) < 6: raise AnalysisBroken("IndexRepository methods: %d" % len(entries))
    for f in entries:
        x = Ctx(prog, f)
        ms = calls(x.g, x.L, lambda n: idxmut(prog, n, ("add", "remove")))
        if not ms: continue
        c.fn(f)
        for m in ms:
            c.count("content_changes")
            tp = typeofs(m)
            clr = [n for n in calls(x.g, x.L, lambda n: std(n, "clear") and n.ev[2] is not None and n.ev[2][0] == "idx" and n.ev[2][1] == dirty and tp(n.ev[2][2]))]
            c.judge(bool(clr) and x.after_or_before(m, clr), "stale|%s|%s" % (f.u, last(m.ev[0])), "%s: %s changes an index (%s) without clearing iv_cacheDirtyFlags of that type on every path: iterators over a supertype keep the old content" % (m.loc(), f.u, last(m.ev[0])), "%s clears the marks around %s" % (f.q, m.loc()))
            # which index
            o = m.ev[2]
            c.judge(m.ev[3] == (("param", 0, f.params[0]["n"]),), "fs|%s" % f.u, "%s: %s passes %s to the index instead of the FS it was given" % (m.loc(), f.q, show(m.ev[3][0])))
            lp = x.L.innermost(m)
            if len(f.params) == 1:
                it = x.L.iteration(lp) if lp is not None else None
                okc = it is not None and it.cont is not None and ((it.cont[0] == "idx" and it.cont[1] == idx and tp(it.cont[2])) or (it.cont[0] == "call" and last(it.cont[1]) == "getAllSingleIndexesForType" and tp(it.cont[3][0])))
                c.judge(okc and it.full() and it.iselem(o) and not x.L.cycle_avoids(lp, [m.i]), "all|%s" % f.u, "%s: %s does not reach every index of the FS's type%s" % (m.loc(), f.q, ": " + it.why() if it is not None and okc else ""), "%s visits every index of the type" % f.q)
            else:
                ID = ("param", 1, f.params[1]["n"])
                def fromlookup(o):
                    if o[0] == "call" and last(o[1]) == "getSingleIndexForType": return tp(o[3][0]) and o[3][1] == ID
                    if o[0] == "call" and last(o[1]) == "getSingleIndexForFS": return o[3] == (m.ev[3][0], ID)
                    return o[0] == "idx" and o[1][0] == "idx" and o[1][1] == idx and tp(o[1][2]) and contains(o[2], ID)
                c.judge(all(fromlookup(y) for y in values(x.g, o)), "one|%s" % f.u, "%s: %s does not use the index of the given id for the FS's type" % (m.loc(), f.q))
            if last(m.ev[0]) == "add":
                # used mark: on every path to m the type is marked
                def st(n, facts, us):
                    if n.k == "call" and n.ev[0] == "std::_Bit_reference::operator=" and n.ev[2] is not None and n.ev[2][0] == "idx" and n.ev[2][1] == used and tp(n.ev[2][2]) and n.ev[3] == (("int", 1),): us = us | {"mark"}
                    if n.k == "call" and std(n, "push_back", usedl) and tp(n.ev[3][0]): us = us | {"list"}
                    return [(facts, us)]
                r = explore(x.g, ustate=frozenset(), step=st)
                ok = True; twice = True
                isu = lambda fm: fm[0] == "call" and fm[1] == "std::_Bit_reference::operator bool" and fm[2] is not None and fm[2][0] == "idx" and fm[2][1] == used and tp(fm[2][2])
                for facts, us in r.at.get(m.i, ()):
                    already = has_b(facts, isu)
                    if not (("mark" in us and "list" in us) or already): ok = False
                c.judge(ok, "used|%s" % f.u, "%s: %s adds to an index without recording that the type is used: reset() leaves the FS in the index" % (m.loc(), f.q), "%s marks the type used before %s" % (f.q, m.loc()))
                ok = all(("mark" in us) == ("list" in us) for facts, us in r.at.get(x.g.exit.i, ()))
                c.judge(ok, "usedpair|%s" % f.u, "%s: %s changes only one of iv_isUsed and iv_usedIndexes" % (f.loc(), f.q))
        # members of types without index
        if len(f.params) == 1:
            kind = last(ms[0].ev[0]); P = ("param", 0, f.params[0]["n"])
            if kind == "add":
                alt = calls(x.g, x.L, lambda n: std(n, "push_back", undef) and n.ev[3] == (P,))
                heads = [x.L.innermost(m).head for m in ms if x.L.innermost(m)]
                bad = x.L.path([x.g.entry.i], [x.g.exit.i], [n.i for n in alt] + heads)
                c.judge(not bad, "lost|%s" % f.u, "%s: on some path %s neither adds the FS to the indexes of its type nor to the list of un-indexed members" % (f.loc(), f.q))
                r = explore(x.g)
                for a in alt:
                    def empt(facts):
                        return any((k[0] == "eq" and k[2] == 0 and len(k[1]) == 1 and sz(k[1][0][0])) or (k[0] == "nb" and sz(k[1])) or (k[0] == "b" and k[1][0] == "call" and last(k[1][1]) == "empty" and typ(k[1][2])) or (k[0] == "le" and len(k[1]) == 1 and k[1][0][1] == 1 and k[2] <= 0 and sz(k[1][0][0])) for k in facts)
                    tp = typeofs(ms[0])
                    def typ(o): return o is not None and o[0] == "idx" and o[1] == idx and tp(o[2])
                    def sz(fm): return fm[0] == "call" and last(fm[1]) == "size" and typ(fm[2])
                    # on paths that end without visiting the indexes there must be none
                    sts = r.at.get(a.i, ())
                    c.judge(all(empt(s[0]) for s in sts) or x.L.post(a.i, heads), "undef|%s" % f.u, "%s: %s puts an FS on the list of un-indexed members although its type may have indexes" % (a.loc(), f.q))
            else:
                er = calls(x.g, x.L, lambda n: std(n, "erase", undef))
                ok = bool(er) and all(erases_identical(prog, x, n, P) for n in er)
                c.judge(ok, "undefremove|%s" % f.u, "%s: %s does not take the FS (and only it) off the list of un-indexed members" % (f.loc(), f.q))
    # direct writers of the freshness marks
    allowed = set()
    for f in prog.fns.values():
        if f.cls != IR and not f.file.endswith(("lowlevel_indexrepository.hpp", "lowlevel_indexrepository.cpp")):
            for i, n in enumerate(f.nodes):
                if n["k"] == "call" and n.get("fn") and idxmut_static(prog, n) and f.cls not in prog.subclasses(AB) + [AB]:
                    c.bad("direct|%s" % f.u, "%s: %s changes an index behind the repository's back" % (f.loc(i), f.q))
    c.ok()
    resets(prog, c)

def idxmut_static(prog, n):
    q = n["fn"]
    return last(q) in ("add", "remove", "reset") and (q.startswith(AB + "::") or any(q == s + "::" + last(q) for s in prog.subclasses(AB)))

def resets(prog, c):
    f = prog.fn(IR + "::reset"); x = Ctx(prog, f); c.fn(f); L, g = x.L, x.g
    dirty, used, usedl, undef, idx = F("iv_cacheDirtyFlags"), F("iv_isUsed"), F("iv_usedIndexes"), F("iv_undefinedindex"), F("iv_indexes")
    def cleared(fld):
        ns = calls(g, L, lambda n: (std(n, "clear", fld)) or (std(n, "resize", fld) and n.ev[3] and n.ev[3][0] == ("int", 0)))
        return [n.i for n in ns]
    u = cleared(undef)
    c.judge(u and not L.path([g.entry.i], [g.exit.i], u), "reset|undef", "%s: reset() can return without clearing iv_undefinedindex: members of the last document survive" % f.loc())
    # paths on which nothing is marked used may leave early
    r = explore(g)
    lst = set(cleared(usedl))
    ms = calls(g, L, lambda n: idxmut(prog, n, ("reset",)))
    c.judge(bool(ms), "reset|none", "%s: reset() resets no index" % f.loc())
    def st(n, facts, us):
        if n.i in lst: us = True
        return [(facts, us)]
    r = explore(g, ustate=False, step=st)
    szl = lambda fm: fm[0] == "call" and last(fm[1]) in ("size",) and fm[2] == usedl
    def nothing(facts):
        return any((k[0] == "nb" and szl(k[1])) or (k[0] == "eq" and k[2] == 0 and len(k[1]) == 1 and szl(k[1][0][0])) or (k[0] == "b" and k[1] == ("call", k[1][1], usedl, ()) and last(k[1][1]) == "empty") for k in facts if k[0] in ("nb", "b", "eq"))
    c.judge(all(us or nothing(facts) for facts, us in r.at.get(g.exit.i, ())), "reset|usedlist", "%s: reset() can return with types still listed as used" % f.loc())
    for m in ms:
        ls = L.enclosing(m)
        if len(ls) < 2: c.bad("reset|loops", "%s: reset() does not reset every index of every used type" % m.loc()); continue
        inner, outer = L.iteration(ls[0]), L.iteration(ls[1])
        okO = outer.full() and outer.cont in (usedl, idx) and not any(L.path(L.succs(i), [ls[1].head]) and L.dom(i, []) and L.path([g.entry.i], [i]) and L.path(L.succs(i), [m.i]) for i in lst)
        def el(fm): return outer.iselem(fm) if outer.cont == usedl else fm == outer.var
        def okcont(ct):
            if ct is None: return False
            if ct[0] == "call" and last(ct[1]) == "getAllSingleIndexesForType": return el(ct[3][0])
            return (ct[0] == "idx" and ct[1] == idx and el(ct[2])) or (outer.cont == idx and outer.iselem(ct))
        c.judge(okO, "reset|outer", "%s: reset() does not visit every used type%s" % (m.loc(), ": " + outer.why() if outer.kind else ""))
        c.judge(okcont(inner.cont) and inner.full() and inner.iselem(m.ev[2]) and not L.cycle_avoids(ls[0], [m.i]), "reset|inner", "%s: reset() does not reset every index of a used type" % m.loc())
        c.judge(not L.cycle_avoids(ls[1], [ls[0].head]), "reset|skip", "%s: reset() skips the indexes of some used types" % m.loc())
        fl = [n.i for n in calls(g, L, lambda n: std(n, "clear") and n.ev[2] is not None and n.ev[2][0] == "idx" and n.ev[2][1] == dirty and el(n.ev[2][2]))]
        c.judge(bool(fl) and not L.cycle_avoids(ls[1], fl), "reset|marks", "%s: reset() empties indexes but leaves freshness marks: iterators over supertypes still yield the last document" % m.loc())
        un = [n.i for n in calls(g, L, lambda n: n.ev[0] == "std::_Bit_reference::operator=" and n.ev[2] is not None and n.ev[2][0] == "idx" and n.ev[2][1] == used and el(n.ev[2][2]) and n.ev[3] == (("int", 0),))]
        whole = [n.i for n in calls(g, L, lambda n: std(n, "assign", used) or std(n, "clear", used))]
        c.judge((bool(un) and not L.cycle_avoids(ls[1], un)) or bool(whole), "reset|used", "%s: reset() leaves iv_isUsed set: a type used in the next document is not registered and survives the following reset" % m.loc())

def erases_identical(prog, x, n, P):
    """vector/set erase of an iterator proven to point at element P"""
    a = unconv(n.ev[3][0]) if n.ev[3] else None
    if a is None or len(n.ev[3]) != 1: return False
    cont = n.ev[2]
    r = explore(x.g)
    for facts, us in r.at.get(n.i, ()):
        d = False; e = False
        for k in facts:
            if k[0] == "eq" and k[2] == 0 and len(k[1]) == 2 and {y for y, z in k[1]} == {a, P} and sum(z for y, z in k[1]) == 0: e = True
        if a[0] == "call" and a[1] == "std::find" and a[3][2] == P and unconv(a[3][0])[0] == "call" and unconv(a[3][0])[2] == cont: e = True
        end = None
        for k in facts:
            if k[0] == "ne" and len(k[1]) == 2 and any(y == a for y, z in k[1]) and any(y[0] == "call" and last(y[1]) in ("end", "cend") and y[2] == cont for y, z in k[1]) and k[2] == 0: d = True
        if not (d and e): return False
    return bool(r.at.get(n.i))

# ---------------------------------------------------------------- freshness of composite caches
def freshness(prog, c):
    IRF = ("f", ("this",), AB + "::iv_crIndexRepository")
    cls = IN + "CachedCompositeIndex"
    fam = {cls} | set(prog.subclasses(cls))
    cache = cls + "::iv_cache"
    fill = [f for f in prog.fns.values() if f.cls in fam and f.name == "clearAndFillCache"]
    if not fill: raise AnalysisBroken("no clearAndFillCache")
    users = 0
    for f in prog.fns.values():
        if f.name == "clearAndFillCache" or f.d.get("kind") in ("ctor", "dtor"): continue
        if not any(n["k"] == "mem" and last(n.get("f", "")) == "iv_cache" and n.get("f", "").startswith(cls.replace("CachedCompositeIndex", "CachedCompositeIndex")) for n in f.nodes): continue
        users += 1; c.fn(f)
        x = Ctx(prog, f); g = x.g
        def isdirty(fm): return fm[0] == "call" and last(fm[1]) == "isDirtyForIndex" and fm[3] == (("this",),)
        def unalias(o):
            return o
        def step(n, facts, us):
            if n.k == "call" and n.ev[0]:
                m = last(n.ev[0])
                if m == "clearAndFillCache": us = us | {"fill"}
                if m == "clearDirtyFlagForIndex":
                    if "fill" not in us: us = us | {"markedstale"}
                    us = us | {"mark"}
            return [(facts, us)]
        r = explore(g, ustate=frozenset(), step=step)
        for n in g.nodes:
            uses = n.k == "call" and any(a is not None and contains(a, ("f", ("this",), q)) for a in n.ev[3] for q in {cc["f"] for cc in f.nodes if cc["k"] == "mem" and last(cc.get("f", "")) == "iv_cache"})
            if not uses: continue
            for facts, us in r.at.get(n.i, ()):
                fresh = has_b(facts, isdirty, False) or "fill" in us
                c.judge(fresh, "fresh|%s" % f.u, "%s: %s iterates over the cached content although the index may have changed since the cache was filled" % (n.loc(), f.q), "%s: the cache is fresh when iterated" % n.loc())
        for facts, us in r.at.get(g.exit.i, ()):
            c.judge("markedstale" not in us, "mark|%s" % f.u, "%s: %s marks the cache fresh before filling it" % (f.loc(), f.q))
            if "fill" in us: c.judge("mark" in us, "nomark|%s" % f.u, "%s: the cache is filled and not marked fresh" % f.loc())
    if users < 2: raise AnalysisBroken("users of iv_cache: %d" % users)
    for nmf in ("clearDirtyFlagForIndex", "isDirtyForIndex"):
        f = prog.fn(IR + "::" + nmf); c.fn(f); x = Ctx(prog, f); g, L = x.g, x.L
        P = ("param", 0, f.params[0]["n"])
        dirty = F("iv_cacheDirtyFlags")
        ops = calls(g, L, lambda n: n.ev[0].startswith("std::set<") and last(n.ev[0]) in ("insert", "find", "count", "contains", "emplace") and n.ev[3] == (P,) and n.ev[2] is not None and n.ev[2][0] == "idx" and n.ev[2][1] == dirty)
        ok = bool(ops)
        for m in ops:
            lp = L.innermost(m)
            it = L.iteration(lp) if lp is not None else None
            if it is None or it.kind not in ("it", "ix"): ok = False; continue
            src = calls(g, L, lambda n: last(n.ev[0]) == "getSubsumedTypes" and len(n.ev[3]) == 2 and n.ev[3][1] == it.cont and n.ev[3][0] is not None and n.ev[3][0][0] == "call" and last(n.ev[3][0][1]) == "getType" and n.ev[3][0][2] == P)
            ok = ok and bool(src) and L.dom(lp.head, [n.i for n in src]) and it.starts and it.steps and it.iselem(m.ev[2][2]) and not L.cycle_avoids(lp, [m.i])
            if nmf == "clearDirtyFlagForIndex": ok = ok and not it.early
            else:
                # leaves early only with true and only when the mark is missing; full round returns false
                r = explore(g)
                for n in g.nodes:
                    if n.k != "ret": continue
                    for facts, us in r.at.get(n.i, ()):
                        v = n.ev[0]
                        missing = any((k[0] == "eq" and k[2] == 0 and any(y[0] == "call" and last(y[1]) == "find" for y, z in k[1]) and any(y[0] == "call" and last(y[1]) in ("end", "cend") for y, z in k[1])) or (k[0] == "nb" and k[1][0] == "call" and last(k[1][1]) in ("count", "contains")) for k in facts)
                        if v == ("int", 1): ok = ok and missing
                        elif v == ("int", 0): ok = ok and not missing
        c.judge(ok, "marks|" + nmf, "%s: %s does not handle the mark of the index for exactly the types subsumed by the index's type" % (f.loc(), f.q), "%s covers all subsumed types" % f.q)

# ---------------------------------------------------------------- cache fills
def fills(prog, c):
    comp = ("f", ("this",), IN + "CompositeIndex::iv_tyComponents")
    for f in [f for f in prog.fns.values() if f.name == "clearAndFillCache" and f.cls and f.cls.startswith(IN)]:
        c.fn(f); x = Ctx(prog, f, keep=ordering_helpers(prog)); g, L = x.g, x.L
        def iscache(o): return o is not None and o[0] == "f" and o[1] == ("this",) and last(o[2]) == "iv_cache"
        clears = calls(g, L, lambda n: last(n.ev[0]) == "clear" and iscache(n.ev[2]))
        ins = calls(g, L, lambda n: last(n.ev[0]) in ("insert", "push_back", "emplace_back") and iscache(n.ev[2]))
        stores = [n for n in g.nodes if n.k == "set" and n.i in L.live and n.ev[0] is not None and n.ev[0][0] == "idx" and iscache(n.ev[0][1])]
        iters_ = calls(g, L, lambda n: last(n.ev[0]) == "createIterator")
        c.judge(bool(iters_), "fill|create|%s" % f.u, "%s: the fill creates no iterators over the components" % f.loc())
        for n in iters_:
            lp = L.innermost(n); it = L.iteration(lp) if lp is not None else None
            c.judge(it is not None and it.full() and it.cont == comp and it.iselem(n.ev[2]) and not L.cycle_avoids(lp, [n.i]), "fill|comps|%s" % f.u, "%s: the fill does not visit every component index%s" % (n.loc(), ": " + it.why() if it is not None else ""), "%s visits every component" % f.q)
        if ins and not stores:
            c.judge(bool(clears) and L.dom(ins[0].i, [n.i for n in clears]), "fill|clear|%s" % f.u, "%s: the cache is filled without being emptied first" % f.loc())
            for n in ins:
                lp = L.innermost(n); it = L.iteration(lp)
                v = n.ev[3][-1]
                p = protocol(L, it)
                ok = p is None and v[0] == "call" and last(v[1]) == "get" and v[2] == it.var and not L.cycle_avoids(lp, [n.i]) and not L.path(L.succs(n.i), [n.i], [lp.head], within=lp.body)
                # inserted before the step
                nx = [k.i for k in calls(g, L, lambda k: last(k.ev[0]) == "moveToNext" and k.i in lp.body)]
                ok = ok and not L.path(L.succs(lp.head), [n.i], [] , within=lp.body - set()) or False if not ok else ok and not any(L.path(L.succs(k), [n.i], [lp.head], within=lp.body) for k in nx)
                c.judge(ok, "fill|each|%s" % f.u, "%s: the fill does not insert every element of a component once (%s)" % (n.loc(), p or show(v)), "%s inserts each element" % f.q)
        elif stores:
            ordered_fill(prog, c, f, x, iscache, comp, stores)
        else: c.bad("fill|none|%s" % f.u, "%s: the cache is never filled" % f.loc())

def ordering_helpers(prog):
    """free functions of the index sources that compare two FSs through an IndexComparator or order a vector of iterators"""
    out = set()
    for f in prog.fns.values():
        if f.cls: continue
        cmpr = any(n["k"] == "call" and (n.get("fn") or "").endswith("IndexComparator::compare") for n in f.nodes)
        vec = any("vector" in p.get("t", "") and "IndexIterator" in p.get("t", "") for p in f.params)
        if cmpr or vec: out.add(f.name)
    return tuple(out)

def sum_of_sizes(g, L, comp, size):
    """the variable holds the sum of getSize() over every component"""
    if size is None or size[0] not in ("var", "ret"): return False
    adds = [n for n in g.nodes if n.k == "set" and n.ev[0] == size and n.i in L.live]
    inc = [n for n in adds if n.ev[1] == "+=" or (n.ev[1] == "=" and n.ev[2] is not None and n.ev[2][0] == "op" and contains(n.ev[2], size))]
    ini = [n for n in adds if n not in inc]
    if len(inc) != 1 or len(ini) != 1 or ini[0].ev[2] != ("int", 0): return False
    lp = L.innermost(inc[0]); it = L.iteration(lp) if lp is not None else None
    v = inc[0].ev[2]
    alts = [v] + [w for y in subforms(v) if y[0] == "var" and y != size for w in values(g, y)]
    gs = [y for w in alts if w is not None for y in subforms(w) if y[0] == "call" and last(y[1]) == "getSize"]
    if it is None or not it.full() or it.cont != comp or L.cycle_avoids(lp, [inc[0].i]) or L.path(L.succs(inc[0].i), [inc[0].i], [lp.head], within=lp.body): return False
    if len(gs) != 1 or not it.iselem(gs[0][2]): return False
    return inc[0].ev[1] == "+=" and v in (gs[0],) + tuple(y for y in subforms(v) if y[0] == "var" and y == v and gs[0] in values(g, y)) or v[0] == "op" and v[1] == "+" and len(v) == 4 and size in v[2:]

def composites(prog, c):
    """size, membership and search of a composite index range over all its components"""
    comp = ("f", ("this",), IN + "CompositeIndex::iv_tyComponents")
    f = prog.fn(IN + "CompositeIndex::getSize"); c.fn(f); x = Ctx(prog, f); g, L = x.g, x.L
    acc = calls(g, L, lambda n: n.ev[0] == "std::accumulate")
    if not acc:
        rets = [n for n in g.nodes if n.k == "ret" and n.i in L.live]
        c.judge(bool(rets) and all(sum_of_sizes(g, L, comp, n.ev[0]) for n in rets), "composite|size", "%s: the size of a composite index is not the sum of the sizes of its components" % f.loc(), "composite size is the sum over its components")
    f = prog.fn(IN + "CompositeIndex::find"); c.fn(f); x = Ctx(prog, f); g, L = x.g, x.L
    P = ("param", 0, f.params[0]["n"])
    fs = calls(g, L, lambda n: last(n.ev[0]) == "find" and n.ev[3] == (P,))
    ok = bool(fs)
    for n in fs:
        lp = L.innermost(n); it = L.iteration(lp) if lp is not None else None
        ok = ok and it is not None and it.cont == comp and it.starts and it.steps and it.iselem(n.ev[2]) and not L.cycle_avoids(lp, [n.i])
    r = explore(g) if ok else None
    if ok:
        nf = [n_form(n) for n in fs]
        isf = lambda o: o is not None and (o in nf or any(v in nf for v in values(g, o)))
        for n in g.nodes:
            if n.k != "ret": continue
            for facts, us in r.at.get(n.i, ()):
                v = n.ev[0]
                if v is not None and v[0] in ("var", "ret") and len(values(g, v)) > 1: ok = ok and not any(w is not None and w[0] == "param" for w in values(g, v)); continue
                if isf(v): ok = ok and any(any(isf(z) for z in subforms(y)) for k in facts for y in fact_forms(k))
                else: ok = ok and not any(k[0] in ("ne", "b") and any(any(isf(z) for z in subforms(y)) for y in fact_forms(k)) and any(y2[0] == "glob" for y in fact_forms(k) for y2 in subforms(y)) for k in facts)
        ok = ok and any(n.k == "ret" and n.i in L.live and isf(n.ev[0]) for n in g.nodes)
        for n in fs:
            lp = L.innermost(n)
            for m, t, l in L.exits(lp):
                cnd = exitcond(l)
                if cnd is not None and any(isf(y) for y in subforms(cnd)):
                    ok = ok and cnd[0] == "cmp" and cnd[1] == "!="
    c.judge(ok, "composite|find", "%s: searching a composite index does not try every component until one has it" % f.loc(), "composite search tries every component")

def ordered_fill(prog, c, f, x, iscache, comp, stores):
    g, L = x.g, x.L
    rs = calls(g, L, lambda n: last(n.ev[0]) == "resize" and iscache(n.ev[2]))
    size = rs[0].ev[3][0] if rs else None
    c.judge(bool(rs) and L.dom(stores[0].i, [n.i for n in rs]), "merge|resize", "%s: the cache is not sized before it is filled" % f.loc())
    ok = sum_of_sizes(g, L, comp, size)
    if ok: pass
    elif size is not None and size[0] == "call" and last(size[1]) == "getSize" and size[2] == ("this",): ok = True
    c.judge(ok, "merge|size", "%s: the cache is not sized to the sum of the component sizes" % f.loc(), "cache size is the sum over all components")
    # kept iterators: every created iterator that is valid is kept
    cr = calls(g, L, lambda n: last(n.ev[0]) == "createIterator")
    ok = bool(cr)
    for n in cr:
        lp = L.innermost(n); it = L.iteration(lp) if lp is not None else None
        if it is None or it.cont != comp or not it.iselem(n.ev[2]): ok = False; continue
        nf = n_form(n)
        same = lambda o: o is not None and (o == nf or nf in values(g, o))
        keep = [k.i for k in calls(g, L, lambda k: std(k, "push_back") and k.ev[3] and same(k.ev[3][0]))]
        first = [k.i for k in calls(g, L, lambda k: last(k.ev[0]) == "moveToFirst" and same(k.ev[2]))]
        isv = lambda cnd: cnd[0] == "not" and cnd[1][0] == "call" and last(cnd[1][1]) == "isValid" and same(cnd[1][2])
        ok = ok and bool(keep) and bool(first) and all(L.dom(k, first) for k in keep) and not misses(g, L, lp, n.i, keep, isv)
    c.judge(ok, "merge|keep", "%s: the merge does not start from every non-empty component" % f.loc(), "every non-empty component takes part in the merge")
    # each element taken exactly once: store(get of it) -> ++i and moveToNext of it, before anything else happens to either
    ctr = {n.ev[0][2] for n in stores}
    src = {n.ev[2][2] if n.ev[2] is not None and n.ev[2][0] == "call" and last(n.ev[2][1]) == "get" else None for n in stores}
    okv = None not in src and len(ctr) == 1
    c.judge(okv, "merge|store", "%s: the cache is not filled with the current elements of the component iterators at one running position" % f.loc())
    if not okv: return
    I_ = list(ctr)[0]
    bad = []
    def step(n, facts, us):
        # us: (pending source or None, inc done, adv done)
        p, i, a = us
        if n in stores:
            if p is not None: bad.append((n, "a second element is stored before the position and the iterator have advanced"))
            s = n.ev[2][2]
            valid = ("b", ("call", next((y[1] for y in [k[1] for k in facts if k[0] == "b"] if y[0] == "call" and last(y[1]) == "isValid" and y[2] == s), "?"), s, ())) in facts
            if not valid: bad.append((n, "an element is taken from an iterator that may be at its end"))
            if s[0] == "idx":
                two = [k for k in facts if k[0] in ("nb",) and k[1][0] == "call" and last(k[1][1]) == "isValid" and k[1][2] is not None and k[1][2][0] == "idx" and k[1][2][1] == s[1] and k[1][2] != s]
                cmpd = [k for k in facts if k[0] == "le" and len(k[1]) == 1 and k[1][0][0][0] == "call" and k[2] == -1 and k[1][0][1] == -1 and [y[2] for y in k[1][0][0][3] if y is not None and y[0] == "call" and last(y[1]) == "get"][:1] == [s]]
                if not (single(facts, s) or two or cmpd): bad.append((n, "an element is taken that is not known to precede the other iterators' elements"))
            return [(facts, (s, False, False))]
        e = effect(n, I_)
        if e is not None and n.k == "set" and not L.path([n.i], [k.i for k in stores]) and us[0] is None: e = None   # the merge is over
        if e is not None and n.k == "set":
            if e == "step":
                if p is None or i: bad.append((n, "the position advances without an element being stored"))
                else: us = (p, True, a)
            elif p is not None: bad.append((n, "the position is changed in the middle of a step"))
            elif e != ("int", 0): bad.append((n, "the position is changed"))
        if n.k == "call" and n.ev[0]:
            m = last(n.ev[0])
            if m.startswith("moveTo") and n.ev[2] in src | {None} or (m.startswith("moveTo") and n.ev[2] is not None and n.ev[2][0] == "idx"):
                if m == "moveToNext" and us[0] is not None and n.ev[2] == us[0] and not us[2]: us = (us[0], us[1], True)
                else: bad.append((n, "a component iterator is moved without its element being stored"))
                facts = frozenset(k for k in facts if not any(contains(y, n.ev[2]) for y in fact_forms(k)))
            elif last(n.ev[0]) == "bubbleSortIterators" or (n.ev[3] and any(s is not None and s[0] == "idx" and s[1] in n.ev[3] for s in src)):
                if us[0] is not None: bad.append((n, "the iterators are reordered in the middle of a step"))
                facts = frozenset(k for k in facts if not any(y2[0] == "call" and last(y2[1]) == "isValid" for y in fact_forms(k) for y2 in subforms(y)))
        if us[0] is not None and us[1] and us[2]: us = (None, False, False)
        if n.k == "br" and us[0] is not None: bad.append((n, "a decision is taken in the middle of a step"))
        if n.k == "exit" and us[0] is not None: bad.append((n, "the fill ends in the middle of a step"))
        return [(facts, us)]
    r = explore(g, ustate=(None, False, False), step=step)
    for n, m in bad: c.bad("merge|step|%s" % m, "%s: %s" % (n.loc(), m))
    if not bad: c.ok("each merge step stores one element and advances position and iterator once")
    # after the order test fails the iterators are put in order again before the next test
    tests = [n for n in g.nodes if n.k == "br" and n.i in L.live and n.ev[0] is not None and any(y[0] == "call" and y[2] is None and sum(1 for z in y[3] if z is not None and z[0] == "call" and last(z[1]) == "get") >= 2 for y in subforms(n.ev[0]))]
    sorts = [n.i for n in calls(g, L, lambda n: (n.ev[0] in ("std::sort", "std::stable_sort") or not n.ev[0].startswith("std::")) and n.ev[2] is None and any(contains(a, s.ev[2][2][1]) for a in n.ev[3] if a is not None for s in stores if s.ev[2][2][0] == "idx") and not any(y[0] == "call" and last(y[1]) == "get" for a in n.ev[3] if a is not None for y in subforms(a)))]
    for n in tests:
        for t, l in n.succ:
            if l is None or l[0] != "t": continue
            cnd = exitcond(l)
            if cnd is not None and cnd[0] == "cmp" and cnd[1] in ("<=", ">="): c.judge(not L.path([t.i], [k.i for k in tests], sorts), "merge|resort", "%s: the order test can be repeated without ordering the iterators: the merge does not end" % n.loc(), "iterators are ordered again after a failed test")
        c.judge(L.dom(n.i, sorts), "merge|sorted", "%s: the merge starts with unordered iterators" % n.loc(), "iterators are ordered before the merge")
    # the fill ends only when everything is placed
    frees = [n for n in g.nodes if n.k == "del" and n.i in L.live]
    full = True
    for n in g.nodes:
        if n.k != "exit": continue
        for facts, us in r.at.get(n.i, ()):
            pass
    SZ = lambda fm: fm[0] == "call" and last(fm[1]) in ("size",)
    for lp in L.loops.values():
        inner = [s for s in stores if s.i in lp.body]
        if not inner: continue
        outer = [l for l in L.loops.values() if l is not lp and lp.body < l.body and any(s.i in l.body for s in stores)]
        if outer: continue
        for n, t, l in L.exits(lp):
            if L.throws(t.i): continue
            cnd = exitcond(l)
            ok = False
            if cnd is not None:
                if cnd[0] == "not" and cnd[1][0] == "call" and last(cnd[1][1]) == "isValid": ok = all(single(facts, cnd[1][2]) for facts, us in r.at.get(n.i, ()))
                if cnd[0] == "cmp" and cnd[1] in (">=", "==") and cnd[2] == I_ and cnd[3] == size: ok = True
                if cnd[0] == "cmp" and cnd[1] in ("<=", "==") and cnd[3] == I_ and cnd[2] == size: ok = True
            c.judge(ok, "merge|end", "%s: the merge can end before every element is in the cache" % n.loc(), "merge ends when all elements are placed")

def single(facts, itf):
    """the iterator is the only one: vector size is known to be 1"""
    if itf[0] != "idx": return True
    return any(k[0] == "eq" and k[2] == 1 and len(k[1]) == 1 and k[1][0][0][0] == "call" and last(k[1][0][0][1]) == "size" and k[1][0][0][2] == itf[1] for k in facts)

# ---------------------------------------------------------------- single indexes
def singles(prog, c):
    S = IN + "SingleIndex"
    conc = [q for q in prog.subclasses(S) if any(f.cls == q and f.name == "createIterator" for f in prog.fns.values())]
    if len(conc) < 3: raise AnalysisBroken("single index classes: %s" % conc)
    for q in conc:
        def m(name):
            r = [f for f in prog.fns.values() if f.cls == q and f.name == name]
            if not r: raise AnalysisBroken("%s::%s has no body" % (q, name))
            return r[0]
        ci = Ctx(prog, m("createIterator")); c.fn(ci.f)
        news = [n for n in ci.g.nodes if n.k == "call" and n.i in ci.L.live and last(n.ev[0]).startswith("STLSingleIndexIterator")]
        if not news: raise AnalysisBroken("%s::createIterator" % q)
        cont = news[0].ev[3][0]
        c.judge(cont is not None and cont[0] == "f" and cont[1] == ("this",), "single|iter|%s" % q, "%s: the iterator does not run over the index's own container" % news[0].loc())
        # add
        f = m("add"); x = Ctx(prog, f); c.fn(f); g, L = x.g, x.L; P = ("param", 0, f.params[0]["n"])
        ins = calls(g, L, lambda n: n.ev[2] == cont and last(n.ev[0]) in ("push_back", "insert", "emplace", "emplace_back"))
        oth = [n for n in calls(g, L, lambda n: n.ev[2] == cont and last(n.ev[0]) in ("erase", "clear", "pop_back", "resize", "swap"))]
        ids = [n.i for n in ins]
        c.judge(bool(ins) and not L.path([g.entry.i], [g.exit.i], ids), "single|add|%s" % q, "%s: %s::add can return without inserting the FS" % (f.loc(), q))
        c.judge(all(n.ev[3][-1] == P for n in ins), "single|addval|%s" % q, "%s: %s::add inserts something else than the given FS" % (f.loc(), q))
        c.judge(not any(L.path(L.succs(i), ids) for i in ids) and not oth, "single|once|%s" % q, "%s: %s::add may insert the FS more than once or drop elements" % (f.loc(), q), "%s::add inserts once" % q)
        if any(last(n.ev[0]) == "push_back" for n in ins) and any(last(n.ev[0]) == "insert" for n in ins): sorted_insert(prog, c, q, x, ins, cont, P)
        # remove
        f = m("remove"); x = Ctx(prog, f); c.fn(f); g, L = x.g, x.L; P = ("param", 0, f.params[0]["n"])
        er = calls(g, L, lambda n: n.ev[2] == cont and last(n.ev[0]) in ("erase", "pop_back", "clear", "resize", "pop_front", "swap"))
        c.judge(bool(er), "single|remove|%s" % q, "%s: %s::remove erases nothing" % (f.loc(), q))
        for n in er:
            c.judge(last(n.ev[0]) == "erase" and erases_identical(prog, x, n, P), "single|erase|%s" % q, "%s: %s::remove may erase an element that is not the given FS" % (n.loc(), q), "%s::remove erases only the FS itself" % q)
        search(prog, c, q, x, er, cont, P)
        # reset
        f = m("reset"); x = Ctx(prog, f); c.fn(f)
        cl = [n.i for n in calls(x.g, x.L, lambda n: n.ev[2] == cont and last(n.ev[0]) == "clear")]
        c.judge(bool(cl) and not x.L.path([x.g.entry.i], [x.g.exit.i], cl), "single|reset|%s" % q, "%s: %s::reset does not empty the index" % (f.loc(), q), "%s::reset empties" % q)
        f = m("getSize"); x = Ctx(prog, f); c.fn(f)
        for n in x.g.nodes:
            if n.k == "ret": c.judge(n.ev[0] is not None and n.ev[0][0] == "call" and last(n.ev[0][1]) == "size" and n.ev[0][2] == cont, "single|size|%s" % q, "%s: %s::getSize is not the number of elements" % (n.loc(), q))
        for f in prog.fns.values():
            if f.cls == q and f.name == "getVector":
                x = Ctx(prog, f)
                for n in x.g.nodes:
                    if n.k == "ret": c.judge(n.ev[0] == cont, "single|vector|%s" % q, "%s: %s::getVector does not hand out the index's container" % (n.loc(), q))
    # contains: identity over every element
    f = prog.fn(S + "::contains"); x = Ctx(prog, f); c.fn(f); g, L = x.g, x.L; P = ("param", 0, f.params[0]["n"])
    identity_search(prog, c, f, x, P, "contains")
    f = prog.fn(IR + "::contains"); x = Ctx(prog, f); c.fn(f); g, L = x.g, x.L; P = ("param", 0, f.params[0]["n"])
    cs = calls(g, L, lambda n: last(n.ev[0]) == "contains" and not n.ev[0].startswith("std::"))
    for n in cs:
        lp = L.innermost(n); it = L.iteration(lp) if lp is not None else None
        okc = it is not None and it.cont is not None and ((it.cont[0] == "call" and last(it.cont[1]) == "getAllSingleIndexesForType" and is_type_of(it.cont[3][0], P)) or (it.cont[0] == "idx" and it.cont[1] == F("iv_indexes") and is_type_of(it.cont[2], P)))
        c.judge(okc and it.starts and it.steps and it.iselem(n.ev[2]) and n.ev[3] == (P,) and not L.cycle_avoids(lp, [n.i]), "repo|contains", "%s: contains() does not ask every index of the FS's type" % n.loc())
    r = explore(g)
    for n in g.nodes:
        if n.k != "ret": continue
        for facts, us in r.at.get(n.i, ()):
            hit = has_b(facts, lambda fm: fm[0] == "call" and last(fm[1]) == "contains")
            if n.ev[0][0] == "int": c.judge(bool(n.ev[0][1]) == hit, "repo|containsret", "%s: contains() returns %s" % (n.loc(), n.ev[0][1]))

def is_type_of(t, P): return t[0] == "call" and last(t[1]) == "getType" and t[3] == (P,)

def identity_search(prog, c, f, x, P, what):
    g, L = x.g, x.L
    gets = calls(g, L, lambda n: last(n.ev[0]) == "get" and L.innermost(n) is not None)
    ok = bool(gets)
    for n in gets:
        lp = L.innermost(n); it = L.iteration(lp)
        ok = ok and it.kind == "iter" and n.ev[2] == it.var
        it2 = it; early = it.early; it.early = []
        ok = ok and protocol(L, it) is None
        it.early = early
    r = explore(g)
    for n in g.nodes:
        if n.k != "ret" or n.ev[0] is None or n.ev[0][0] != "int": continue
        for facts, us in r.at.get(n.i, ()):
            same = any(k[0] == "eq" and k[2] == 0 and len(k[1]) == 2 and any(y == P for y, z in k[1]) and any(y[0] == "call" and last(y[1]) == "get" for y, z in k[1]) for k in facts)
            if bool(n.ev[0][1]) != same: ok = False
    c.judge(ok, "search|%s" % what, "%s: %s is not a test for identity with some element" % (f.loc(), f.q), "%s tests identity" % f.q)

def search(prog, c, q, x, er, cont, P):
    """remove gives up only where the element cannot be: find()==end, or past its position in the order"""
    g, L = x.g, x.L
    r = explore(g)
    ers = {n.i for n in er}
    def fromcont(fm): return fm is not None and any(y[0] == "call" and y[2] == cont and last(y[1]) in ("begin", "cbegin") for y in subforms(fm))
    starts = []
    for n in g.nodes:
        if n.i not in L.live: continue
        fm = None
        if n.k == "call" and last(n.ev[0] or "") in ("find", "lower_bound", "equal_range", "upper_bound"): 
            starts.append((n, last(n.ev[0])))
    ok = True
    for n, m in starts:
        if m == "upper_bound": ok = False
        if n.ev[2] == cont: ok = ok and n.ev[3] == (P,)
        elif n.ev[0] and n.ev[0].startswith("std::"):
            a = [unconv(y) for y in n.ev[3]]
            ok = ok and len(a) >= 3 and a[0][0] == "call" and last(a[0][1]) in ("begin", "cbegin") and a[0][2] == cont and a[1][0] == "call" and last(a[1][1]) in ("end", "cend") and a[1][2] == cont and a[2] == P
    if not starts: # plain loop over everything
        ok = any(L.iteration(lp).kind == "it" and L.iteration(lp).starts and L.iteration(lp).steps for lp in L.loops.values())
    c.judge(ok, "single|search|%s" % q, "%s: %s::remove does not search the whole index for the FS" % (x.f.loc(), q))
    # loops between lower_bound and the erase step by one and stop only at end, at the FS, or past its equals
    for lp in L.loops.values():
        vs = {n.ev[2] for i in lp.body for n in [g.nodes[i]] if n.k == "call" and n.ev[0] and last(n.ev[0]) == "operator++" and n.ev[2] is not None}
        for n, t, l in L.exits(lp):
            cnd = exitcond(l)
            if cnd is None: continue
            disj = []
            def flat(z):
                if z[0] == "or": flat(z[1]); flat(z[2])
                elif z[0] == "not" and z[1][0] == "and": flat(neg(z[1][1])); flat(neg(z[1][2]))
                else: disj.append(z)
            flat(cnd)
            for z in disj:
                okz = (z[0] == "cmp" and z[1] == "==" and any(y in vs for y in (z[2], z[3])) and any(y == P or (y[0] == "call" and last(y[1]) in ("end", "cend")) for y in (unconv(z[2]), unconv(z[3])))) \
                    or (z[0] == "call" and last(z[1]) == "operator()" and z[3] and z[3][0] == P and z[3][1] in vs)
                c.judge(okz, "single|scan|%s" % q, "%s: %s::remove stops searching at %s although the FS may come later" % (n.loc(), q, show(z)))

def sorted_insert(prog, c, q, x, ins, cont, P):
    """append only when the order allows it, otherwise insert at lower_bound with the index's own comparator"""
    g, L = x.g, x.L
    r = explore(g)
    for n in ins:
        if last(n.ev[0]) == "push_back":
            for facts, us in r.at.get(n.i, ()):
                empty = any((k[0] == "nb" and k[1][0] == "call" and last(k[1][1]) == "size" and k[1][2] == cont) or (k[0] == "le" and len(k[1]) == 1 and k[1][0][1] == 1 and k[1][0][0][0] == "call" and last(k[1][0][0][1]) == "size" and k[2] <= 0) or (k[0] == "eq" and k[2] == 0 and len(k[1]) == 1 and k[1][0][0][0] == "call" and last(k[1][0][0][1]) == "size") or (k[0] == "b" and k[1][0] == "call" and last(k[1][1]) == "empty" and k[1][2] == cont) for k in facts)
                def cmp_(y): return y[0] == "call" and last(y[1]) == "compare" and len(y[3]) == 3 and y[3][1] == P and y[3][2][0] == "call" and last(y[3][2][1]) == "back" and y[3][2][2] == cont
                def cmpr(y): return y[0] == "call" and last(y[1]) == "compare" and len(y[3]) == 3 and y[3][2] == P and y[3][1][0] == "call" and last(y[3][1][1]) == "back" and y[3][1][2] == cont
                order = any(k[0] == "le" and len(k[1]) == 1 and ((k[1][0][1] == 1 and cmp_(k[1][0][0]) and k[2] <= 0) or (k[1][0][1] == -1 and cmpr(k[1][0][0]) and k[2] <= 0)) for k in facts)
                c.judge(empty or order, "order|append|%s" % q, "%s: the FS is appended although it may sort before the last element" % n.loc(), "%s appends only in order" % q)
        else:
            a = unconv(n.ev[3][0])
            ok = a[0] == "call" and last(a[1]) in ("lower_bound", "upper_bound") and len(a[3]) == 4 and a[3][2] == P and unconv(a[3][0])[0] == "call" and unconv(a[3][0])[2] == cont
            c.judge(ok, "order|insert|%s" % q, "%s: the FS is not inserted at its place in the order (%s)" % (n.loc(), show(a)), "%s inserts at lower_bound" % q)

# ---------------------------------------------------------------- iterators over containers
def iters(prog, c):
    q = IN + "STLSingleIndexIterator"
    seen = set()
    for f in sorted((f for f in prog.fns.values() if f.cls == q), key=lambda f: f.u):
        name = f.name
        if f.d.get("kind") != "method" or name.startswith(("operator", "clone", "getTyFSType")): continue
        x = Ctx(prog, f); g, L = x.g, x.L; c.fn(f); c.count("iterator_methods")
        itf = None; cont = None
        for n in f.nodes:
            if n["k"] == "mem" and last(n.get("f", "")) == "iv_it": itf = ("f", ("this",), n["f"])
            if n["k"] == "mem" and last(n.get("f", "")) == "iv_crStructures": cont = ("f", ("this",), n["f"])
        def b(v): v = unconv(v); return v is not None and v[0] == "call" and last(v[1]) in ("begin", "cbegin") and (cont is None or v[2] == cont)
        def e(v): v = unconv(v); return v is not None and v[0] == "call" and last(v[1]) in ("end", "cend") and (cont is None or v[2] == cont)
        key = "iter|%s" % name
        if name == "isValid":
            for n in g.nodes:
                if n.k == "ret": c.judge(n.ev[0] is not None and n.ev[0][0] == "cmp" and n.ev[0][1] == "!=" and {n.ev[0][2] == itf, n.ev[0][3] == itf} == {True, False} and (e(n.ev[0][3]) or e(n.ev[0][2])), key, "%s: isValid() is not 'before the end'" % n.loc())
            continue
        if name == "get":
            for n in g.nodes:
                if n.k == "ret": c.judge(n.ev[0] == itf, key, "%s: get() does not return the current element" % n.loc())
            continue
        if name not in ("moveToFirst", "moveToLast", "moveToNext", "moveToPrevious"): continue
        # abstract position: 'cur' | 'begin' | 'end' | 'last' | 'next' | 'prev'
        bad = []
        def step(n, facts, us):
            if n.k in ("call", "set"):
                if n.k == "call" and n.ev[2] == itf and n.ev[0]:
                    m = last(n.ev[0])
                    if m == "operator++": us = {"cur": "next"}.get(us, "?")
                    elif m == "operator--": us = {"cur": "prev", "end": "last"}.get(us, "?")
                    elif m == "operator=":
                        a = n.ev[3][0]; us = "begin" if b(a) else "end" if e(a) else "?"
                    elif m in ("operator+=", "operator-="): us = "?"
                    if m.startswith("operator") and m not in ("operator*", "operator->", "operator==", "operator!="):
                        facts = frozenset(k for k in facts if not any(contains(y, itf) for y in fact_forms(k)))
                elif n.k == "set" and n.ev[0] == itf:
                    if n.ev[1] == "=": us = "begin" if b(n.ev[2]) else "end" if e(n.ev[2]) else "?"
                    elif n.ev[1] == "++": us = {"cur": "next"}.get(us, "?")
                    elif n.ev[1] == "--": us = {"cur": "prev", "end": "last"}.get(us, "?")
                    facts = frozenset(k for k in facts if not any(contains(y, itf) for y in fact_forms(k)))
            return [(facts, us)]
        # facts about begin()==end() survive; position facts are tested where taken
        def edge(n, tgt, lab, f3, us):
            cnd = None
            if lab is not None and lab[0] == "t" and lab[1] is not None: cnd = lab[1] if lab[2] else neg(lab[1])
            if cnd is not None and cnd[0] == "cmp" and cnd[1] in ("==", "!="):
                z = [unconv(cnd[2]), unconv(cnd[3])]
                if itf in z or all(b(y) or e(y) for y in z):
                    o = z[1] if z[0] == itf else z[0]
                    at = "begin" if b(o) else "end" if e(o) else None
                    if itf not in z: at = "empty"
                    if cnd[1] == "==":
                        if us == "cur" and at == "begin": return "curbegin"
                        if us == "begin" and at == "end": return "endempty"
                        if at == "empty": return "endempty"
                    else:
                        if us == "cur" and at == "begin": return "curnotbegin"
            return us
        def step2(n, facts, us):
            w = us
            if us == "curnotbegin": w = "cur"
            r = step(n, facts, w if w != "curbegin" else "curbegin")
            f2, u2 = r[0]
            if us in ("curnotbegin", "curbegin", "endempty") and u2 in ("cur", us): u2 = us
            if us == "curnotbegin" and u2 == "prev": u2 = "prevok"
            return [(f2, u2)]
        r = explore(g, ustate="cur", step=step2, edge=edge)
        fin = {us for facts, us in r.at.get(g.exit.i, ())}
        want = {"moveToFirst": [{"begin"}, {"begin", "endempty"}], "moveToNext": [{"next"}], "moveToLast": [{"last", "endempty"}, {"last", "end"}], "moveToPrevious": [{"prevok", "end"}]}[name]
        c.judge(fin in want or (name == "moveToPrevious" and fin == {"prevok", "end"}), key, "%s: %s ends at %s" % (f.loc(), name, sorted(fin)), "%s ends at %s" % (name, sorted(fin)))

# ---------------------------------------------------------------- filtering decorators
def decorators(prog, c):
    """moves of an iterator that filters another one"""
    found = 0
    base = "uima::lowlevel::IndexIterator"
    for q in sorted(set(prog.subclasses(base))):
        ms = {f.name: f for f in prog.fns.values() if f.cls == q}
        if not {"moveToFirst", "moveToNext", "moveToPrevious", "moveToLast", "moveTo"} <= set(ms): continue
        flds = [x["q"] for cl in prog.clsq.get(q, []) for x in cl["fields"] if x["t"].replace("const", "").strip() in ("uima::lowlevel::IndexIterator *", "IndexIterator *")]
        # acceptance predicate: found in the class's own skip loops
        def ispred(fm):
            for y in subforms(fm):
                if y[0] == "call" and last(y[1]) in ("isFiltered",): return True
                if y[0] == "call" and last(y[1]) in ("find", "count", "contains") and y[1].startswith("std::set"): return True
            return False
        if len(flds) != 1: continue
        inner = ("f", ("this",), flds[0])
        loops = False
        for f in ms.values():
            x = Ctx(prog, f)
            if any(n.k == "br" and n.ev[0] is not None and ispred(n.ev[0]) for n in x.g.nodes): loops = True
        if not loops: continue
        found += 1
        for name in ("moveToFirst", "moveToNext", "moveToPrevious", "moveToLast", "moveTo"):
            f = ms[name]; c.fn(f); c.count("iterator_methods")
            x = Ctx(prog, f); g, L = x.g, x.L
            fwd = name in ("moveToFirst", "moveToNext", "moveTo")
            seq = []
            def step(n, facts, us):
                if n.k == "call" and n.ev[2] == inner and n.ev[0] and last(n.ev[0]).startswith("moveTo"):
                    m = last(n.ev[0])
                    if m != ("moveToNext" if fwd else "moveToPrevious") and m != name: seq.append((n, m))
                    first = us[0] is None
                    facts = frozenset(k for k in facts if not any(contains(y, inner) for y in fact_forms(k)))
                    us = (us[0] or m, us[1], m)
                    if first and m != name: seq.append((n, m))
                    if m == "moveTo": us = (us[0], True, m)
                return [(facts, us)]
            r = explore(g, ustate=(None, False, None), step=step)
            for n, m in seq: c.bad("deco|%s|%s" % (q, name), "%s: %s::%s moves the underlying iterator with %s" % (n.loc(), q, name, m))
            bad = False
            for facts, us in r.at.get(g.exit.i, ()):
                inval = has_b(facts, lambda fm: fm[0] == "call" and last(fm[1]) == "isValid" and fm[2] == inner, False)
                acc = any((k[0] == "nb" and k[1][0] == "call" and last(k[1][1]) == "isFiltered" and contains(k[1], inner)) or
                          (k[0] == "ne" and any(y[0] == "call" and last(y[1]) == "find" and contains(y, inner) for y, z in k[1]) and any(y[0] == "call" and last(y[1]) in ("end", "cend") for y, z in k[1])) or
                          (k[0] == "b" and k[1][0] == "call" and last(k[1][1]) in ("count", "contains") and contains(k[1], inner)) for k in facts)
                failed = name == "moveTo" and has_b(facts, lambda fm: fm[0] == "call" and last(fm[1]) == "moveTo" and fm[2] == inner, False)
                if us[0] is None: bad = True
                if not (inval or acc or failed): bad = True
            # moveTo: the failure fact is killed with the move itself; accept when the result is tested right after
            if name == "moveTo" and bad:
                bad = moveto_unfiltered(prog, f, inner)
            c.judge(not bad, "filter|%s|%s" % (q, name), "%s: %s::%s can end on an element that does not pass the filter" % (f.loc(), q, name), "%s::%s ends at the end or on a passing element" % (q, name))
        # the predicate excludes what it should
        f = ms.get("isValid")
        x = Ctx(prog, f)
        for n in x.g.nodes:
            if n.k == "ret": c.judge(n.ev[0] is not None and n.ev[0][0] == "call" and last(n.ev[0][1]) == "isValid" and n.ev[0][2] == inner, "deco|valid|%s" % q, "%s: isValid is not that of the underlying iterator" % n.loc())
    if found < 2: raise AnalysisBroken("filtering iterators: %d" % found)

def moveto_unfiltered(prog, f, inner):
    """True when some path with a successful move ends on an unfiltered position"""
    x = Ctx(prog, f); g = x.g
    def step(n, facts, us):
        if n.k == "call" and n.ev[2] == inner and n.ev[0]:
            m = last(n.ev[0])
            if m == "moveTo": us = "moved"
            elif m.startswith("moveTo"): us = "scan"
            if m.startswith("moveTo"):
                facts = frozenset(k for k in facts if not any(contains(y, inner) for y in fact_forms(k)))
        if n.k == "set" and n.ev[2] is not None and contains(n.ev[2], inner) and us == "moved" and n.isb: pass
        return [(facts, us)]
    r = explore(g, ustate="start", step=step)
    for facts, us in r.at.get(g.exit.i, ()):
        inval = has_b(facts, lambda fm: fm[0] == "call" and last(fm[1]) == "isValid" and fm[2] == inner, False)
        acc = any((k[0] == "nb" and k[1][0] == "call" and last(k[1][1]) == "isFiltered") or (k[0] == "ne" and any(y[0] == "call" and last(y[1]) == "find" for y, z in k[1])) or (k[0] == "b" and k[1][0] == "call" and last(k[1][1]) in ("count", "contains")) for k in facts)
        failed = any(k[0] == "nb" and k[1][0] == "call" and last(k[1][1]) == "moveTo" for k in facts) or any(k[0] == "nb" and k[1][0] == "var" for k in facts)
        if us == "start" or not (inval or acc or failed): return True
    return False

# ---------------------------------------------------------------- construction of the repository
def build(prog, c):
    f = prog.fn(IR + "::init"); x = Ctx(prog, f); c.fn(f); g, L = x.g, x.L
    idx, mp, non = F("iv_indexes"), F("iv_idMaximalTypeMapping"), F("iv_idNonMaximalTypeIndexes")
    def sub_of(lst, t):
        return [n for n in calls(g, L, lambda n: last(n.ev[0]) == "getSubsumedTypes" and len(n.ev[3]) == 2 and n.ev[3][1] == lst and n.ev[3][0] == t)]
    cs = calls(g, L, lambda n: last(n.ev[0]) == "createSingleIndex")
    if not cs: raise AnalysisBroken("init creates no single index")
    for n in cs:
        es = L.enclosing(n)
        ok = len(es) >= 2
        if ok:
            a, b = L.iteration(es[0]), L.iteration(es[1])
            T = n.ev[3][1]
            ids = calls(g, L, lambda k: last(k.ev[0]) == "getAllIndexIDs" and k.ev[3] == (b.cont,))
            ok = a.full() and b.full() and a.iselem(T) and bool(ids)
            IDs = [y for y in subforms(n.ev[2]) if b.iselem(y)]
            ok = ok and any(True for y in IDs)
            tfi = [k for k in sub_of(a.cont, None)] or calls(g, L, lambda k: last(k.ev[0]) == "getSubsumedTypes" and k.ev[3][1] == a.cont and k.ev[3][0][0] == "call" and last(k.ev[3][0][1]) == "getTypeForIndex" and b.iselem(k.ev[3][0][3][0]))
            ok = ok and bool(tfi)
            pb = calls(g, L, lambda k: std(k, "push_back") and k.ev[2] == ("idx", idx, T))
            made = None
            ok = ok and bool(pb) and L.post(n.i, [k.i for k in pb]) and not L.cycle_avoids(es[0], [k.i for k in pb]) and all(prod(k.ev[3][0], "createSingleIndex", g) for k in pb)
            ms = [k for k in g.nodes if k.k == "set" and k.i in L.live and k.ev[0] is not None and k.ev[0][0] == "idx" and k.ev[0][1] == ("idx", mp, T) and b.iselem(k.ev[0][2])]
            def slot(k):
                v = k.ev[2]
                return v == ("call", v[1], ("idx", idx, T), ()) and last(v[1]) == "size" and all(L.path(L.succs(k.i), [p.i], within=es[0].body - {es[0].head}) for p in pb) if v[0] == "call" else \
                       v[0] == "op" and v[1] == "-" and v[3] == ("int", 1) and v[2][0] == "call" and last(v[2][1]) == "size" and all(L.path(L.succs(p.i), [k.i], within=es[0].body - {es[0].head}) for p in pb)
            ok = ok and bool(ms) and all(slot(k) for k in ms) and not L.cycle_avoids(es[0], [k.i for k in ms])
        c.judge(ok, "init|single", "%s: init() does not give every type below an index's type its own index, registered at the recorded slot" % n.loc(), "every subsumed type of every index id gets a single index")
    ac = calls(g, L, lambda n: last(n.ev[0]) == "addComponent")
    if not ac: raise AnalysisBroken("init adds no components")
    for n in ac:
        es = L.enclosing(n)
        ok = len(es) >= 3
        if ok:
            j, i, d = L.iteration(es[0]), L.iteration(es[1]), L.iteration(es[2])
            v = n.ev[3][0]
            ok = j.full() and i.full() and d.full() and not L.cycle_avoids(es[0], [n.i])
            ok = ok and v[0] == "idx" and v[1][0] == "idx" and v[1][1] == idx and j.iselem(v[1][2]) and v[2] == ("idx", ("idx", mp, v[1][2]), v[2][2] if v[2][0] == "idx" else None) and d.iselem(v[2][2])
            src = calls(g, L, lambda k: last(k.ev[0]) == "getSubsumedTypes" and k.ev[3][1] == j.cont and i.iselem(k.ev[3][0]))
            ok = ok and bool(src)
            cc = calls(g, L, lambda k: last(k.ev[0]) == "createCompositeIndex" and i.iselem(k.ev[3][1]) and any(d.iselem(y) for y in subforms(k.ev[2])))
            ok = ok and bool(cc)
            # skipped only for types without subtypes
            ok = ok and skip_only_maximal(g, L, es[1], es[0].head, i)
            reg = [k for k in g.nodes if k.k == "set" and k.ev[0] is not None and k.ev[0][0] == "idx" and k.ev[0][1][0] == "idx" and k.ev[0][1][1] == non and i.iselem(k.ev[0][1][2]) and d.iselem(k.ev[0][2])]
            ok = ok and bool(reg)
        c.judge(ok, "init|composite", "%s: init() does not build, for every non-maximal type below an index's type, a composite over all types it subsumes" % n.loc(), "composites cover all subsumed types")
    f = prog.fn(IR + "::getLowlevelIndex"); x = Ctx(prog, f); c.fn(f); g, L = x.g, x.L
    ID, T = ("param", 0, f.params[0]["n"]), ("param", 1, f.params[1]["n"])
    r = explore(g)
    rv = None
    vals = []
    for n in g.nodes:
        if n.k == "set" and n.i in L.live and n.ev[2] is not None and n.ev[0] is not None and n.ev[0][0] in ("var", "ret"): vals.append((n, n.ev[2]))
        if n.k == "ret" and n.ev[0] is not None: vals.append((n, n.ev[0]))
    nseen = 0
    for n, v in vals:
        if v[0] == "idx" and v[1] == ("idx", idx, T):
            nseen += 1
            p = v[2]
            ok = (p[0] == "f" and last(p[2]) == "second" and p[1][0] == "call" and p[1][2] == ("idx", mp, T) and p[1][3] == (ID,)) or p == ("idx", ("idx", mp, T), ID)
            for facts, us in r.at.get(n.i, ()): ok = ok and has_b(facts, lambda fm: fm[0] == "call" and last(fm[1]) == "isMaximalType" and fm[3] == (T,))
            c.judge(ok, "lookup|maximal", "%s: getLowlevelIndex hands out the single index of a type that has subtypes, or the wrong slot" % n.loc())
        elif v[0] == "f" and last(v[2]) == "second" and contains(v, non):
            nseen += 1
            c.judge(v[1][0] == "call" and v[1][2] == ("idx", non, T) and v[1][3] == (ID,), "lookup|composite", "%s: getLowlevelIndex hands out the wrong composite index" % n.loc())
    if nseen < 2: raise AnalysisBroken("getLowlevelIndex: %d sources recognised" % nseen)

def prod(fm, name, g):
    if fm is None: return False
    if fm[0] == "call": return last(fm[1]) == name
    if fm[0] == "var":
        vs = [n.ev[2] for n in g.nodes if n.k == "set" and n.ev[0] == fm and n.ev[1] == "="]
        return bool(vs) and all(v is not None and v[0] == "call" and last(v[1]) == name for v in vs)
    return False

def misses(g, L, lp, start, targets, okcut):
    """a path inside the loop from start to the head or out of it that avoids targets and every edge for which okcut(condition) holds"""
    seen = set(); todo = list(L.succs(start)); first = True
    edges = lambda i: g.nodes[i].succ
    todo = [start]
    while todo:
        i = todo.pop()
        if i in seen: continue
        seen.add(i)
        if i in targets: continue
        if i != start and (i == lp.head or i not in lp.body): return True
        for t, l in edges(i):
            if l is not None and l[0] == "eh": continue
            if l is not None and l[0] == "t" and l[1] is not None and okcut(l[1] if l[2] else neg(l[1])): continue
            todo.append(t.i)
    return False

def skip_only_maximal(g, L, lp, target, it):
    """every round of the loop that misses the target went through isMaximalType(elem) == true"""
    seen = set(); todo = [t for t in L.succs(lp.head)]
    # walk, cutting edges labelled with isMaximalType true
    while todo:
        i = todo.pop()
        if i in seen or i not in lp.body or i == target: continue
        seen.add(i)
        if i == lp.head: return False
        for t, l in g.nodes[i].succ:
            if l is not None and l[0] == "t" and l[1] is not None:
                cnd = l[1] if l[2] else neg(l[1])
                if cnd[0] == "call" and last(cnd[1]) == "isMaximalType" and it.iselem(cnd[3][0]): continue
            if l is not None and l[0] == "eh": continue
            todo.append(t.i)
    return True

# ---------------------------------------------------------------- public API
def api(prog, c):
    R = "uima::FSIndexRepository"
    for name, low in (("addFS", "add"), ("removeFS", "remove")):
        f = prog.fn(R + "::" + name); x = Ctx(prog, f); c.fn(f); g, L = x.g, x.L; P = ("param", 0, f.params[0]["n"])
        ms = calls(g, L, lambda n: n.ev[0] == IR + "::" + low)
        ids = [n.i for n in ms]
        ok = bool(ms) and all(len(n.ev[3]) == 1 and n.ev[3][0] is not None and contains(n.ev[3][0], P) for n in ms) and not L.path([g.entry.i], [g.exit.i], ids) and not any(L.path(L.succs(i), ids) for i in ids)
        c.judge(ok, "api|" + name, "%s: %s does not pass the FS to the repository exactly once" % (f.loc(), name), "%s forwards the FS" % name)
        other = calls(g, L, lambda n: n.ev[0].startswith(IR + "::") and last(n.ev[0]) in ("add", "remove", "reset") and n not in ms)
        c.judge(not other, "api|other|" + name, "%s: %s also changes something else" % (f.loc(), name))
    I_ = "uima::FSIterator"
    inner = ("f", ("this",), I_ + "::iv_pIterator")
    for name in ("moveToFirst", "moveToLast", "moveToNext", "moveToPrevious", "moveTo"):
        f = prog.fn(I_ + "::" + name); x = Ctx(prog, f); c.fn(f); g, L = x.g, x.L
        ms = calls(g, L, lambda n: n.ev[2] == inner and last(n.ev[0]).startswith("moveTo"))
        ids = [n.i for n in ms]
        ok = bool(ms) and all(last(n.ev[0]) == name for n in ms) and not L.path([g.entry.i], [g.exit.i], ids) and not any(L.path(L.succs(i), ids) for i in ids)
        c.judge(ok, "api|FSIterator|" + name, "%s: FSIterator::%s is not one %s of the underlying iterator" % (f.loc(), name, name), "FSIterator::%s forwards" % name)
    # peeking leaves the position unchanged
    for name, step1, back, edge_ in (("peekNext", "moveToNext", "moveToPrevious", "moveToLast"), ("peekPrevious", "moveToPrevious", "moveToNext", "moveToFirst")):
        f = prog.fn(I_ + "::" + name); x = Ctx(prog, f); c.fn(f); g = x.g
        def step(n, facts, us):
            if n.k == "call" and n.ev[2] == inner and n.ev[0] and last(n.ev[0]).startswith("moveTo"):
                us = us + (last(n.ev[0]),)
                if len(us) > 4: us = us[:4]
            if n.k == "call" and n.ev[0] and last(n.ev[0]) == "get" and n.ev[2] == inner: us = us + ("get",)
            return [(facts, us)]
        r = explore(g, ustate=(), step=step)
        for facts, us in r.at.get(g.exit.i, ()):
            valid = has_b(facts, lambda fm: fm[0] == "call" and last(fm[1]) == "isValid" and fm[2] == inner)
            inval = has_b(facts, lambda fm: fm[0] == "call" and last(fm[1]) == "isValid" and fm[2] == inner, False)
            mv = tuple(m for m in us if m != "get")
            ok = (valid and us == (step1, "get", back)) or (inval and mv == (step1, edge_) and "get" not in us)
            c.judge(ok, "peek|" + name, "%s: %s moves the iterator (%s)" % (f.loc(), name, ", ".join(us)), "%s restores the position" % name)

# ---------------------------------------------------------------- listing of members (serialisation)
def listing(prog, c):
    """functions that list a view's members cover un-indexed members and every index of every used type, without duplicates"""
    found = 0
    for f in prog.fns.values():
        if not any(n["k"] == "mem" and n.get("f") == IR + "::iv_undefinedindex" for n in f.nodes): continue
        if not any(n["k"] == "call" and last(n.get("fn") or "") == "createIterator" for n in f.nodes): continue
        found += 1; c.fn(f); x = Ctx(prog, f); g, L = x.g, x.L
        gets = calls(g, L, lambda n: last(n.ev[0]) == "get" and n.ev[0].startswith("uima::lowlevel::IndexIterator") and L.innermost(n) is not None)
        outl = set()
        for n in gets:
            es = L.enclosing(n)
            if len(es) < 3: c.bad("list|%s" % f.q, "%s: %s does not list every element of every index of every used type" % (n.loc(), f.q)); continue
            a, b, t = (L.iteration(e) for e in es[:3])
            p = protocol(L, a)
            pb = calls(g, L, lambda k: last(k.ev[0]) in ("push_back",) and k.i in es[0].body and contains(k.ev[3][0], n_form(n)))
            okt = t.full() and t.cont is not None and ((t.cont[0] == "f" and t.cont[2] == IR + "::iv_usedIndexes") or bool(calls(g, L, lambda k: last(k.ev[0]) == "getUsedIndexes" and k.ev[3] == (t.cont,))))
            okb = b.full() and b.cont is not None and b.cont[0] in ("call", "idx") and t.iselem(b.cont[3][0] if b.cont[0] == "call" else b.cont[2])
            ok = p is None and okt and okb and bool(pb) and not L.cycle_avoids(es[0], [k.i for k in pb]) and not L.cycle_avoids(es[1], [es[0].head]) and not L.cycle_avoids(es[2], [es[1].head])
            c.judge(ok, "list|%s" % f.q, "%s: %s does not list every element of every index of every used type (%s)" % (n.loc(), f.q, p or ""), "%s lists all elements" % f.q)
            for k in pb: outl.add(k.ev[2])
        und = [n for n in calls(g, L, lambda n: last(n.ev[0]) == "push_back" and n.ev[2] in outl) if any(y[0] == "f" and y[2] == IR + "::iv_undefinedindex" for y in subforms(n.ev[3][0]))]
        wh = calls(g, L, lambda n: last(n.ev[0]) in ("insert", "assign") and n.ev[2] in outl and any(y[0] == "f" and y[2] == IR + "::iv_undefinedindex" for a in n.ev[3] if a is not None for y in subforms(a)))
        ok = bool(wh)
        for n in und:
            lp = L.innermost(n); it = L.iteration(lp) if lp is not None else None
            ok = it is not None and it.full() and it.iselem(n.ev[3][0]) and not L.cycle_avoids(lp, [n.i])
        c.judge(ok, "listundef|%s" % f.q, "%s: %s does not list every un-indexed member" % (f.loc(), f.q), "%s lists un-indexed members" % f.q)
        # duplicates
        uq = calls(g, L, lambda n: n.ev[0] in ("std::unique",))
        so = calls(g, L, lambda n: n.ev[0] in ("std::sort",))
        for o in outl:
            u1 = [n for n in uq if any(contains(a, o) for a in n.ev[3] if a is not None)]
            s1 = [n for n in so if any(contains(a, o) for a in n.ev[3] if a is not None)]
            ok = bool(u1) and bool(s1) and all(L.dom(n.i, [k.i for k in s1]) for n in u1)
            cut = False
            for n in u1:
                uf = ("call", n.ev[0], n.ev[2], n.ev[3])
                er = calls(g, L, lambda k: last(k.ev[0]) == "erase" and k.ev[2] == o and len(k.ev[3]) == 2 and contains(k.ev[3][0], uf))
                isr = calls(g, L, lambda k: last(k.ev[0]) in ("insert", "assign") and k.ev[2] != o and len(k.ev[3]) >= 2 and contains(k.ev[3][-1], uf) and k.ev[3][-2] is not None and contains(k.ev[3][-2], o))
                cut = bool(er) or bool(isr)
                cnt = calls(g, L, lambda k: last(k.ev[0]) == "push_back" and contains(k.ev[3][0], uf))
                if isr: cut = bool(cnt)
            c.judge(ok and cut, "dups|%s" % f.q, "%s: %s lists an FS once per index it is in" % (f.loc(), f.q), "%s removes duplicates" % f.q)
    if found < 2: raise AnalysisBroken("listings of members: %d" % found)

def n_form(n): return ("call", n.ev[0], n.ev[2], n.ev[3])
