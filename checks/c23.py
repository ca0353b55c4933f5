"""C23: CAS storage grows without losing, overlapping or overrunning cells."""
from .common import *
from .c04 import HQ, SIZEOF, elemtype, heapname
from sa.flow import *

def lin2(f): return lin(ul(f))
def minus(a, b):
    d, c = dict(a[0]), a[1] - b[1]
    for x, k in b[0].items():
        d[x] = d.get(x, 0) - k
        if not d[x]: del d[x]
    return d, c
def eq(a, b): return minus(lin2(a), lin2(b)) == ({}, 0)

def run(prog, c):
    c.rule("reserving n cells returns the old top, raises the top by exactly n, and on every path leaves top <= capacity (linear facts of the path plus the invariant top <= capacity), with the request refused before 31-bit cell numbers overflow")
    c.rule("when the block is replaced the new block has the recorded capacity, all cells below the old top are copied and all others initialised before the old block is deleted, and the block, capacity and top are switched only after the allocation succeeded")
    c.rule("reset reinitialises every cell below the top and restarts at 1; construction provides at least one initialised cell; no other code changes a heap's block, top or capacity")
    c.rule("a structure reserves 1 + (number of features of its type) cells and records its type in the first; an array size that does not fit a cell is refused before any reservation")
    fld = lambda cls, n: ("f", ("this",), cls + "::" + n)
    inl = lambda t, fr: (t.cls or "").startswith("uima::lowlevel::internal::Heap<")
    for f in sorted(prog.fns.values(), key=lambda f: f.u):
        if not f.q.startswith(HQ): continue
        cls = f.q.rsplit("::", 1)[0]; T = elemtype(f.q); W = SIZEOF[T]
        # heap fields are identified by their roles in the accessors
        start, top, cap = roles(prog, cls)
        if f.name == "increaseHeap":
            c.fn(f); c.count("growth_functions")
            fl = Flow(prog, f, inl)
            N = ("param", 0, f.params[0]["n"])
            inv = [({top: 1, cap: -1}, 0), ({top: -1}, 0), ({N: -1}, 0)]
            nrets = 0
            for n, st, v in fl.rets():
                nrets += 1
                env = dict(st[1]); val = lambda x: fold(env.get(x, x))
                s2, t2, c2 = val(start), val(top), val(cap)
                key = "grow|%s|" % T
                c.judge(eq(v, top), key + "result", "%s: reserving cells returns %s instead of the old top" % (n.loc(), show(v)), "reserve returns the old top")
                c.judge(minus(lin2(t2), lin2(top)) == ({N: 1}, 0), key + "top", "%s: reserving n cells changes the top by %s" % (n.loc(), show(unl(minus(lin2(t2), lin2(top))))), "top grows by n")
                ovf = entails_le(st[0], {N: 1, top: 1}, 2 ** 31 - 1)
                c.judge(ovf, key + "overflow", "%s: nothing on this path bounds old top + n: a large request wraps around and the cells handed out do not exist" % n.loc(), "request bounded")
                d = minus(lin2(t2), lin2(c2))
                c.judge(entails_le(st[0], d[0], -d[1], inv), key + "capacity", "%s: the new top %s may exceed the capacity %s (path: %s)" % (n.loc(), show(t2), show(c2), facts_show(st[0])), "top <= capacity")
                if s2 == start:
                    c.judge(c2 == cap, key + "cap-unchanged", "%s: the recorded capacity becomes %s without a new block" % (n.loc(), show(c2)))
                    continue
                if s2[0] != "new": c.bad(key + "block", "%s: the block becomes %s" % (n.loc(), show(s2))); continue
                g = fl.g
                news = [x for x in g.nodes if x.k == "new" and x.ev[0] == s2 and x.i in fl.at]
                if len(news) != 1: raise AnalysisBroken("allocation of %s not found" % cls)
                nn = news[0]
                szn = nn.fr.fn.nodes[nn.nid].get("n")
                szv = {fl.val(nn.fr.form(szn), s) for s in fl.at[nn.i] if s[0] <= st[0] or True}
                match = [x for x in szv if eq(x, c2)]
                c.judge(bool(match) and nn.ev[2] == 1, key + "size", "%s: the new block has %s cells but the recorded capacity is %s" % (nn.loc(), [show(x) for x in szv], show(c2)), "block has the recorded capacity")
                zero_init = any(m.get("k") in ("init", "zero") for m in [nn.fr.fn.nodes[nn.fr.fn.nodes[nn.nid]["i"]]] ) if "i" in nn.fr.fn.nodes[nn.nid] and isinstance(nn.fr.fn.nodes[nn.nid]["i"], int) else False
                cps, inits, dels, loops = [], [], [], []
                for m in g.nodes:
                    if m.i not in fl.at: continue
                    for s in fl.at[m.i]:
                        if m.k == "call" and m.ev[0] and m.ev[0].rsplit("::", 1)[-1] in ("memcpy", "memmove"):
                            a = [fl.val(x, s) for x in m.ev[3]]
                            if eq(a[0], s2) and eq(a[1], start) and lin2(a[2]) == ({top: W}, 0): cps.append(m.i)
                        if m.k == "call" and m.ev[0] in ("std::copy",):
                            a = [fl.val(x, s) for x in m.ev[3]]
                            if len(a) == 3 and eq(a[0], start) and eq(a[1], ("op", "+", start, top)) and eq(a[2], s2): cps.append(m.i)
                        if m.k == "call" and m.ev[0] and m.ev[0].rsplit("::", 1)[-1] == "memset":
                            a = [fl.val(x, s) for x in m.ev[3]]
                            rest = minus(lin2(c2), lin2(top))
                            if eq(a[0], ("op", "+", s2, top)) and lin2(a[2]) == ({x: W * k for x, k in rest[0].items()}, W * rest[1]): inits.append(m.i)
                            if eq(a[0], s2) and lin2(a[2]) == ({x: W * k for x, k in lin2(c2)[0].items()}, W * lin2(c2)[1]): inits.append(m.i)
                        if m.k == "del" and eq(fl.val(m.ev[0], s), start): dels.append(m.i)
                for head, base, v3, phi, st0, up in loop_stores(fl):
                    zero = lin2(st0)
                    if base == lin2(s2) and zero == ({}, 0):
                        dv = lin2(("op", "+", v3[1], v3[2])) if v3[0] == "idx" else lin2(v3)
                        if v3[0] == "idx" and minus(dv, ({phi: 1}, 0)) == lin2(start) and up == lin2(top): cps.append(head)
                    if base == lin2(s2) and zero == lin2(top) and up == lin2(c2): inits.append(head)
                retn = {n.i}
                c.judge(cps and not avoid(g, nn, retn, set(cps)), key + "copy", "%s: a path replaces the block without copying all %s cells in use" % (nn.loc(), show(top)), "cells in use are copied")
                c.judge(zero_init or inits and not avoid(g, nn, retn, set(inits)), key + "init", "%s: a path replaces the block without initialising the cells above the old top" % nn.loc(), "new cells initialised")
                c.judge(dels and not avoid(g, nn, retn, set(dels)), key + "free", "%s: a path replaces the block without deleting the old one" % nn.loc(), "old block deleted")
                if dels and cps: c.judge(all(not avoid(g, nn, {x}, set(cps)) for x in dels), key + "order", "%s: the old block is deleted before its cells are copied" % nn.loc())
                # nothing changes before the allocation has succeeded
                for s in fl.at[nn.i]:
                    e = dict(s[1])
                    c.judge(all(fold(e.get(x, x)) == x for x in (start, top, cap)), key + "strong", "%s: top or capacity are changed before the allocation, which may fail" % nn.loc(), "state switched after the allocation")
            if nrets == 0: raise AnalysisBroken("no return in " + f.u)
        elif f.name == "reset" and len(f.params) == 0:
            c.fn(f); c.count("reset_functions")
            fl = Flow(prog, f, inl)
            sets = []
            for m in fl.g.nodes:
                for s in fl.states(m):
                    if m.k == "call" and m.ev[0] and m.ev[0].rsplit("::", 1)[-1] == "memset":
                        a = [fl.val(x, s) for x in m.ev[3]]
                        if eq(a[0], start) and lin2(a[2]) in (({top: W}, 0), ({cap: W}, 0)): sets.append(m.i)
            ends = [(m, s) for m in fl.g.nodes for s in fl.states(m) if m is fl.g.exit]
            for m, st in ends:
                env = dict(st[1]); val = lambda x: fold(env.get(x, x))
                fresh = entails_le(st[0], {top: 1}, 1) and val(top) == top
                done = val(top) == ("int", 1)
                c.judge(fresh or done, "reset|top|" + T, "%s: after a reset the top is %s" % (f.loc(), show(val(top))), "reset restarts at 1")
                c.judge(val(start) == start and val(cap) == cap or val(start)[0] == "new", "reset|block|" + T, "%s: a reset leaves block %s with capacity %s" % (f.loc(), show(val(start)), show(val(cap))))
            br = [m.i for m in fl.g.nodes if m.k == "br"]
            # cells in use are cleared unless the path establishes that there are none
            ok = True
            for m in fl.g.nodes:
                for st in fl.states(m):
                    if m.k == "set" and m.ev[0] == top and not entails_le(st[0], {top: 1}, 1):
                        ok = ok and bool(sets) and not avoid(fl.g, fl.g.entry, {m.i}, set(sets))
            c.judge(ok, "reset|clear|" + T, "%s: a path of reset does not reinitialise all cells below the top" % f.loc(), "reset clears the cells in use")
        elif f.d["kind"] == "ctor" and len(f.params) >= 1 and "Heap" not in f.params[0]["t"]:
            c.fn(f); c.count("constructors")
            fl = Flow(prog, f, inl)
            for m in fl.g.nodes:
                if m is not fl.g.exit: continue
                for st in fl.states(m):
                    env = dict(st[1]); val = lambda x: fold(env.get(x, x))
                    s2, t2, c2 = val(start), val(top), val(cap)
                    nn = [x for x in fl.g.nodes if x.k == "new" and x.ev[0] == s2 and x.i in fl.at]
                    sz = {fl.val(nn[0].fr.form(nn[0].fr.fn.nodes[nn[0].nid].get("n")), s) for s in fl.at[nn[0].i]} if nn else set()
                    c.judge(t2 == ("int", 1), "ctor|top|" + T, "%s: a new heap starts at %s" % (f.loc(), show(t2)))
                    c.judge(bool(nn) and all(eq(x, c2) for x in sz), "ctor|size|" + T, "%s: a new heap has %s cells but records %s" % (f.loc(), [show(x) for x in sz], show(c2)), "initial capacity recorded")
                    c.judge(atleast1(st[0], c2), "ctor|min|" + T, "%s: a new heap may have no cell at all although its top is 1" % f.loc(), "initial capacity at least 1")
                    ms = [a for n2, s3, o, a in fl.calls(lambda q: q.rsplit("::", 1)[-1] == "memset") if eq(a[0], s2) and lin2(a[2]) == ({x: W * k for x, k in lin2(c2)[0].items()}, W * lin2(c2)[1])]
                    c.judge(bool(ms), "ctor|init|" + T, "%s: the cells of a new heap are not initialised" % f.loc())
    # nobody else writes the bookkeeping
    names = set()
    for cls in {f.q.rsplit("::", 1)[0] for f in prog.fns.values() if f.q.startswith(HQ)}: names |= {x[2] for x in roles(prog, cls)}
    for f in prog.fns.values():
        if not f.blocks or f.q.startswith(HQ): continue
        for i, n in enumerate(f.nodes):
            t = f.strip(n["a"][0]) if n["k"] == "asg" else f.strip(n["s"]) if n["k"] == "un" and n["op"] in ("++", "--", "&") else None
            if t is not None and f.nodes[t]["k"] == "mem" and f.nodes[t].get("f") in names:
                c.bad("foreign|" + f.u, "%s: %s changes %s directly" % (f.loc(i), f.u, f.nodes[t]["f"]))
    c.ok("bookkeeping private to the heap")
    # reservations
    for f in prog.fnall(HEAP + "createFS"):
        fl = Flow(prog, f, lambda t, fr: t.cls == "uima::lowlevel::FSHeap"); c.fn(f); c.count("structure_reservations")
        Tp = ("param", 0, f.params[0]["n"])
        al = [(heapname(o), a[0]) for n, st, o, a in fl.calls(lambda q: q.startswith(HQ) and q.endswith("::increaseHeap"))]
        cntp = [("param", i, p["n"]) for i, p in enumerate(f.params)][1:]
        okk = len({repr(x) for x in al}) == 1 and al[0][0] == "iv_clTemporaryHeap"
        if okk:
            d, cc = lin(al[0][1])
            okk = cc == 1 and len(d) == 1 and list(d.values()) == [1] and (list(d)[0] in cntp or iscall(list(d)[0], TS + "getFeatureNumber") and list(d)[0][3] == (Tp,))
        c.judge(okk, "createFS|size", "%s: %s reserves %s" % (f.loc(), f.u, [(h, show(a)) for h, a in al]), "structure reservation")
        tc = [(heapname(o), a) for n, st, o, a in fl.calls(lambda q: q.startswith(HQ) and q.endswith("::setHeapValue"))]
        okk = bool(tc) and all(h == "iv_clTemporaryHeap" and a[1] == Tp and a[0][0] == "call" and a[0][1].endswith("::increaseHeap") for h, a in tc)
        c.judge(okk, "createFS|type", "%s: %s does not record the type in the first cell" % (f.loc(), f.u))
        for n, st, v in fl.rets():
            c.judge(v[0] == "call" and v[1].endswith("::increaseHeap"), "createFS|result", "%s: %s returns %s instead of the cell reserved" % (n.loc(), f.u, show(v)))
    for q, fs in prog.byq.items():
        for f in fs:
            if f.cls == "uima::lowlevel::FSHeap" or not f.blocks: continue
            for i, n in f.calls():
                if n.get("fn") == HEAP + "createFS" and len(n["a"]) == 2:
                    fl = Flow(prog, f, lambda t, fr: False)
                    for m, st, o, a in fl.calls(lambda q: q == HEAP + "createFS"):
                        if len(a) == 2: c.judge(iscall(a[1], TS + "getFeatureNumber", (a[0],)), "createFS|count|" + f.u, "%s: %s creates a structure with %s features" % (m.loc(), f.u, show(a[1])))
    f = prog.fn(HEAP + "createArrayFS", 2); c.fn(f)
    fl = Flow(prog, f, lambda t, fr: t.cls == "uima::lowlevel::FSHeap")
    SZ = ("param", 1, f.params[1]["n"])
    for n, st, o, a in fl.calls(lambda q: q.startswith(HQ) and q.endswith("::increaseHeap")):
        c.count("array_reservations")
        c.judge(entails_le(st[0], {SZ: 1}, 2 ** 31 - 1), "createArrayFS|bound", "%s: an array size that does not fit a cell (or wraps when the header is added) reaches the reservation" % n.loc(), "array size bounded")
    # no narrowing on the way to the reservation
    for f in prog.fns.values():
        if not f.blocks or f.q.startswith(HQ): continue
        for i, n in f.calls():
            if not n.get("fn", "").startswith(HQ) or not n["fn"].endswith("::increaseHeap"): continue
            c.count("reservation_sites"); c.fn(f)
            a = n["a"][0]; m = f.nodes[a]; bad = False
            while m["k"] == "cast":
                inner = f.nodes[m["s"]]
                if m.get("ck") == "IntegralCast" and SIZEOF.get(m.get("t", "").replace("const ", "")) == 4 and SIZEOF.get(inner.get("t", "").replace("const ", "")) == 8: bad = True
                m = inner
            c.judge(not bad, "narrow|" + f.u, "%s: %s truncates the number of cells to 32 bits before reserving them" % (f.loc(i), f.u), "reservation in " + f.q)
    c.floor("growth_functions", 5); c.floor("reset_functions", 5); c.floor("constructors", 5); c.floor("reservation_sites", 18); c.floor("array_reservations", 5); c.floor("structure_reservations", 2)

def unl(dc): return unlin(*dc)
def facts_show(F):
    return "; ".join(" + ".join("%d*%s" % (k, show(x)) for x, k in f[1]) + " %s %s" % (f[0], f[2]) if f[0] in ("le", "eq", "ne") else f[0] + " " + show(f[1]) for f in F)
def atleast1(F, v):
    if v[0] == "int": return v[1] >= 1
    if v[0] == "ite":
        a = assume(F, v[1], True); b = assume(F, v[1], False)
        # unsigned: non-zero is at least one
        def one(f, x): return x[0] == "int" and x[1] >= 1 or entails_le(f, {x: -1}, -1) or ("b", x) in f or any(y[0] == "ne" and y[1] == ((x, 1),) and y[2] == 0 for y in f)
        return (a is None or one(a, v[2])) and (b is None or one(b, v[3]))
    return entails_le(F, {v: -1}, -1) or ("b", v) in F

_roles = {}
def roles(prog, cls):
    """(block, top, capacity) fields, identified by what the accessors return and the constructor allocates"""
    if cls in _roles: return _roles[cls]
    gs = prog.fn(cls + "::getHeapStart"); gt = prog.fn(cls + "::getTopOfHeap")
    start = list(Flow(prog, gs).rets())[0][2]; top = list(Flow(prog, gt).rets())[0][2]
    gl = [f for f in prog.byq.get(HQ + "unsigned int>::getLastHeapCell", [])]
    if not gl: raise AnalysisBroken("capacity accessor not found")
    cap = list(Flow(prog, gl[0]).rets())[0][2]
    cap = ("f", cap[1], cls + "::" + cap[2].rsplit("::", 1)[-1])
    _roles[cls] = (start, top, cap)
    return _roles[cls]
