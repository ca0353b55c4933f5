"""C18: what is created is freed exactly once, and the way it was created"""
from sa import check
from sa.core import *
from sa.loops import Loops, exitcond, unconv
from checks.common import *
from checks.c09 import last
from checks.c15 import onlydtors

ELEM = "[]"
BEGINS = ("begin", "cbegin", "find", "rbegin", "crbegin", "insert", "lower_bound", "upper_bound")
STORES = ("push_back", "insert", "push", "push_front", "emplace_back", "emplace", "pair", "make_pair", "add", "operator=")

class GI:
    """a graph, and what its local variables are set to"""
    def __init__(s, g):
        s.g = g; d = {}
        for n in g.nodes:
            if n.k == "set" and n.ev[0] is not None and n.ev[0][0] in ("var", "tmp") and n.ev[2] is not None and n.ev[1] == "=":
                d.setdefault(n.ev[0], []).append(n.ev[2])
            if n.k == "call" and last(n.ev[0]) == "operator=" and n.ev[2] is not None and n.ev[2][0] in ("var", "tmp") and len(n.ev[3]) == 1:
                d.setdefault(n.ev[2], []).append(n.ev[3][0])
        s.vals = d
    GET = {}
    def getters(s):
        """methods that only return a member"""
        prog = s.g.prog
        if id(prog) not in GI.GET:
            r = {}
            for q, fs in prog.byq.items():
                fs = [f for f in fs if f.blocks]
                if len(fs) == 1 and not fs[0].params and len(fs[0].blocks) <= 4 and fs[0].cls:
                    rs = [n.ev[0] for n in Graph(prog, fs[0]).nodes if n.k == "ret"]
                    if len(rs) == 1 and rs[0] is not None and rs[0][0] == "f" and rs[0][1] == ("this",): r[q] = rs[0][2]
            GI.GET = {id(prog): r}
        return GI.GET[id(prog)]
    def origins(s, x):
        """what an expression can be, through local variables"""
        out = set(); todo = [x]; seen = set()
        while todo:
            y = todo.pop()
            if y is None or y in seen: continue
            seen.add(y)
            if y[0] == "ite": todo += [y[2], y[3]]; continue
            if y[0] in ("var", "tmp") and y in s.vals: todo += s.vals[y]; continue
            if y[0] == "call" and y[1].startswith("std::") and last(y[1]) in ("release", "get") and y[2] is not None: todo.append(y[2]); continue
            if y[0] == "ctor" and ("unique_ptr" in y[1] or "auto_ptr" in y[1]) and len(y[2]) >= 1: todo.append(y[2][0]); continue
            out.add(y)
        return out
    def field(s, x, depth=0):
        """(path of field names and [] steps) of a form rooted in this or another object, or None"""
        if x is None or depth > 12: return None
        if x[0] == "f":
            if last(x[2]) in ("second", "first") and "std::pair" in x[2]:
                b = x[1]
                while b[0] == "op" and b[1] == "*" and len(b) == 3 and isinstance(b[2], tuple) and len(b[2]) and isinstance(b[2][0], str): b = b[2]
                if b[0] == "call" and last(b[1]) in ("operator*", "operator->") and b[2] is not None: b = b[2]
                if b[0] == "call" and last(b[1]) in BEGINS and b[2] is not None:
                    r = s.field(b[2], depth + 1)
                    return r + (ELEM,) if r else None
                if b[0] in ("var", "tmp"):
                    for o in s.origins(b):
                        if o[0] == "call" and last(o[1]) in BEGINS and o[2] is not None:
                            r = s.field(o[2], depth + 1)
                            if r: return r + (ELEM,)
                    return None
                r = s.field(b, depth + 1)
                return r
            r = s.field(x[1], depth + 1)
            return (r or ()) + (x[2],)
        if x[0] == "idx":
            r = s.field(x[1], depth + 1)
            return r + (ELEM,) if r else None
        if x[0] == "call" and not x[3] and x[1] in s.getters():
            return (s.field(x[2], depth + 1) or () if x[2] is not None and x[2] != ("this",) else ()) + (s.getters()[x[1]],)
        if x[0] == "call" and last(x[1]) in ("operator[]", "at", "front", "back", "top") and x[2] is not None:
            r = s.field(x[2], depth + 1)
            return r + (ELEM,) if r else None
        if x[0] == "op" and x[1] == "*" and len(x) > 2 and isinstance(x[2], tuple):
            for o in s.origins(x[2]):
                if o[0] == "call" and last(o[1]) in BEGINS and o[2] is not None:
                    r = s.field(o[2], depth + 1)
                    if r: return r + (ELEM,)
            return s.field(x[2], depth + 1)
        if x[0] in ("var", "tmp"):
            for o in s.origins(x):
                if o[0] in ("f", "idx", "call"):
                    r = s.field(o, depth + 1)
                    if r: return r
                if o[0] == "call" and last(o[1]) in BEGINS and o[2] is not None:
                    r = s.field(o[2], depth + 1)
                    if r: return r + (ELEM,)
        return None

def key(p):
    """the field a path ends in, with the elements looked into"""
    k = len(p) - 1
    while k > 0 and p[k] == ELEM: k -= 1
    return p[k:]

def isnew(x): return x is not None and x[0] == "new"

class Own:
    """who creates, keeps and deletes"""
    def __init__(s, prog):
        s.prog = prog
        s.fns = [f for f in prog.fns.values() if f.blocks]
        s.gi = {f.u: GI(Graph(prog, f, eh="try")) for f in s.fns}
        s.fresh = set(); ch = True
        pure = [(m["u"], m["q"]) for k in prog.classes.values() for m in k["methods"] if m.get("pure")]
        while ch:
            ch = False
            for f in s.fns:
                if f.q in s.fresh or not f.d.get("ret", "").rstrip().endswith("*"): continue
                G = s.gi[f.u]
                rets = [n.ev[0] for n in G.g.nodes if n.k == "ret" and n.ev[0] is not None]
                os = [o for r in rets for o in G.origins(r)]
                if os and any(s.isfresh(o) for o in os) and all(s.isfresh(o) or num(prog, o) == 0 for o in os):
                    # what is kept in a field as well is not handed over
                    if any(s.isfresh(o) for v, p, n in s.stores0(f) for o in G.origins(v) if o in os): continue
                    s.fresh.add(f.q); ch = True
            for u, q in pure:
                if q in s.fresh: continue
                ts = prog.targets(u, True)
                if ts and all(t.q in s.fresh for t in ts): s.fresh.add(q); ch = True
        s.pst = {}; s.pdel = {}; ch = True
        while ch:
            ch = False
            for f in s.fns:
                G = s.gi[f.u]
                for v, p, n in s.stores(f):
                    for o in G.origins(v):
                        if o[0] == "param":
                            k = s.pst.setdefault((f.u, o[1]), set())
                            if key(p) not in k: k.add(key(p)); ch = True
                for n in G.g.nodes:
                    if n.k == "call" and n.ev[0] is not None and last(n.ev[0]) in KEPT:
                        for a in n.ev[3]:
                            for o in G.origins(a) if a is not None else ():
                                if o[0] == "param": s.pst.setdefault((f.u, o[1]), set()).add(JAVA)
                    if n.k == "del": ps = [(o, "del") for o in G.origins(n.ev[0])]
                    elif n.k == "call": ps = [(o, "call") for t in s.callees(n) for i, a in enumerate(n.ev[3]) if (t.u, i) in s.pdel and a is not None for o in G.origins(a)]
                    else: continue
                    for o, w in ps:
                        if o[0] == "param" and (f.u, o[1]) not in s.pdel: s.pdel[(f.u, o[1])] = n; ch = True
        TAKES.clear(); TAKES.update((f.cls, i) for f in s.fns if f.d.get("kind") == "ctor" for i in range(len(f.params)) if (f.u, i) in s.pst or (f.u, i) in s.pdel)
        hd = {f.u for f in s.fns if any(n.k == "del" for n in s.gi[f.u].g.nodes)}; ch = True
        while ch:
            ch = False
            for f in s.fns:
                if f.u in hd: continue
                if any(t.u in hd and t.d.get("kind") != "dtor" for n in s.gi[f.u].g.nodes if n.k == "call" for t in s.callees(n)): hd.add(f.u); ch = True
        s.hasdel = hd
    THROWING = ("parse", "parseURI")                            # the only calls out of the library after which an exception is expected
    def maythrow(s, n):
        """can the call end with an exception (memory is not exhausted)?"""
        if not hasattr(s, "mt"):
            s.mt = {f.u for f in s.fns if any(m.k == "throw" for m in s.gi[f.u].g.nodes)}
            ch = True
            while ch:
                ch = False
                for f in s.fns:
                    if f.u in s.mt: continue
                    if any(m.k == "call" and s.maythrow1(m) for m in s.gi[f.u].g.nodes): s.mt.add(f.u); ch = True
        return s.maythrow1(n)
    def maythrow1(s, n):
        if n.ev[0] is None: return True
        ts = s.callees(n)
        return any(t.u in s.mt for t in ts) or (not ts and last(n.ev[0]) in s.THROWING)
    def loops(s, f):
        if not hasattr(s, "lps"): s.lps = {}
        if f.u not in s.lps: s.lps[f.u] = Loops(s.gi[f.u].g)
        return s.lps[f.u]
    FOREIGN = ("createXMLReader", "createParser")              # functions of Xerces whose result the caller deletes
    def isfresh(s, x): return isnew(x) or (x is not None and x[0] == "call" and (x[1] in s.fresh or last(x[1]) in s.FOREIGN and "xercesc" in x[1]))
    def callees(s, n): return s.prog.targets(n.ev[1], n.ev[4] if len(n.ev) > 4 else False)
    def stores0(s, f):
        """(value, field, node): stored in a field by the function itself"""
        G = s.gi[f.u]
        for n in G.g.nodes:
            if n.k == "set" and n.ev[2] is not None and n.ev[1] == "=" and n.ev[0] is not None and n.ev[0][0] in ("f", "idx", "call", "op"):
                p = G.field(n.ev[0])
                if p: yield n.ev[2], p, n
            if n.k == "call":
                q, u, obj, args = n.ev[:4]
                if obj is not None and q.startswith("std::") and last(q) in STORES:
                    p = G.field(obj)
                    if p:
                        for a in args:
                            if a is None: continue
                            for o in list(G.origins(a)) + [a]:
                                for y in [o] + (list(o[2] if o[0] == "ctor" else o[3]) if o[0] in ("ctor", "call") else []):
                                    if y is not None: yield y, p + (ELEM,), n
    def stores(s, f):
        """the same, also by what it calls"""
        for x in s.stores0(f): yield x
        for n in s.gi[f.u].g.nodes:
            if n.k == "call":
                for t in s.callees(n):
                    for i, a in enumerate(n.ev[3]):
                        if (t.u, i) in s.pst and a is not None:
                            for p in s.pst[(t.u, i)]: yield a, p, n

def boolfield(prog, x):
    return x[0] == "f" and any(fl["q"] == x[2] and fl["ts"].replace("const ", "") == "bool" if "q" in fl else False for k in prog.classes.values() for fl in k["fields"])

def excused(prog, G, lab, ws):
    """a branch on which there is nothing to delete: the pointer (or what leads to it) is null, or the object says it does not own it.  ws: [(path, deleted form)]"""
    if lab is None or lab[0] != "t" or lab[1] is None: return False
    cnd = lab[1] if lab[2] else neg(lab[1])
    def leads(a):
        if any(a in set(subforms(w)) for p, w in ws): return True
        q = G.field(a)
        return bool(q) and any(p[:len(q)] == q or key(p)[:len(key(q))] == key(q) for p, w in ws)
    for x in conj(cnd):
        if x[0] == "cmp" and x[1] == "==":
            for a, b in ((x[2], x[3]), (x[3], x[2])):
                if num(prog, b) == 0 and (leads(a) or boolfield(prog, a)): return True
                if num(prog, b) == 0 and a[0] == "call" and last(a[1]) == "size" and a[2] is not None and leads(a[2]): return True
        if x[0] == "cmp" and x[1] == "!=" and ("this",) in (x[2], x[3]) and any(y is not None and y[0] in ("f", "call") for y in (x[2], x[3])): return True
        if x[0] == "call" and last(x[1]) == "empty" and x[2] is not None and leads(x[2]): return True
        if x[0] == "not" and (boolfield(prog, x[1]) or leads(x[1])): return True
    return False

def conj(x):
    if x is not None and x[0] == "op" and x[1] == "&&": return [y for z in x[2:] if isinstance(z, tuple) for y in conj(z)]
    return [x]

def avoid(G, starts, goal, stop, prog, ws):
    """a path that deletes nothing although there is something to delete"""
    seen = set(); todo = list(starts)
    while todo:
        i = todo.pop()
        if i in seen or i in stop: continue
        seen.add(i)
        if i in goal: return True
        for t, lab in G.g.nodes[i].succ:
            if lab is not None and lab[0] == "eh": continue
            if excused(prog, G, lab, ws): continue
            todo.append(t.i)
    return False

def deleting(prog, O):
    """field -> [(destructor, None | what is missing)]"""
    out = {}
    for f in O.fns:
        if f.d.get("kind") != "dtor": continue
        if f.u not in O.hasdel: continue
        g = Graph(prog, f, inline=lambda t, fr: t.u in O.hasdel and t.d.get("kind") != "dtor" and len(t.blocks) < 60, depth=3)
        G = GI(g); L = Loops(g)
        ks = {}
        for n in g.nodes:
            if n.k == "del" and n.i in L.live:
                p = G.field(n.ev[0])
                if p: ks.setdefault(key(p), []).append(n)
        for k, ns in ks.items():
            P = {n.i for n in ns}
            ws = [(G.field(n.ev[0]), n.ev[0]) for n in ns]
            why = None
            inner = {}
            for n in ns:
                if L.enclosing(n): inner[L.enclosing(n)[0].head] = L.enclosing(n)[0]
            if not inner:
                if ELEM in k: why = "only one element is deleted"
                elif avoid(G, [g.entry.i], {g.exit.i}, P, prog, ws): why = "there is a way through the destructor that does not delete it"
            else:
                for l in inner.values():
                    if avoid2(G, L, l, P, prog, ws): why = "there is a way round the loop that does not delete it"
                    elif not full(L, l, G): why = "the loop does not visit every element: %s" % L.iteration(l).why()
                if why is None and all(len(L.enclosing(n)) == 1 for n in ns) and len(inner) == 1 and avoid(G, [g.entry.i], {g.exit.i}, set(inner), prog, ws): why = "there is a way through the destructor that does not reach the loop"
            out.setdefault(k, []).append((f, why))
    return out

def full(L, l, G):
    it = L.iteration(l)
    return it.full() or it.reverse() or descending(L, l) or draining(L, l)

def draining(L, lp):
    """while (!v.empty()) { ... v.pop_back(); }"""
    g = L.g
    ex = [exitcond(l) for n, t, l in L.exits(lp) if not L.throws(t.i)]
    if len(ex) != 1 or ex[0] is None: return False
    x = ex[0]
    if x[0] == "cmp" and x[1] in ("==", "<="): x = x[2] if unconv(x[3]) == ("int", 0) else x[3] if unconv(x[2]) == ("int", 0) else x
    x = unconv(x)
    if x[0] != "call" or last(x[1]) not in ("empty", "size") or x[2] is None: return False
    v = x[2]
    pops = [n.i for n in g.nodes if n.k == "call" and n.i in lp.body and n.ev[0] is not None and n.ev[2] == v and last(n.ev[0]) in ("pop_back", "pop_front", "pop", "erase")]
    adds = [n for n in g.nodes if n.k == "call" and n.i in lp.body and n.ev[0] is not None and n.ev[2] == v and last(n.ev[0]) in ("push_back", "push_front", "push", "insert", "clear", "resize")]
    return bool(pops) and not adds and not L.cycle_avoids(lp, pops) and not any(L.path(L.succs(k), pops, [lp.head], within=lp.body) for k in pops)

def descending(L, lp):
    """for (i = size - 1; i >= 0; --i), or for (i = size; i > 0; --i) that looks at i - 1"""
    g = L.g
    ex = [exitcond(l) for n, t, l in L.exits(lp) if not L.throws(t.i)]
    if len(ex) != 1 or ex[0] is None or ex[0][0] != "cmp": return False
    x = ex[0]; a, b = unconv(x[2]), unconv(x[3])
    if a[0] != "var" or b not in (("int", 0), ("int", -1)): return False
    low = {("<", 0): 0, ("<=", -1): 0, ("==", -1): 0, ("<=", 0): 1, ("==", 0): 1}.get((x[1], b[1]))
    if low is None: return False
    ins = [m for m in g.nodes if m.k == "set" and m.ev[0] == a and m.i in L.live]
    steps = [m.i for m in ins if m.i in lp.body]
    if any(not (m.ev[1] == "--" or m.ev[1] == "-=" and m.ev[2] == ("int", 1)) for m in ins if m.i in lp.body): return False
    if not steps or L.cycle_avoids(lp, steps) or any(L.path(L.succs(k), steps, [lp.head], within=lp.body) for k in steps): return False
    def start(x):
        x = unconv(x)
        if x[0] == "op" and x[1] in ("-", "u-") and len(x) == 4 and x[3] == ("int", 1): d, r = start(x[2]); return d, r - 1
        return lin(x)
    st = [start(unconv(m.ev[2])) for m in ins if m.i not in lp.body and m.ev[2] is not None]
    return bool(st) and all(len(d) == 1 and all(last(k[1]) == "size" and v == 1 for k, v in d.items() if k[0] == "call") and all(k[0] == "call" for k in d) and r == low - 1 for d, r in st)

def avoid2(G, L, l, P, prog, ws):
    """once round the loop without deleting"""
    seen = set(); todo = [t.i for t, lab in G.g.nodes[l.head].succ if t.i in l.body and not excused(prog, G, lab, ws)]
    while todo:
        i = todo.pop()
        if i in seen or i in P or i not in l.body: continue
        if i == l.head: return True
        seen.add(i)
        for t, lab in G.g.nodes[i].succ:
            if (lab is not None and lab[0] == "eh") or excused(prog, G, lab, ws): continue
            todo.append(t.i)
    return False

def escapes(g, a, b, stop):
    """a way from a to b that avoids the nodes in stop"""
    seen = set(); todo = [a]
    while todo:
        i = todo.pop()
        if i == b and i != a: return True
        if i in seen or i in stop: continue
        seen.add(i)
        todo += [t.i for t, lab in g.nodes[i].succ if not (lab is not None and lab[0] == "eh")]
    return False

def typeof(o): return o[1] if isnew(o) else None

def destructors(prog, c, O):
    c.rule("an object created in the library and kept in a pointer member, or in a container that is a member, is deleted by a destructor: on every path, for every element; the only exceptions are a null pointer and an object whose own flag says that it does not own it")
    D = deleting(prog, O)
    M = {}                                                      # deleted by a method that ends the object's life
    ends = {f.u for f in O.fns if "destroy" in f.name.lower()}; todo = [f for f in O.fns if f.u in ends]
    while todo:                                                 # and its own methods such a method uses
        h = todo.pop()
        for n in O.gi[h.u].g.nodes:
            if n.k == "call":
                for t in O.callees(n):
                    if t.u not in ends and t.u in O.gi and t.cls == h.cls and t.u in O.hasdel and all(x.u in ends for x, i in prog.callers().get(t.u, ())): ends.add(t.u); todo.append(t)
    for f in O.fns:
        G = O.gi[f.u]
        for n in G.g.nodes:
            if n.k == "del" and f.d.get("kind") != "dtor":
                p = G.field(n.ev[0])
                if p and key(p) not in D and f.u in ends: M.setdefault(key(p), []).append(f)
    O.ended = set(M)
    seen = {}
    for f in O.fns:
        G = O.gi[f.u]
        gone = {o for n in G.g.nodes if n.k == "del" for o in G.origins(n.ev[0])}
        gonef = {}
        for n in G.g.nodes:
            if n.k == "del" and G.field(n.ev[0]): gonef.setdefault(key(G.field(n.ev[0])), set()).add(n.i)
        for v, p, n in O.stores(f):
            for o in G.origins(v):
                if key(p) in gonef and any(escapes(G.g, n.i, d, set()) for d in gonef[key(p)]): continue      # deleted by the function itself
                if o[0] == "f":                              # read back from a member
                    for n2 in G.g.nodes:
                        if n2.k == "set" and n2.ev[0] == o and isnew(n2.ev[2]): seen.setdefault((f.u, n2.ev[2]), []).append((key(p), n, f))
                for y in [o] if O.isfresh(o) else [] if o[0] == "ctor" and any(k in o[1] for k in SMART) else [z for w in parts(o) if w != o for z in G.origins(w) if O.isfresh(z)]:
                    if y not in gone: seen.setdefault((f.u, y), []).append((key(p), n, f))
    used = set()
    c.count("created objects kept in members", len(seen))
    for (u, o), l in sorted(seen.items(), key=str):
        f = l[0][2]
        ks = {k for k, n, _ in l}
        c.fn(f)
        good = [k for k in ks if k in D or k in M or k == JAVA and any(n.k == "del" and n.ev[2] == typeof(o) and any(x[0] == "call" for x in O.gi[h.u].origins(n.ev[0])) for h in O.fns if "jni" in h.file for n in O.gi[h.u].g.nodes)]
        used.update(good)
        if good and len(good) < len(ks):
            g = O.gi[u].g; L = O.loops(f); gn = {n.i for k, n, _ in l if k in good}
            for k, n, _ in l:
                if k not in good and not (n.i in gn) and escapes(g, g.entry.i, n.i, gn) and escapes(g, n.i, g.exit.i, gn): good = []; ks = {k}; break
        c.judge(bool(good), "kept|%s|%s" % (f.q, "/".join(sorted(".".join(k) for k in ks))), "%s: what %s creates here is kept in %s, which no destructor deletes" % (l[0][1].loc(), f.q, ", ".join(sorted(" of ".join(reversed(k)) if len(k) > 1 else k[0] for k in ks))))
    for k in sorted(used & set(D)):
        for f, why in D[k]:
            c.judge(why is None, "dtor|%s|%s" % (f.q, ".".join(k)), "%s: %s does not always delete %s: %s" % (f.loc(None) if hasattr(f, "loc") and False else f.file, f.q, k[0], why))
    return D

FOREIGN = {"transcode": "XMLString::release", "replicate": "XMLString::release", "malloc": "free", "calloc": "free", "realloc": "free", "strdup": "free"}

def matching(prog, c, O):
    c.rule("what is created with new is deleted with delete, with new[] with delete[], and what XMLString::transcode (or malloc) returned is given back to XMLString::release (free)")
    arr = {}
    for f in O.fns:
        for n in O.gi[f.u].g.nodes:
            if n.k == "new": arr[(f.u, n.ev[0])] = bool(n.ev[2])
    def kind(f, o, seen=()):
        """how something was created: 'new', 'new[]', or the function that frees it"""
        if isnew(o): return {"new[]" if arr.get((f.u, o)) else "new"}
        if o is None or o[0] != "call": return set()
        if last(o[1]) in FOREIGN and o[1] not in seen: return {FOREIGN[last(o[1])]}
        if o[1] in seen: return set()
        out = set()
        for t in prog.byq.get(o[1], ()):
            if not t.blocks: continue
            G = O.gi[t.u]
            for n in G.g.nodes:
                if n.k == "ret" and n.ev[0] is not None:
                    for x in G.origins(n.ev[0]): out |= kind(t, x, seen + (o[1],))
        return out
    fld = {}; par = {}
    for f in O.fns:
        G = O.gi[f.u]
        for v, p, n in O.stores(f):
            for o in G.origins(v):
                for k in kind(f, o): fld.setdefault(key(p), {}).setdefault(k, (f, n))
    names = {"new": "delete", "new[]": "delete[]"}
    cnt = 0
    for f in O.fns:
        G = O.gi[f.u]
        def src(x):
            r = {}
            for o in G.origins(x):
                for k in kind(f, o): r[k] = None
            p = G.field(x)
            if p:
                for k, (h, m) in fld.get(key(p), {}).items(): r.setdefault(k, "%s in %s" % (m.loc(), h.q))
            return r
        for n in G.g.nodes:
            if n.k == "del": how = "delete[]" if n.ev[1] else "delete"; x = n.ev[0]
            elif n.k == "call" and n.ev[0] is not None and n.ev[3] and (n.ev[0].endswith("XMLString::release") or n.ev[0] == "free"): how = "XMLString::release" if last(n.ev[0]) == "release" else "free"; x = n.ev[3][0]; x = x[2] if x is not None and x[0] == "op" and x[1] in ("&", "u&") and len(x) == 3 else x
            elif n.k == "call":
                for t in O.callees(n):
                    for i, a in enumerate(n.ev[3]):
                        d = O.pdel.get((t.u, i))
                        if d is None or d.k != "del" or a is None: continue
                        for o in G.origins(a):
                            for k in kind(f, o): c.judge(names.get(k, k) == ("delete[]" if d.ev[1] else "delete"), "form|%s|%s" % (f.q, t.q), "%s: %s gives %s something created with %s, which deletes it with %s" % (n.loc(), f.q, t.q, k, "delete[]" if d.ev[1] else "delete"))
                continue
            else: continue
            if x is None: continue
            for k, where in sorted(src(x).items()):
                cnt += 1
                c.judge(names.get(k, k) == how, "form|%s|%s" % (f.q, show(x)), "%s: %s frees with %s what has to be freed with %s%s" % (n.loc(), f.q, how, names.get(k, k), " (created at %s)" % where if where else ""))
    c.count("deletions whose object is known", cnt)

SMART = ("unique_ptr", "shared_ptr", "auto_ptr")
JAVA = ("a field of the Java object",)
KEPT = ("SetLongField", "SetIntField")                  # a Java object keeps it
ADOPT = ("Wrapper4InputSource",)                        # takes what it is given

TAKES = set()                                           # (class, i): its constructor keeps what its parameter i points to

def parts(x, casts=True):
    """what a value consists of: itself, through casts, choices and constructed objects"""
    out = []; todo = [x]
    while todo:
        y = todo.pop()
        if not isinstance(y, tuple) or not y: continue
        out.append(y)
        if y[0] == "ite": todo += [y[2], y[3]]
        elif y[0] == "ctor":
            if any(k in y[1] for k in SMART + ADOPT + ("std::pair",)): todo += list(y[2])
            else: todo += [a for i, a in enumerate(y[2]) if (y[1], i) in TAKES]
        elif y[0] == "op" and y[1] in ("*", "u*", "&", "u&"): todo += [z for z in y[2:] if isinstance(z, tuple)]
        elif y[0] == "call" and (y[1].startswith("std::") and last(y[1]) in ("make_pair", "move", "forward")): todo += list(y[3])
        elif y[0] == "call" and last(y[1]) == "getInitialView" and y[2] is not None: todo.append(y[2])      # a view deletes the CAS it belongs to
        elif y[0] == "call" and y[1].startswith("std::") and last(y[1]) in ("release",) and y[2] is not None: todo.append(y[2])
    return out

def leaks(prog, O, f, cn, o):
    """-> (where, nodes): a way from the creation to the end on which nobody takes or frees the object, or None"""
    G = O.gi[f.u]; g = G.g
    uses = {x for n in g.nodes if n.i != cn.i and n.ev and n.k != "new" for e in (n.ev if n.k != "del" else n.ev[:1]) if isinstance(e, tuple) for y in ([e] if e and isinstance(e[0], str) else e) if isinstance(y, tuple) for x in subforms(y) if not (n.k == "set" and n.ev[2] == o and e is n.ev[2] and n.ev[0] is not None and n.ev[0][0] in ("var", "tmp"))}
    stays = o in uses
    def step(n, live):
        """the names the object has after the node; empty: somebody took it"""
        if n.k == "del":
            return frozenset() if any(y in live for y in G.origins(n.ev[0])) or n.ev[0] in live else live
        if n.k == "ret": return frozenset() if n.ev[0] is not None and any(y in live for y in parts(n.ev[0])) else live
        if n.k == "throw": return frozenset() if any(isinstance(e, tuple) and any(y in live for y in parts(e)) for e in n.ev or ()) else live
        if n.k == "set":
            l, op, r = n.ev
            if l is None: return live
            has = r is not None and any(y in live for y in parts(r))
            if has and op == "=":
                if l[0] in ("var", "tmp"):
                    if r is not None and r[0] == "ctor" and any(k in r[1] for k in SMART): return frozenset()
                    return (live | {l}) if stays or r != o else ((live - {o}) | {l})
                p = G.field(l)
                if p and key(p) in O.scoped and len(key(p)) == 1: return (live - {o}) | {l}
                return frozenset()
            if l in live and op == "=": return (live - {l}) or frozenset({("lost",)})
            return live
        if n.k == "call":
            q, u, obj, args = n.ev[:4]
            hit = [i for i, a in enumerate(args) if a is not None and any(y in live for y in parts(a))]
            if not hit:
                if obj is not None and obj in live and q and last(q) in ("release", "reset") and False: return frozenset()
                return live
            ts = O.callees(n)
            nm = last(q) if q else ""
            if q is None: return frozenset()
            if q.startswith("std::") and (any(k in q for k in SMART) or nm in STORES): return frozenset()
            if nm in ADOPT or nm in KEPT or nm == "release" and q.endswith("XMLString::release") or q == "free": return frozenset()
            for t in ts:
                if any((t.u, i) in O.pst or (t.u, i) in O.pdel for i in hit): return frozenset()
            return live
        return live
    def null(lab, live):
        if lab is None or lab[0] != "t" or lab[1] is None: return False
        for x in conj(lab[1] if lab[2] else neg(lab[1])):
            if x[0] == "cmp" and x[1] == "==" and (x[2] in live and num(prog, x[3]) == 0 or x[3] in live and num(prog, x[2]) == 0): return True
            if x[0] == "not" and x[1] in live: return True
            # the creating call reports an error: it returned nothing
            if o[0] == "call" and x[0] == "cmp" and x[1] == "!=":
                for a, b in ((x[2], x[3]), (x[3], x[2])):
                    if num(prog, b) == 0 and any(y[0] == "call" and last(y[1]) == "getErrorId" and y[2] in o[3] for y in G.origins(a)): return True
        return False
    flags = {n.ev[0] for n in g.nodes if n.k == "set" and getattr(n, "isb", False) and n.ev[0] is not None and n.ev[0][0] == "var"}
    def env0():
        """flags that have one known value when the object is created"""
        out = set()
        for v in flags:
            vs = {num(prog, n.ev[2]) if n.ev[1] == "=" else None for n in g.nodes if n.k == "set" and n.ev[0] == v and L.path([n.i], [cn.i])}
            if len(vs) == 1 and None not in vs: out.add((v, next(iter(vs))))
        return frozenset(out)
    L = O.loops(f)
    def setflag(n, env):
        if n.k == "set" and n.ev[0] in flags:
            env = frozenset(e for e in env if e[0] != n.ev[0])
            v = num(prog, n.ev[2]) if n.ev[1] == "=" else None
            if v is not None: env = env | {(n.ev[0], v)}
        return env
    def against(lab, env):
        if lab is None or lab[0] != "t" or lab[1] is None: return False
        for x in conj(lab[1] if lab[2] else neg(lab[1])):
            for v, k in env:
                if x == v and k == 0 or x == ("not", v) and k: return True
                if x[0] == "cmp" and x[1] in ("==", "!=") and v in (x[2], x[3]):
                    w = num(prog, x[3] if x[2] == v else x[2])
                    if w is not None and (w == k) != (x[1] == "=="): return True
        return False
    start = [(t.i, frozenset({o}), False, env0()) for t, lab in cn.succ if not (lab is not None and lab[0] == "eh")]
    seen = {}; todo = [(s, None) for s in start]
    while todo:
        s, par = todo.pop()
        if s in seen: continue
        seen[s] = par
        i, live, thr, env = s
        n = g.nodes[i]
        if n.i == g.exit.i: return ("the end of the function", s, seen)
        if n.i == g.texit.i:
            if thr: return ("an exception that is thrown here", s, seen)
            continue
        if n.i == cn.i: return ("the next time round", s, seen)
        lv = step(n, live)
        if not lv: continue
        env = setflag(n, env)
        if lv == frozenset({("lost",)}): return ("where its only name gets another value (%s)" % n.loc(), s, seen)
        for t, lab in n.succ:
            if null(lab, lv) or against(lab, env): continue
            if lab is not None and lab[0] == "eh" and n.k == "call" and not O.maythrow(n): continue
            todo.append(((t.i, lv, n.k == "throw" or (thr and n.k in ("nop", "dtor")), env), s))
    return None

def locals_(prog, c, O):
    c.rule("an object that a function creates and knows only by local names is deleted, returned, thrown or given to somebody who keeps or deletes it, on every way to the end of the function and to an exception it throws itself")
    cnt = 0
    # members that only hold an object while one method runs: whoever stores it deletes it
    sto = {}; dl = {}
    for f in O.fns:
        G = O.gi[f.u]
        for v, p, n in O.stores0(f):
            if any(O.isfresh(o) for o in G.origins(v)): sto.setdefault(key(p), set()).add(f.u)
        for n in G.g.nodes:
            if n.k == "del" and G.field(n.ev[0]): dl.setdefault(key(G.field(n.ev[0])), set()).add(f.u)
    O.scoped = {k for k in sto if sto[k] == dl.get(k)}
    c.count("members that hold an object during one method", len(O.scoped))
    for f in O.fns:
        G = O.gi[f.u]
        for n in G.g.nodes:
            if n.k == "new": o = n.ev[0]
            elif n.k == "call" and n.ev[0] is not None and (O.isfresh(("call", n.ev[0])) or last(n.ev[0]) == "transcode" and len(n.ev[3]) == 2 and n.ev[0].endswith("XMLString::transcode")):
                o = ("call", n.ev[0], n.ev[2], n.ev[3])
            else: continue
            cnt += 1
            r = leaks(prog, O, f, n, o)
            c.judge(r is None, "leak|%s|%s" % (f.q, show(o)), "%s: what %s creates here (%s) is not freed, kept or handed on at %s" % (n.loc(), f.q, show(o), r and r[0]))
    c.count("objects followed through the function that creates them", cnt)

def occurs(e, x, depth=0):
    """does the deleted pointer occur in what a node evaluates?"""
    if not isinstance(e, tuple) or depth > 30: return False
    if e == x: return True
    if depth and e and e[0] in ("call", "ctor", "new"): return False          # evaluated in a node of its own
    if e and e[0] in ("call", "ctor", "new"): return False
    return any(occurs(y, x, depth + 1) for y in e)

def evforms(n):
    """(form, written) of what a node evaluates"""
    if n.k == "call":
        out = [(n.ev[2], False)] + [(a, False) for a in n.ev[3]]
    elif n.k == "set": out = [(n.ev[0], True), (n.ev[2], False)]
    elif n.k in ("ret", "del", "throw"): out = [(n.ev[0], False)] if n.ev else []
    else: out = []
    return [(e, w) for e, w in out if isinstance(e, tuple) and e]

def reads(prog, O):
    """function -> members of its own object that it looks at, itself or through its own methods"""
    R = {}; calls = {}
    for f in O.fns:
        r = set(); cs = set()
        for n in O.gi[f.u].g.nodes:
            for e, w in evforms(n):
                for y in subforms(e):
                    if isinstance(y, tuple) and y and y[0] == "f" and y[1] == ("this",) and not (w and y == e): r.add(y[2])
            if n.k == "call" and n.ev[2] == ("this",): cs |= {t.u for t in O.callees(n)}
        R[f.u] = r; calls[f.u] = cs
    ch = True
    while ch:
        ch = False
        for u, cs in calls.items():
            for v in cs:
                if v in R and not R[v] <= R[u]: R[u] |= R[v]; ch = True
    return R

def varsof(x): return {y for y in subforms(x) if isinstance(y, tuple) and y and y[0] == "var"}

def afterwards(prog, c, O):
    c.rule("a pointer that was deleted is not used, deleted again, returned or left behind in a member before it gets a new value, on every way from the deletion")
    R = reads(prog, O)
    cnt = 0
    for f in O.fns:
        G = O.gi[f.u]; g = G.g
        ds = []
        for n in g.nodes:
            if n.k == "del": ds.append((n, n.ev[0]))
            elif n.k == "call":
                for t in O.callees(n):
                    for i, a in enumerate(n.ev[3]):
                        if (t.u, i) in O.pdel and a is not None and O.pdel[(t.u, i)].k in ("del", "call") and a[0] in ("var", "f", "new", "idx") and not O.pst.get((t.u, i)): ds.append((n, a))
        for dn, x in ds:
            if x is None or x[0] in ("int",): continue
            cnt += 1
            vs = varsof(x)
            path = G.field(x) if x[0] in ("f", "idx") or x[0] == "var" and False else None
            base = x
            pre = []                                            # the objects and containers the pointer is in
            while isinstance(base, tuple):
                if base[0] in ("f", "idx") and isinstance(base[1], tuple): base = base[1]
                elif base[0] == "call" and last(base[1]) in ("back", "front", "top", "at", "operator[]") and isinstance(base[2], tuple): base = base[2]
                else: break
                pre.append(base)
            if x[0] == "call" and x[2] is not None and any(n.k == "call" and n.ev[0] is not None and n.ev[2] == x[2] and last(n.ev[0]) in ("pop_back", "pop_front", "pop", "erase") for n in g.nodes): c.ok(); continue   # another element each time
            bad = None
            seen = set(); todo = [(t, False) for t, lab in dn.succ]
            while todo and bad is None:
                n, thr = todo.pop()
                if (n.i, thr) in seen: continue
                seen.add((n.i, thr))
                if n.i == g.exit.i or n.i == g.texit.i and thr:
                    if path and f.d.get("kind") != "dtor" and not onlydtors(prog, f) and x[0] == "f" and (x[1] == ("this",) or x[1][0] in ("f", "param", "idx")):
                        bad = "is still in %s at the end of the function" % path[-1]
                    continue
                if n.k == "set":
                    if n.ev[0] == x and n.ev[1] == "=":
                        if occurs(n.ev[2], x): bad = "is used at %s" % n.loc()
                        continue
                    if n.ev[0] in vs: continue                  # another element from now on
                if n.k == "call" and n.ev[0] is not None:
                    if n.ev[2] in vs and last(n.ev[0]) in ("operator++", "operator--", "operator=", "operator+=", "operator-="): continue
                    if n.ev[2] is not None and n.ev[2] in pre and last(n.ev[0]) in ("clear", "erase", "pop_back", "pop", "resize", "swap", "reset"): continue
                    if n.ev[2] == x and last(n.ev[0]) in ("reset", "operator=") : continue
                    if any(a in vs and last(n.ev[0]) == "erase" for a in n.ev[3]): continue
                if n.k == "del" and n.ev[0] in pre: continue    # what it is in is deleted, too
                if n.i == dn.i and x[0] == "new": continue
                if n.k == "new" and n.ev[0] == x: continue      # the next object
                if any(occurs(e, x) and not (w and e == x) for e, w in evforms(n)):
                    bad = ("is deleted again at %s" if n.k == "del" and n.ev[0] == x else "is used at %s") % n.loc(); continue
                if n.k == "call" and x[0] == "f" and x[1] == n.ev[2] and n.ev[2] is not None:
                    if any(x[2] in R.get(t.u, ()) for t in O.callees(n)): bad = "is looked at by %s, called at %s" % (n.ev[0], n.loc()); continue
                for t, lab in n.succ:
                    if lab is not None and lab[0] == "eh" and n.k == "call" and not O.maythrow(n): continue
                    todo.append((t, n.k == "throw" or (thr and n.k in ("nop", "dtor"))))
            c.judge(bad is None, "after|%s|%s" % (f.q, show(x)), "%s: %s, which %s deletes here, %s" % (dn.loc(), show(x), f.q, bad))
    c.count("deletions followed", cnt)

def containers(prog, c, O):
    c.rule("objects that a function creates and keeps in a container of its own are all deleted before the function ends, unless it hands the container or its elements on")
    cnt = 0
    for f in O.fns:
        G = O.gi[f.u]; g = G.g
        byval = {v["id"] for n in f.nodes if n and n.get("k") == "decl" for v in n["vars"] if not v.get("st") and not v["t"].rstrip().endswith(("&", "*")) and v["t"].startswith("std::")}
        puts = {}
        for n in g.nodes:
            if n.k == "call" and n.ev[0] and n.ev[0].startswith("std::") and last(n.ev[0]) in STORES and n.ev[2] is not None and n.ev[2][0] == "var" and n.ev[2][2] in byval:
                if any(O.isfresh(o) for a in n.ev[3] if a is not None for o in G.origins(a)): puts.setdefault(n.ev[2], []).append(n)
        def elem(x, v, d=0):
            if x is None or d > 6: return False
            if x[0] == "idx": return x[1] == v
            if x[0] == "call" and last(x[1]) in ("operator[]", "at", "front", "back", "top"): return x[2] == v
            if x[0] == "op" and x[1] in ("*", "u*") and isinstance(x[2], tuple): return any(o[0] == "call" and last(o[1]) in BEGINS and o[2] == v for o in G.origins(x[2]))
            if x[0] == "call" and last(x[1]) == "operator*" and x[2] is not None: return any(o[0] == "call" and last(o[1]) in BEGINS and o[2] == v for o in G.origins(x[2]))
            if x[0] == "f" and last(x[2]) == "second": return elem(x[1], v, d + 1) or any(o[0] == "call" and last(o[1]) in BEGINS and o[2] == v for o in G.origins(x[1]))
            if x[0] in ("var", "tmp"): return any(elem(o, v, d + 1) or o[0] == "call" and last(o[1]) in BEGINS and o[2] == v for o in G.origins(x) if o != x)
            return False
        for v, ns in puts.items():
            cnt += 1
            esc = False; dels = []
            for n in g.nodes:
                if n.k == "del" and elem(n.ev[0], v): dels.append(n)
                if n.k == "ret" and n.ev[0] is not None and (v in parts(n.ev[0]) or elem(n.ev[0], v)): esc = True
                if n.k == "set" and n.ev[2] is not None and n.ev[0] is not None and n.ev[0][0] not in ("var", "tmp") and (v in parts(n.ev[2]) or elem(n.ev[2], v)) and not elem(n.ev[0], v): esc = True
                if n.k == "call":
                    for i, a in enumerate(n.ev[3]):
                        if a is None: continue
                        std = (n.ev[0] or "").startswith("std::")
                        if v in parts(a) and not std and (not O.callees(n) or any(t.u in O.hasdel or (t.u, i) in O.pst for t in O.callees(n))): esc = True
                        if elem(a, v) and any((t.u, i) in O.pst or (t.u, i) in O.pdel for t in O.callees(n)): esc = True
                        if std and last(n.ev[0]) in STORES and n.ev[2] != v and (v in parts(a) or elem(a, v)) : esc = True
                        if std and last(n.ev[0]) == "swap" and (a == v or n.ev[2] == v): esc = True
            if esc: c.ok(); continue
            why = None; L = O.loops(f); heads = set()
            if not dels: why = "none of them is deleted"
            for d in dels:
                ls = L.enclosing(d)
                if not ls: heads.add(d.i); continue
                if avoid2(G, L, ls[0], {n.i for n in dels}, prog, [((), n.ev[0]) for n in dels]): why = "there is a way round the loop that deletes none"; continue
                if full(L, ls[0], G): heads.add(ls[0].head)
                else: why = "the loop does not visit every element: %s" % L.iteration(ls[0]).why()
            if why is None:
                starts = [t.i for n in ns for t, lab in n.succ if not (lab is not None and lab[0] == "eh")]
                ws = [((), v)]
                if avoid(G, starts, {g.exit.i}, heads, prog, ws): why = "there is a way to the end of the function on which they are not deleted"
            c.judge(why is None, "local|%s|%s" % (f.q, show(v)), "%s: %s keeps objects it creates in %s: %s" % (ns[0].loc(), f.q, show(v), why))
    c.count("local containers of created objects", cnt)

OWNERS = ("std::basic_string", "icu_74::UnicodeString", "uima::util::Filename", "uima::util::Location", "JNIUString", "std::vector", "std::basic_stringbuf")
VIEWS = ("uima::UnicodeStringRef", "MemBufInputSource", "std::basic_string_view")        # keep the pointer they are given
LOOKS = ("c_str", "data", "getBuffer", "getTerminatedBuffer", "getAsCString", "begin", "end", "rbegin", "find")

def cls(t): return t.replace("const ", "").replace("volatile ", "").replace("struct ", "").replace("class ", "").strip()
def owns(t):
    t = cls(t); import re
    return not t.endswith(("*", "&")) and any(re.sub(r"icu_\d+::", "icu_74::", t) == o or t.startswith(o + "<") for o in OWNERS)
def isview(t): t = cls(t); return not t.endswith(("&", "*")) and any(t == v or t.endswith("::" + v) or t.startswith(v + "<") for v in VIEWS)

def temporaries(prog, c, O):
    c.rule("a pointer or reference string is not taken from a string that is destroyed at the end of the expression, and none into a local string is returned")
    looks = {}
    def lookers():
        """functions of the library that return a pointer into their own object"""
        for f in O.fns:
            if not f.cls or not (f.d.get("ret", "").rstrip().endswith("*") or isview(f.d.get("ret", ""))): continue
            rs = [n for n in f.nodes if n and n.get("k") == "ret" and n.get("s") is not None]
            if rs and all(into(f, n["s"]) == "this" for n in rs): looks[f.u] = 1
    def obj(f, i):
        """what object an expression denotes: 'tmp' a temporary owner, 'local' a local owner, 'this' a part of the object, else None"""
        n = f.nodes[i]; k = n.get("k")
        if k == "cast": return obj(f, n["s"])
        if k == "cond": r = [obj(f, x) for x in n["a"][1:]]; return next((x for x in r if x in ("tmp", "local")), None)
        if k == "ctor": return "tmp" if owns(n.get("cls", n.get("t", ""))) else None
        if k == "call":
            rt = n.get("rt", "").strip()
            if not rt.endswith(("&", "*")) and "reference" not in rt and owns(n.get("t", "")): return "tmp"
            if rt.endswith("&") and n.get("op") in ("+=", "=", "<<") and n.get("a"): return obj(f, n["a"][0])
            if rt.endswith("&") and (n.get("fn") or "").split("::")[-1] in ("append", "insert", "replace", "trim", "toLower", "toUpper", "assign") and n.get("o") is not None: return obj(f, n["o"])
            return None
        if k == "ref" and n.get("d") == "local" and owns(n.get("t", "")):
            return "local" if n.get("id") in byval[f.u] else None
        if k == "mem":
            b = f.nodes[n["b"]]
            return "this" if b.get("k") == "this" and owns(n.get("t", "")) else None
        return None
    def into(f, i):
        """what a pointer or view points into"""
        n = f.nodes[i]; k = n.get("k")
        if k == "cast": return into(f, n["s"])
        if k == "cond": r = [into(f, x) for x in n["a"][1:]]; return next((x for x in r if x), None)
        if k == "bin" and n.get("op") in ("+", "-"): return next((x for x in (into(f, a) for a in n["a"]) if x), None)
        if k == "un" and n.get("op") == "&" and n.get("s") is not None:
            m = f.nodes[n["s"]]
            if m.get("k") == "call" and m.get("op") == "[]" and m.get("a"): return obj(f, m["a"][0])
        if k == "call":
            nm = (n.get("fn") or "").split("::")[-1]; o = n.get("o")
            if n.get("op") and o is None and n.get("a"): o = n["a"][0]
            if o is not None and (nm in LOOKS or n.get("u") in looks):
                r = obj(f, o) or into(f, o)
                if r and (n.get("rt", "").rstrip().endswith("*") or n.get("t", "").rstrip().endswith("*") or isview(n.get("t", "")) or "iterator" in n.get("t", "")): return r
            if isview(n.get("t", "")) and o is not None and nm.startswith("operator"): return obj(f, o)
            return None
        if k == "ctor" and isview(n.get("cls", n.get("t", ""))):
            for a in n.get("a", ()):
                r = obj(f, a) or into(f, a)
                if r: return r
        return None
    byval = {}
    for f in O.fns:
        byval[f.u] = {v["id"] for n in f.nodes if n and n.get("k") == "decl" for v in n["vars"] if not v.get("st") and not v["t"].rstrip().endswith(("&", "*"))}
    lookers()
    cnt = 0
    def ptr(t): return t.rstrip().endswith("*") or t.rstrip().endswith("*const") or isview(t) or "iterator" in t
    for f in O.fns:
        use = []
        for n in f.nodes:
            if not n: continue
            k = n.get("k")
            if k == "decl": use += [(n, v["init"], "kept in %s" % v["n"], False) for v in n["vars"] if v.get("init") is not None and ptr(v["t"])]
            elif k == "asg" and n.get("op") == "=" and ptr(f.nodes[n["a"][0]].get("t", "")): use.append((n, n["a"][1], "kept in a variable", False))
            elif k == "call" and n.get("op") == "=" and len(n.get("a", ())) >= 1 and isview(n.get("rt", "").replace("&", "")): use.append((n, n["a"][-1], "kept in a variable", False))
            elif k == "minit" and n.get("s") is not None and ptr(f.nodes[n["s"]].get("t", "")): use.append((n, n["s"], "kept in a member", False))
            elif k == "ret" and n.get("s") is not None and ptr(f.d.get("ret", "")): use.append((n, n["s"], "returned", True))
        for n, i, what, ret in use:
            cnt += 1
            r = into(f, i)
            bad = r == "tmp" or ret and r == "local"
            c.judge(not bad, "temporary|%s|%s" % (f.q, what), "%s:%s: %s: a pointer into a %s string is %s" % (f.file, n.get("l"), f.q, "temporary" if r == "tmp" else "local", what))
    c.count("pointers and reference strings kept or returned", cnt)

FLOORS = (("created objects kept in members", 90), ("deletions whose object is known", 110), ("objects followed through the function that creates them", 200), ("deletions followed", 130))

def onnew(prog, O, f):
    """every call of the method is for an object the caller has just created"""
    if any(m["u"] == f.u and m["acc"] == "public" for m in prog.classes.get(f.cls, {"methods": ()})["methods"]): return False     # anybody can call it
    r = 0
    for h in O.fns:
        G = O.gi[h.u]
        for n in G.g.nodes:
            if n.k == "call" and n.ev[2] is not None and any(t.u == f.u for t in O.callees(n)):
                r += 1
                if not any(O.isfresh(o) for o in G.origins(n.ev[2])): return False
    return r > 0

def same(lab, x, y):
    "the branch says x == y"
    if lab is None or lab[0] != "t": return False
    q, pol = lab[1], lab[2]
    while q[0] == "not": q, pol = q[1], not pol
    if q[0] == "op" and q[1] in ("==", "!="): q = ("cmp",) + tuple(q[1:])
    return q[0] == "cmp" and q[1] in ("==", "!=") and {strip(q[2]), strip(q[3])} == {strip(x), strip(y)} and (q[1] == "==") == bool(pol)
def strip(x):
    while x is not None and x[0] == "cast": x = x[-1]
    return x

def overwrites(prog, c, O, D):
    c.rule("a member that owns an object gets a new value only when the old object was deleted or handed on, or the member is known to be null, on every way to the assignment")
    keys = set(D)
    cnt = 0
    for f in O.fns:
        if f.d.get("kind") in ("ctor", "dtor"): continue
        G = O.gi[f.u]; g = G.g
        for n in g.nodes:
            if not (n.k == "set" and n.ev[1] == "=" and n.ev[0] is not None and n.ev[0][0] in ("f", "idx", "call")): continue
            p = G.field(n.ev[0])
            if not p or key(p) not in keys or n.ev[2] == n.ev[0]: continue
            if n.ev[0][0] != "f" and num(prog, n.ev[2]) != 0: continue                          # a place that was perhaps empty
            x = n.ev[0]
            if x[1][0] in ("var", "tmp") and any(O.isfresh(o) for o in G.origins(x[1])): continue     # a new object
            if x[1][0] == "var" and x[1][2] in {v["id"] for m in f.nodes if m and m.get("k") == "decl" for v in m["vars"] if not v["t"].rstrip().endswith(("&", "*"))}: continue
            if x[1] == ("this",) and onnew(prog, O, f): continue
            cnt += 1
            # forwards from the entry: does an old object get here?
            seen = set(); todo = [g.entry]; hit = False
            while todo and not hit:
                m = todo.pop()
                if m.i in seen: continue
                seen.add(m.i)
                if m.i == n.i: hit = True; break
                if m.k == "del" and (m.ev[0] == x or x in G.origins(m.ev[0]) or G.field(m.ev[0]) == p): continue
                if m.k == "set" and m.ev[1] == "=" and G.field(m.ev[0]) == p and m.ev[0][0] == "f": continue
                if m.k == "set" and m.ev[2] is not None and m.ev[1] == "=" and x in parts(m.ev[2]) and m.ev[0] is not None and (m.ev[0][0] not in ("var", "tmp") or any(q is not None and m.ev[0] in set(subforms(q)) for k in g.nodes if k.k in ("del", "ret", "call") for q in ([k.ev[0]] if k.k != "call" else k.ev[3]))): continue      # somebody else has it now
                if m.k == "set" and m.ev[0] == x[1] and m.ev[1] == "=" and any(O.isfresh(o) for o in G.origins(m.ev[2])): continue
                if m.k == "ret" and m.ev[0] is not None and x in parts(m.ev[0]): continue
                if m.k == "call" and any(a is not None and x in parts(a) and any((t.u, i) in O.pdel or (t.u, i) in O.pst for t in O.callees(m)) for i, a in enumerate(m.ev[3])): continue
                if m.k == "call" and m.ev[0] is not None and (m.ev[2] == x[1]) and any(key(q) == key(p) for t in O.callees(m) if t.u in O.hasdel for k2 in [O.gi[t.u]] for q in [k2.field(y.ev[0]) for y in k2.g.nodes if y.k == "del"] if q): continue
                for t, lab in m.succ:
                    if lab is not None and lab[0] == "eh" and m.k == "call" and not O.maythrow(m): continue
                    if excused(prog, G, lab, [(p, x)]): continue
                    if same(lab, x, n.ev[2]): continue                                          # the same object again
                    todo.append(t)
            c.judge(not hit, "overwritten|%s|%s" % (f.q, p[-1]), "%s: %s gives %s a new value; an object it may still own is lost" % (n.loc(), f.q, ".".join(p)))
    c.count("assignments to members that own an object", cnt)

REMOVES = {"clear", "erase", "pop_back", "pop_front", "pop", "assign"}
def removals(prog, c, O, D):
    """elements that a container owns are not taken out of it and forgotten"""
    c.rule("when elements are removed from a container that owns them, they were deleted (or handed on) before, or are so afterwards")
    cont = {k[0] for k in D if len(k) == 2 and k[1] == ELEM}
    cnt = 0
    for f in O.fns:
        G = O.gi[f.u]; g = G.g
        for n in g.nodes:
            if not (n.k == "call" and n.ev[0] is not None and n.ev[0].startswith("std::") and last(n.ev[0]) in REMOVES and n.ev[2] is not None): continue
            p = G.field(n.ev[2])
            if not p or len(key(p)) != 1 or key(p)[0] not in cont: continue
            if f.d.get("kind") == "ctor" or onlydtors(prog, f): continue
            cnt += 1
            fld = key(p)[0]
            own = lambda form: form is not None and any(q and key(q) == (fld, ELEM) for q in [G.field(o) for o in list(G.origins(form)) + [form]])
            gone = {m.i for m in g.nodes if m.k == "del" and own(m.ev[0])}
            gone |= {m.i for m in g.nodes if m.k == "ret" and m.ev[0] is not None and own(m.ev[0])}
            gone |= {m.i for m in g.nodes if m.k == "call" and any((t.u, i) in O.pdel or (t.u, i) in O.pst for t in O.callees(m) for i, a in enumerate(m.ev[3]) if a is not None and own(a))}
            gone |= {m.i for m in g.nodes if m.k == "set" and m.ev[2] is not None and m.ev[0] is not None and m.ev[0][0] in ("f", "idx") and own(m.ev[2])}
            gone |= {m.i for m in g.nodes if m.k == "set" and m.ev[2] is not None and own(m.ev[0]) and num(prog, m.ev[2]) == 0}
            L = O.loops(f); ws = [(p + (ELEM,), ("idx", n.ev[2], None))]
            for i in list(gone):
                for lp in L.enclosing(g.nodes[i]):
                    if n.i not in lp.body: gone.add(lp.head)                 # the loop decides which elements it deletes
            bad = avoid(G, [g.entry.i], {n.i}, gone, prog, ws) and avoid(G, [t.i for t, lab in n.succ], {g.exit.i}, gone, prog, ws)
            c.judge(not bad, "removed|%s|%s" % (f.q, fld), "%s: %s removes elements of %s, which owns them, without deleting them" % (n.loc(), f.q, fld))
    c.count("removals from containers that own their elements", cnt)

def evidence(prog, c, O, D):
    """a member that a method deletes and replaces is deleted by the destructor too"""
    c.rule("a member whose object a method deletes before it gives the member a new value is deleted by a destructor as well")
    for f in O.fns:
        if f.d.get("kind") in ("ctor", "dtor"): continue
        G = O.gi[f.u]
        for n in G.g.nodes:
            if n.k != "del": continue
            p = G.field(n.ev[0])
            if not p or len(p) != 1 or n.ev[0][0] != "f" or n.ev[0][1] != ("this",): continue
            k = key(p)
            if not any(m.k == "set" and m.ev[1] == "=" and m.ev[0] == n.ev[0] and num(prog, m.ev[2]) != 0 and escapes(G.g, n.i, m.i, set()) for m in G.g.nodes): continue
            c.judge(k in D or k in O.ended, "owner|%s|%s" % (f.q, k[0]), "%s: %s deletes %s, but no destructor does" % (n.loc(), f.q, k[0]))

def run(prog, c):
    O = Own(prog)
    for n, k in FLOORS: c.floor(n, k)
    D = destructors(prog, c, O)
    overwrites(prog, c, O, D)
    removals(prog, c, O, D)
    evidence(prog, c, O, D)
    matching(prog, c, O)
    locals_(prog, c, O)
    afterwards(prog, c, O)
    containers(prog, c, O)
    temporaries(prog, c, O)
