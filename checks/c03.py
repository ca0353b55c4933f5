"""C03: array and list accessors stay inside the array / list they were given."""
from .common import *
from .c01 import inline, TYFS

SIZE = HEAP + "getArraySize"

def ulin(f, prog):
    """linear form modulo 2^64 (unsigned subtraction is subtraction)"""
    if f[0] == "op" and f[1] in ("+", "-", "u-"):
        a, ca = ulin(f[2], prog); b, cb = ulin(f[3], prog)
        s = 1 if f[1] == "+" else -1
        r = dict(a)
        for x, k in b.items():
            r[x] = r.get(x, 0) + s * k
            if not r[x]: del r[x]
        return r, ca + s * cb
    d, k = lin(f, prog)
    if len(d) == 1 and list(d)[0] == f: return d, k
    out, kk = {}, k
    for x, co in d.items():
        dx, kx = ulin(x, prog)
        kk += co * kx
        for y, cy in dx.items():
            out[y] = out.get(y, 0) + co * cy
            if not out[y]: del out[y]
    return out, kk

def bounded(facts, expr, size, prog):
    """a fact expr < size (unsigned, modulo 2^64 arithmetic) is held"""
    d, k = ulin(expr, prog)
    for f in facts:
        if f[0] == "le":
            co = dict(f[1])
            if co.get(size) != -1: continue
            tot, kk = {}, -f[2] - 1
            for x, cx in f[1]:
                if x == size: continue
                dx, kx = ulin(x, prog)
                kk += cx * kx
                for y, cy in dx.items():
                    tot[y] = tot.get(y, 0) + cx * cy
                    if not tot[y]: del tot[y]
            if tot == d and kk == k: return True
    return False

def run(prog, c):
    c.rule("each use of an array's element storage (element pointer indexed, or element offset plus index) in a public array operation is reached only with index < size of that same array")
    c.rule("each bulk copy is reached only with start < size, start+count-1 < size and count-1 < size (unsigned arithmetic modulo 2^64)")
    c.rule("each list head/tail access is reached only with the cell's type equal to the list's non-empty node type, or on a node just created with that type")
    arr = [f for f in prog.fns.values() if f.file.endswith("arrayfs.cpp") and f.blocks and f.cls and "BasicArrayFS" in f.u and f.d.get("acc", "public") == "public" and f.d["kind"] == "method" and not f.d.get("static")]
    if not arr: arr = [f for f in prog.fns.values() if f.file.endswith("arrayfs.cpp") and f.blocks and f.cls and f.d["kind"] not in ("ctor", "dtor") and not f.d.get("static")]
    ops = set()
    for f in sorted(arr, key=lambda f: f.u):
        g = Graph(prog, f, inline=inline, depth=5)
        r = explore(g); c.fn(f)
        seen = set()
        for n in g.nodes:
            if n.i not in r.at: continue
            forms = []
            if n.k == "call": forms = list(n.ev[3]) + [n.ev[2]]
            elif n.k == "set": forms = [n.ev[0], n.ev[2]]
            elif n.k == "ret": forms = [n.ev[0]]
            need = []
            for fm in forms:
                if fm is None: continue
                for s in subforms(fm):
                    if s[0] == "idx" and iscall(s[1], HEAP + "getCArrayFromFS"): need.append((s[1][3][0], [s[2]], "element " + show(s[2])))
                    if s[0] == "idx" and s[1] is not None and s[1][0] == "op" and s[1][1] == "+" and iscall(s[1][2], HEAP + "getCArrayFromFS"): need.append((s[1][2][3][0], [("op", "+", s[1][3], s[2])], "element"))
                    if s[0] == "op" and s[1] == "+" and iscall(s[2], HEAP + "getArrayOffset"): need.append((s[2][3][0], [s[3]], "element " + show(s[3])))
                    elif s[0] == "op" and s[1] == "+" and iscall(s[3], HEAP + "getArrayOffset"): need.append((s[3][3][0], [s[2]], "element " + show(s[2])))
            if n.k == "call" and n.ev[0] in (HEAP + "copyToArray", HEAP + "copyFromArray"):
                a = n.ev[3]
                if n.ev[0].endswith("copyToArray"): st, cell, cnt = a[0], a[1], a[4]
                else: st, cell, cnt = a[3], a[2], a[4]
                one = ("int", 1)
                need.append((cell, [st, ("op", "-", ("op", "+", st, cnt), one), ("op", "-", cnt, one)], "bulk copy"))
                ops.add(f.name)
            for cell, exprs, what in need:
                if (n.k, n.nid, n.fr.tag, cell, tuple(exprs)) in seen: continue
                seen.add((n.k, n.nid, n.fr.tag, cell, tuple(exprs)))
                c.count("element_accesses"); ops.add(f.name)
                bad = None
                for st_ in r.at[n.i]:
                    F = st_[0]
                    sizes = {x for ft in F if ft[0] == "le" for x, k in ft[1] if iscall(x, SIZE, (cell,))}
                    for e in exprs:
                        if not any(bounded(F, e, z, prog) for z in sizes):
                            bad = (e, st_); break
                    if bad: break
                if bad:
                    c.bad("%s|%s" % (f.u, what), "%s: %s: %s is reached although %s may be outside the array (path %s)" % (n.where(), f.u, what, show(bad[0]), "; ".join(trace(g, r, n.i, bad[1]))))
                else: c.ok("%s %s" % (f.u, what))
    for o in ("get", "set", "copyToArray", "copyFromArray"):
        if o not in ops: raise AnalysisBroken("no element access found in array operation " + o)
    c.floor("element_accesses", 60)

    # lists
    heads = {v for q, v in prog.gcv.items() if q.startswith("uima::internal::gs_ty") and q.endswith(("ListHeadFeature", "ListTailFeature"))}
    feats = {q: v for q, v in prog.gcv.items() if "ListHeadFeature" in q or "ListTailFeature" in q or "HeadFeature" in q or "TailFeature" in q}
    heads |= set(feats.values())
    if len(heads) < 8: raise AnalysisBroken("list head/tail features: %s" % feats)
    lst = [f for f in prog.fns.values() if f.file.endswith("listfs.cpp") and f.blocks and f.cls and f.d["kind"] not in ("ctor", "dtor")]
    ne = {v: k for k, v in prog.gcv.items() if k.startswith("uima::internal::gs_tyNE") and k.endswith("ListType")}
    for f in sorted(lst, key=lambda f: f.u):
        if f.d.get("acc", "public") != "public": continue
        g = Graph(prog, f, inline=inline, depth=6)
        def step(n, facts, us):
            if n.k == "set" and n.ev[0] is not None and n.ev[1] == "=":
                lhs, rhs = n.ev[0], n.ev[2]
                def nonempty(x): return x in us or any(y[0] == "eq" and len(y[1]) == 1 and iscall(y[1][0][0], HEAP + "getType", (x,)) and y[2] in ne for y in facts)
                add = set()
                if iscall(rhs, HEAP + "createFS") and num(prog, rhs[3][0]) in ne: add.add(lhs)
                elif rhs is not None and nonempty(rhs): add.add(lhs)
                elif rhs is not None and nonempty(("f", rhs, TYFS)): add.add(("f", lhs, TYFS))
                us = frozenset(x for x in us if not contains(x, lhs)) | add
            return [(facts, us)]
        r = explore(g, ustate=frozenset(), step=step); c.fn(f)
        for n in g.nodes:
            if n.i not in r.at or n.k != "call" or not n.ev[0] or not n.ev[0].startswith(HEAP): continue
            nm = n.ev[0][len(HEAP):]
            if not (nm.endswith("Value") and nm[:3] in ("get", "set")) or len(n.ev[3]) < 2: continue
            cell, ft = n.ev[3][0], num(prog, n.ev[3][1])
            if ft is None or ft not in heads: continue
            c.count("list_accesses")
            if iscall(cell, HEAP + "createFS") and num(prog, cell[3][0]) in ne: c.ok("fresh node"); continue
            for st in r.at[n.i]:
                F = st[0]
                ok = cell in st[1] or any(x[0] == "eq" and len(x[1]) == 1 and iscall(x[1][0][0], HEAP + "getType", (cell,)) and x[2] in ne for x in F)
                if not ok:
                    c.bad("%s|%s|%s" % (f.u, nm, show(cell)), "%s: %s: %s on %s which is not known to be a non-empty list node (path %s)" % (n.where(), f.u, nm, show(cell), "; ".join(trace(g, r, n.i, st))))
                    break
            else: c.ok("%s %s" % (f.u, nm))
    c.floor("list_accesses", 40)
