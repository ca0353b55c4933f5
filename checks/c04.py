"""C04: every route to a primitive value uses the same store, position, width and representation."""
from .common import *
from sa.flow import *

HQ = "uima::lowlevel::internal::Heap<"
SIZEOF = {"int": 4, "unsigned int": 4, "float": 4, "bool": 1, "char": 1, "signed char": 1, "unsigned char": 1, "short": 2, "unsigned short": 2, "char16_t": 2,
          "long": 8, "unsigned long": 8, "long long": 8, "unsigned long long": 8, "double": 8, "uima::FeatureStructure": 4, "uima::UnicodeStringRef": 4}
WIDTH = {"Int": 4, "Float": 4, "Boolean": 1, "Byte": 1, "Short": 2, "Long": 8, "Double": 8}

def inl(t, fr):
    if (t.cls or "").startswith("uima::BasicArrayFS"): return False
    if HQ in t.q: return False
    return t.cls in ("uima::lowlevel::FSHeap", "uima::internal::FSPromoter", "uima::CAS") or t.q.startswith("uima::internal::") and "xception" not in t.q and t.cls is None

def elemtype(q):
    return q[q.index("Heap<") + 5:q.index(">::")]

def heapname(o):
    return o[2].rsplit("::", 1)[-1] if o is not None and o[0] == "f" else show(o)

def norm(f, ren, memo=None):
    """value form with heap reads as ('cell', heap, position)"""
    if not isinstance(f, tuple) or not f: return f
    for k, v in ren:
        if f == k: return v
    if f[0] == "call" and f[1].startswith(HQ):
        nm = f[1].rsplit("::", 1)[-1]
        if nm == "getHeapValue": return ("cell", heapname(f[2]), lnorm(f[3][0], ren))
        if nm == "getHeapStart": return ("base", heapname(f[2]))
        if nm == "increaseHeap": return ("alloc", heapname(f[2]))
    if f[0] == "idx":
        l = lnorm(("op", "+", f[1], f[2]), ren)
        b = [x for x in l[0] if x[0][0] == "base" and x[1] == 1]
        if len(b) == 1: return ("cell", b[0][0][1], (tuple(x for x in l[0] if x != b[0]), l[1]))
    if f[0] == "f" and len(f) == 3 and f[1] is not None: return ("f", norm(f[1], ren), f[2])
    if f[0] == "call": return ("call", f[1], None, tuple(norm(a, ren) for a in f[3]))
    return tuple(norm(x, ren) if isinstance(x, tuple) else x for x in f)

def ul(f):
    """unsigned subtraction agrees with subtraction as long as values are only compared for equality"""
    if not isinstance(f, tuple): return f
    if f and f[0] == "op" and f[1] == "u-": return ("op", "-", ul(f[2]), ul(f[3]))
    return tuple(ul(x) for x in f)

def lnorm(f, ren):
    d, c = lin(ul(f))
    r = {}
    for x, k in d.items():
        y = norm(x, ren)
        # a renamed operand may itself be linear
        dd, cc = lin(y) if y[0] in ("op", "int") else ({y: 1}, 0)
        c += k * cc
        for z, kk in dd.items():
            r[z] = r.get(z, 0) + k * kk
            if not r[z]: del r[z]
    return (canon(r), c)

def cells(f):
    return [x for x in walk(f) if x[0] == "cell"]
def walk(f):
    if isinstance(f, tuple):
        if f and isinstance(f[0], str): yield f
        for x in f: yield from walk(x)

def consistent(facts, typef, sizef, code):
    """path possible for a non-empty array of this type code?"""
    for x in facts:
        if x[0] in ("b", "nb"): l = ((x[1], 1),); op, cst = ("ne" if x[0] == "b" else "eq"), 0
        elif x[0] in ("eq", "ne"): l, op, cst = x[1], x[0], x[2]
        else: continue
        if len(l) != 1: continue
        g = norm(l[0][0], [(("f", ("this",), "uima::FeatureStructure::iv_tyFS"), ("CELL",))])
        if g == typef and ((op == "eq") != (cst == code)): return False
        if g == sizef and op == "eq" and cst == 0: return False
    return True

def codec(enc, dec, width, isbool):
    """enc: list of (facts,form in V); dec: list of (facts,form in C) -> error or None"""
    V, C = ("V",), ("C",)
    e = {f for F, f in enc}; d = {f for F, f in dec}
    simple = lambda s, x: len(s) == 1 and list(s)[0] == x
    if len(e) == 1 and list(e)[0] == V:
        if d == {C}: return None
        if isbool:
            for v in (0, 1):
                got = evaldec(dec, C, v)
                if got != v: return "the stored boolean %d reads back as %s" % (v, got)
            return None
        return "written unchanged but read back as " + ", ".join(show(x) for x in d)
    if len(e) == 1 and list(e)[0][0] == "bits":
        x = list(e)[0]
        if x[1] == V and len(d) == 1 and list(d)[0][0] == "bits" and list(d)[0][1] == C:
            n1, n2 = x[2], list(d)[0][2]
            return None if n1 == n2 == width else "bit copy of %s bytes on write, %s on read, the value has %d" % (n1, n2, width)
        return "bit pattern written but read back as " + ", ".join(show(y) for y in d)
    if isbool and all(f[0] == "int" for F, f in enc):
        for F, f in enc:
            t = holds(F, ("b", V), True)
            if t is None: return "the encoding of the boolean does not depend on its value"
            got = evaldec(dec, C, f[1])
            if got != int(t): return "%s is stored as %d, which reads back as %s" % ("true" if t else "false", f[1], {1: "true", 0: "false"}.get(got, "unknown"))
        return None
    return "unrecognised encoding " + ", ".join(show(x) for x in e)

def evaldec(dec, C, v):
    res = set()
    for F, f in dec:
        F2 = assume(F, ("cmp", "==", C, ("int", v)), True)
        if F2 is None: continue
        if f[0] == "int": res.add(1 if f[1] else 0)
        elif f == C: res.add(1 if v else 0)
        else:
            b = evalb(F2, f)
            res.add(None if b is None else int(b))
    return res.pop() if len(res) == 1 else None

def rfacts(F, ren, sub):
    """facts about one renamed form"""
    out = set()
    for x in F:
        if x[0] in ("b", "nb"):
            g = norm(x[1], ren)
            if g == sub[0]: out.add((x[0], sub[1]))
        elif x[0] in ("eq", "ne", "le") and len(x[1]) == 1:
            g = norm(x[1][0][0], ren)
            if g == sub[0]: out.add((x[0], ((sub[1], x[1][0][1]),), x[2]))
    return frozenset(out)

def castscan(prog, c, fl, what, width, isflt, source):
    """conversions applied to the value itself"""
    for fr in fl.g.frames:
        for i, n in enumerate(fr.fn.nodes):
            if n["k"] != "cast" or n.get("ck") not in ("IntegralCast", "FloatingCast", "IntegralToFloating", "FloatingToIntegral"): continue
            yield fr, i, n

def run(prog, c):
    c.rule("for each primitive kind the heap feature writer and reader resolve (value numbering, helpers inlined) to the same store, position and indirection, and decode(encode(v)) = v")
    c.rule("for each array kind element get, element set, bulk copy in, bulk copy out and the reservation made at creation resolve to the same store, base and element width; bulk copies move count x element-width bytes")
    c.rule("no conversion on these routes changes between integer and floating representation or narrows the value below its kind's width")
    def checkcasts(fl, key, width, pred):
        for fr in fl.g.frames:
            for i, n in enumerate(fr.fn.nodes):
                ck = n.get("ck")
                if n["k"] != "cast" or ck not in ("IntegralCast", "FloatingCast", "IntegralToFloating", "FloatingToIntegral"): continue
                src = fr.form(n["s"])
                vals = {src} if src is not None else set()
                for nd in fl.g.nodes:
                    if nd.fr is fr and nd.i in fl.at:
                        for st in fl.at[nd.i]: vals.add(fl.val(src, st))
                        
                if not any(pred(v) for v in vals if v is not None): continue
                c.count("value_conversions")
                if ck != "IntegralCast":
                    c.bad(key + "|conv", "%s: %s converts the value between integer and floating point (%s)" % (fr.where(i), key, ck)); continue
                w = SIZEOF.get(n.get("t", ""))
                c.judge(w is None or w >= width, key + "|narrow", "%s: %s narrows the value to %s bytes" % (fr.where(i), key, w))
    # ---- features
    p0 = lambda f: [(("param", ix, p["n"]), ("P", ix)) for ix, p in enumerate(f.params)]
    for k in KINDS:
        G = prog.fn(HEAP + "get%sValue" % k, 2); S = prog.fn(HEAP + "set%sValue" % k, 3)
        c.fn(G); c.fn(S); c.count("feature_pairs")
        flg, fls = Flow(prog, G, inl), Flow(prog, S, inl)
        rs, rg = p0(S), p0(G)
        V = ("P", 2)
        # writer
        w = {}
        stores = []
        for n, st, o, a in fls.calls(lambda q: q.startswith(HQ) and q.endswith("::setHeapValue")):
            val = norm(a[1], rs); stores.append((heapname(o), lnorm(a[0], rs), val, st, SIZEOF.get(elemtype(n.ev[0]))))
        direct = [s for s in stores if not any(x[0] == "alloc" for x in walk(s[2]))]
        ind = [s for s in stores if s not in direct]
        enc = []
        main = {s[:2] for s in stores if s[0] == "iv_clTemporaryHeap"}
        key = "feature|" + k
        if ind:
            ih = {s[2] for s in ind}
            tgt = [s for s in direct if s[1] == ((((list(ih)[0]), 1),), 0)] if len(ih) == 1 else []
            if len(ih) != 1 or not tgt or len(main) != 1 or tgt[0][0] != list(ih)[0][1]:
                c.bad(key, "%s: the writer of %s features does not store the value at the reserved position it records in the feature's cell" % (S.loc(), k)); continue
            wl = (tgt[0][0], "via", list(main)[0]); wid = tgt[0][4]
            enc = [(rfacts(s[3][0], rs, (V, ("V",))), subst(s[2], V, ("V",))) for s in tgt]
        else:
            if len({s[:2] for s in direct}) != 1:
                c.bad(key, "%s: the writer of %s features stores to %d places" % (S.loc(), k, len({s[:2] for s in direct}))); continue
            wl = direct[0][:2]; wid = direct[0][4]
            enc = [(rfacts(s[3][0], rs, (V, ("V",))), subst(s[2], V, ("V",))) for s in direct]
        # reader
        dec = []; rl = set()
        mcell = ("cell",) + list(main)[0]
        for n, st, v in flg.rets():
            v = norm(v, rg)
            if ind and v == ("int", 0) and rfacts(st[0], rg, (mcell, ("C",))) & {("nb", ("C",)), ("eq", ((("C",), 1),), 0)}: continue   # unset reads as zero
            cs = cells(v)
            top = cs[0] if cs else None
            if top is None:
                top = mcell
            rl.add(top)
            dec.append((rfacts(st[0], rg, (top, ("C",))), subst(v, top, ("C",))))
        want = ("cell", wl[0], (((mcell, 1),), 0)) if ind else ("cell",) + wl
        if rl != {want}:
            c.bad(key, "%s: %s features are written to %s but read from %s" % (G.loc(), k, wl[0] + " at " + repr(wl[1:])[:120], [x[1] + " " + repr(x[2])[:120] for x in rl])); continue
        err = codec(enc, dec, WIDTH[k], k == "Boolean")
        c.judge(err is None, key + "|codec", "%s: %s feature value %s" % (G.loc(), k, err), "feature %s: %s at %s" % (k, wl[0], "indirect" if ind else "cell"))
        c.judge(wid is not None and wid >= WIDTH[k], key + "|width", "%s: store of %s features holds only %s bytes" % (S.loc(), k, wid))
        isv = lambda v: any(x == ("param", 2, S.params[2]["n"]) for x in subforms(v)) and not (v[0] == "call")
        checkcasts(fls, "writer of %s features" % k, WIDTH[k], isv)
        isr = lambda v: norm(v, rg) in (want, ("bits", want, WIDTH[k]))
        checkcasts(flg, "reader of %s features" % k, WIDTH[k], isr)
    # ---- arrays
    CELLF = ("f", ("this",), "uima::FeatureStructure::iv_tyFS")
    main = "iv_clTemporaryHeap"
    typef = ("cell", main, (((("CELL",), 1),), 0)); sizef = ("cell", main, (((("CELL",), 1),), 1))
    IX = ("IX",)
    def has(f, x): return any(y == x for y in walk(f))
    for f in sorted(prog.fns.values(), key=lambda f: f.u):
        if not f.q.startswith("uima::BasicArrayFS<") or f.name != "createArrayFS": continue
        cls = f.q.rsplit("::", 1)[0]; T, code = cls[len("uima::BasicArrayFS<"):-1].rsplit(", ", 1); code = int(code)
        key = "array|" + T
        # reservation
        fl = Flow(prog, f, inl); c.fn(f)
        al, sets = {}, {}
        for n, st, o, a in fl.calls(lambda q: q.startswith(HQ)):
            nm = n.ev[0].rsplit("::", 1)[-1]
            if nm == "increaseHeap": al[heapname(o)] = (lnorm(a[0], []), SIZEOF.get(elemtype(n.ev[0])))
            if nm == "setHeapValue": sets[(heapname(o), lnorm(a[0], []))] = norm(a[1], [])
        A = ("alloc", main)
        SZ = ("param", 1, f.params[1]["n"])
        side = [h for h in al if h != main]
        if sets.get((main, (((A, 1),), 0))) != ("int", code): c.bad(key + "|type", "%s: an array of %s is not created with its own type code" % (f.loc(), T)); continue
        if sets.get((main, (((A, 1),), 1))) != SZ: c.bad(key + "|size", "%s: an array of %s does not record its length" % (f.loc(), T)); continue
        if side:
            h = side[0]
            okk = len(side) == 1 and al[h][0] == (((SZ, 1),), 0) and sets.get((main, (((A, 1),), 2))) == ("alloc", h) and al[main][0] == ((), 3)
            base = (h, (((("cell", main, (((("CELL",), 1),), 2)), 1), (IX, 1)), 0)); ew = al[h][1]
        else:
            h = main
            okk = al.get(main, (None,))[0] == (((SZ, 1),), 2)
            base = (main, (((("CELL",), 1), (IX, 1)), 2)); ew = al[main][1]
        base = (base[0], (tuple(sorted(base[1][0], key=repr)), base[1][1]))
        c.judge(okk, key + "|reserve", "%s: an array of %s reserves %s" % (f.loc(), T, {k: str(v) for k, v in al.items()}), "array of %s: elements in %s" % (T, h))
        c.count("array_kinds")
        c.judge(SIZEOF.get(T) is not None and ew is not None and SIZEOF[T] <= ew, key + "|width", "%s: elements of %s stored in %s-byte cells" % (f.loc(), T, ew))
        enc = dec = None
        for g in sorted((x for x in prog.fns.values() if x.q.rsplit("::", 1)[0] == cls and x.blocks), key=lambda x: x.u):
            if g.name not in ("get", "set", "copyToArray", "copyFromArray"): continue
            if g.name == "copyToArray" and "*" not in g.params[2]["t"]: continue      # forwards to the other overload
            fl = Flow(prog, g, inl); c.fn(g); c.count("array_routes")
            ix = {"get": 0, "set": 0, "copyToArray": 0, "copyFromArray": 3}[g.name]
            ren = [(CELLF, ("CELL",)), (("param", ix, g.params[ix]["n"]), IX)]
            kk = key + "|" + g.name
            locs = set(); bad = None
            if g.name == "get":
                dec = []
                for n, st, v in fl.rets():
                    if not consistent(st[0], typef, sizef, code): continue
                    v = norm(v, ren)
                    cs = [x for x in cells(v) if has(x[2], IX)]
                    if not cs:
                        cs = [x for y in st[0] for z in fact_forms(y) for x in cells(norm(z, ren)) if has(x[2], IX)]
                    for x in cs:
                        if not any(x is not y and has(y[2], x) for y in cs): pass
                    inner = [x for x in cs if not any(has(x[2], y) for y in cs if y != x)] or [None]
                    if T in ("uima::FeatureStructure", "uima::UnicodeStringRef"): loc = inner[0]
                    else: loc = cs[0] if cs else None
                    locs.add(loc[1:] if loc else None)
                    if loc: dec.append((rfacts(st[0], ren, (loc, ("C",))), subst(v, loc, ("C",))))
            elif g.name == "set":
                enc = []
                V = ("param", 1, g.params[1]["n"])
                for n, st, o, a in fl.calls(lambda q: q.startswith(HQ) and q.endswith("::setHeapValue")):
                    if not consistent(st[0], typef, sizef, code): continue
                    p = lnorm(a[0], ren)
                    if heapname(o) in ("iv_clTemporaryStringRefHeap", "iv_clTemporaryStringHeap") and not has(p, IX): continue
                    locs.add((heapname(o), p)); enc.append((rfacts(st[0], ren, (V, ("V",))), subst(norm(a[1], ren), V, ("V",))))
                for n, st, l, v in fl.stores():
                    if l[0] != "idx" or not consistent(st[0], typef, sizef, code): continue
                    x = norm(l, ren)
                    locs.add(x[1:] if x[0] == "cell" else (show(l),)); enc.append((rfacts(st[0], ren, (V, ("V",))), subst(norm(v, ren), V, ("V",))))
            else:
                src = g.name == "copyToArray"
                n_el = ("op", "-", ("param", 1, ""), ("param", 0, "")) if src else ("op", "-", ("param", 2, ""), ("param", 1, ""))
                ctl = 0
                for n, st, o, a in fl.calls(lambda q: q in ("memcpy", "memmove")):
                    if not consistent(st[0], typef, sizef, code): continue
                    ctl += 1
                    x = norm(("idx", a[1] if src else a[0], ("int", 0)), ren)
                    locs.add(x[1:] if x[0] == "cell" else (show(x),))
                    d, cc = lin(a[2])
                    hi, lo = (1, 0) if src else (2, 1)
                    want = {("param", hi, g.params[hi]["n"]): ew, ("param", lo, g.params[lo]["n"]): -ew}
                    if d != want or cc: bad = "moves %s bytes instead of (end-start) x %d" % (show(a[2]), ew or 0)
                    oth = lin(a[0] if src else a[1])[0]
                    osz = SIZEOF.get(T)
                    wanto = {("param", 2 if src else 0, g.params[2 if src else 0]["n"]): 1, ("param", 3 if src else 1, g.params[3 if src else 1]["n"]): 1}
                    if oth != wanto or osz != ew: bad = bad or "addresses the caller's buffer as %s" % show(a[0] if src else a[1])
                if not ctl:
                    if T in ("uima::FeatureStructure", "uima::UnicodeStringRef"): continue    # refused
                    bad = "moves nothing"; locs = {base}
            if bad: c.bad(kk + "|extent", "%s: %s of an array of %s %s" % (g.loc(), g.name, T, bad)); continue
            c.judge(locs == {base}, kk, "%s: %s of an array of %s uses %s, but elements are reserved at %s" % (g.loc(), g.name, T, [repr(x)[:160] for x in locs], repr(base)[:160]), "%s of %s" % (g.name, T))
            if g.name == "set":
                isv = lambda v: any(x == ("param", 1, g.params[1]["n"]) for x in subforms(v)) and v[0] != "call"
                if T not in ("uima::FeatureStructure", "uima::UnicodeStringRef"): checkcasts(fl, "%s::set" % cls, SIZEOF[T], isv)
            if g.name == "get":
                isr = lambda v: norm(v, ren)[:2] == ("cell", base[0]) and norm(v, ren)[1:] == base or v[0] == "bits" and norm(v[1], ren)[1:] == base
                if T not in ("uima::FeatureStructure", "uima::UnicodeStringRef"): checkcasts(fl, "%s::get" % cls, SIZEOF[T], isr)
        if enc is None or dec is None: raise AnalysisBroken("get/set of %s not found" % cls)
        if T not in ("uima::FeatureStructure", "uima::UnicodeStringRef"):
            err = codec(enc, dec, SIZEOF[T], T == "bool")
            c.judge(err is None, key + "|codec", "element of an array of %s: %s" % (T, err), "codec " + T)
    strings(prog, c)
    copies(prog, c)
    handles(prog, c, checkcasts)
    c.floor("feature_pairs", 7); c.floor("array_kinds", 9); c.floor("array_routes", 34)

def subst(f, a, b):
    if f == a: return b
    if not isinstance(f, tuple): return f
    return tuple(subst(x, a, b) for x in f)

SH, SR = "iv_clTemporaryStringHeap", "iv_clTemporaryStringRefHeap"
USR = "uima::UnicodeStringRef"

def entry(l):
    """(X, component) of a position 2X-1+component in the string reference heap"""
    d = dict(l[0]); cst = l[1]
    for x in d:
        if d[x] % 2: return None
    if cst % 2 == 0: cst -= 1; comp = 1
    else: comp = 0
    return (canon({x: k // 2 for x, k in d.items()}), (cst + 1) // 2), comp

def nr(f, ren):
    return norm(f, ren)

def strings(prog, c):
    c.rule("string entries: offset and length are written to and read from the two cells of the same entry, the length is that of the string at the stored offset, the characters are copied in full behind their reservation of length+1, and an unset string reads as the empty reference")
    # writers of entries
    for nm in ("getStringAsFS", "setStringValue", "setStringRef"):
        f = prog.fn(HEAP + nm); c.fn(f); c.count("string_writers")
        fl = Flow(prog, f, inl); ren = p0(f)
        off = ("P", {"getStringAsFS": 0, "setStringValue": 2, "setStringRef": 1}[nm])
        seen = {}
        LEN = ("P", len(f.params) - 1)
        scan = 0
        for n, st, o, a in fl.calls(lambda q: q.startswith(HQ) and q.endswith("::setHeapValue")):
            if heapname(o) != SR: continue
            e = entry(lnorm(a[0], ren)); v = norm(a[1], ren)
            if e is None: c.bad("string|%s|pos" % nm, "%s: string reference written at an odd position %s" % (n.where(), show(a[0]))); continue
            seen.setdefault(e[0], {}).setdefault(e[1], set()).add(v)
        okk = bool(seen)
        for X, d in seen.items():
            ln = ("call", "u_strlen", None, (("op", "+", ("base", SH), off),))
            g = d.get(1, set())
            okk = okk and d.get(0) == {off} and bool(g) and all(strlen_of(x, off) or x == LEN or x[0] == "ite" and sorted((strlen_of(y, off), y == LEN) for y in x[2:]) == [(False, True), (True, False)] and lencond(x, LEN, off) for x in g)
        c.judge(okk, "string|" + nm, "%s: %s writes string entries %s" % (f.loc(), f.u, {repr(k)[:80]: {i: [show(y) for y in v] for i, v in d.items()} for k, d in seen.items()}), "string entry written by " + nm)
        # the entry written is the one handed out / recorded
        if nm == "getStringAsFS":
            for n, st, v in fl.rets():
                c.judge({lnorm(v, ren)} == set(seen), "string|%s|result" % nm, "%s: %s fills entry %s but returns %s" % (n.loc(), f.u, [repr(x)[:90] for x in seen], show(v)))
            al = [(heapname(o), a[0]) for n, st, o, a in fl.calls(lambda q: q.startswith(HQ) and q.endswith("::increaseHeap"))]
            c.judge(al and all(x == (SR, ("int", 2)) for x in al), "string|%s|reserve" % nm, "%s: a string entry reserves %s" % (f.loc(), al))
        if nm == "setStringValue":
            main = set(); ok2 = True
            for n, st, o, a in fl.calls(lambda q: q.startswith(HQ) and q.endswith("::setHeapValue")):
                if heapname(o) == "iv_clTemporaryHeap":
                    main.add(lnorm(a[0], ren)); ok2 = ok2 and lnorm(a[1], ren) in seen
            c.judge(ok2 and len(main) == 1, "string|setStringValue|cell", "%s: %s fills entries %s but does not record that entry in the feature's cell" % (f.loc(), f.u, [repr(x)[:90] for x in seen]))
            wcell = list(main)[0] if main else None
    # readers
    lengths(prog, c)
    for nm, np in (("getFSAsString", 1), ("getString", 1), ("getStringValue", 2)):
        f = prog.fn(HEAP + nm, np); c.fn(f); c.count("string_readers")
        fl = Flow(prog, f, inl); ren = p0(f)
        X = (((("P", 0), 1),), 0) if np == 1 else (((("cell", "iv_clTemporaryHeap", wcell), 1),), 0)
        xf = X[0][0][0]
        for n, st, v in fl.rets():
            v = norm(v, ren); good = False
            if v[0] == "ctor" and v[1] == USR:
                if not v[2]: good = bool(rfacts(st[0], ren, (xf, ("C",))) & {("nb", ("C",)), ("eq", ((("C",), 1),), 0)})
                elif len(v[2]) == 2:
                    p, l = v[2]
                    d = lnorm(p, []); b = [x for x, k in d[0] if k == 1]
                    cl = [x for x in b if x[0] == "cell"]
                    good = set(x[0] for x in b) == {"base", "cell"} and len(b) == len(d[0]) == 2 and d[1] == 0 and ("base", SH) in b and cl[0][1] == SR and entry(cl[0][2]) == (X, 0) and l[0] == "cell" and l[1] == SR and entry(l[2]) == (X, 1)
            c.judge(good, "string|" + nm, "%s: %s returns %s" % (n.loc(), f.u, show(v)[:200]), "string read by " + nm)
    # characters
    for f in prog.fnall(HEAP + "addString"):
        fl = Flow(prog, f, lambda t, fr: t.cls == "uima::lowlevel::FSHeap"); c.fn(f)
        src = ("param", 0, f.params[0]["n"])
        cnt = 0
        for n, st, v in fl.rets():
            good = ("alloc", SH) == norm(v, [])
            c.judge(good, "string|addString|result", "%s: %s returns %s instead of the reserved position" % (n.loc(), f.u, show(v)))
        for n, st, o, a in fl.calls(lambda q: q.startswith(HQ) and q.endswith("::increaseHeap")):
            c.judge(heapname(o) == SH and is_len(a[0], src, 1, 1), "string|addString|reserve", "%s: %s reserves %s for a string" % (n.loc(), f.u, show(a[0])))
        for n, st, o, a in fl.calls(lambda q: q.endswith(("memcpy", "memmove", "u_memcpy", "u_strncpy"))):
            cnt += 1
            dst = lnorm(a[0], []); d = dict(dst[0])
            good = d == {("base", SH): 1, ("alloc", SH): 1} and dst[1] == 0 and is_len(a[2], src, 2 if n.ev[0].endswith("memcpy") and not n.ev[0].startswith("u_") or n.ev[0].endswith("memmove") else 1, 0)
            s = lin(a[1])
            isb = lambda x: x[0] == "call" and x[1].startswith(HQ) and x[1].endswith("::getHeapStart") and heapname(x[2]) == SH
            d2 = {x: k for x, k in s[0].items() if not isb(x)}
            bal = sum(k for x, k in s[0].items() if isb(x))
            good = good and len(d2) == 1 and s[1] == 0 and list(d2.values()) == [1] and bal == 0 and is_buf(list(d2)[0], src)
            c.judge(good, "string|addString|copy", "%s: %s copies %s bytes from %s to %s" % (n.loc(), f.u, show(a[2]), show(a[1]), show(a[0])), "characters copied in " + f.u)
        if cnt == 0: raise AnalysisBroken("no character copy found in " + f.u)
    for k in ("getSizeInBytes", "length", "getBuffer"):
        f = prog.fn(USR + "::" + k, 0); c.fn(f)
        fl = Flow(prog, f)
        for n, st, v in fl.rets():
            d, cc = lin(v)
            L = ("f", ("this",), USR + "::iv_uiLength")
            want = {"getSizeInBytes": {L: 2}, "length": {L: 1}, "getBuffer": {("f", ("this",), USR + "::iv_pUChars"): 1}}[k]
            c.judge(d == want and cc == 0, "string|ref|" + k, "%s: %s returns %s" % (n.loc(), f.u, show(v)))
    # entry heap only ever grows by whole entries
    for f in prog.fns.values():
        if not f.blocks or not any(n.get("fn", "").endswith("::increaseHeap") for i, n in f.calls()): continue
        fl = Flow(prog, f, lambda t, fr: False)
        for n, st, o, a in fl.calls(lambda q: q.startswith(HQ) and q.endswith("::increaseHeap")):
            if heapname(o) not in (SR,): continue
            d, cc = lin(a[0])
            whole = all(k % 2 == 0 for k in d.values()) and cc % 2 == 0
            # deserialization takes the writer's own top (odd) minus the unused first cell
            top = (len(d) == 1 and cc == -1)
            c.judge(whole or top, "string|whole|" + f.u, "%s: %s grows the string reference heap by %s" % (n.loc(), f.u, show(a[0])), "growth of string entries in " + f.u)
            c.count("entry_growth")
    c.floor("entry_growth", 2)

p0 = lambda f: [(("param", ix, p["n"]), ("P", ix)) for ix, p in enumerate(f.params)]

def lencond(x, LEN, off):
    """a given length is used when it is not negative"""
    for v in (-1, 0, 1, 7):
        b = evalb(frozenset({("eq", ((LEN, 1),), v)}), x[1])
        if b is None: return False
        if (x[2] if b else x[3]) != (LEN if v >= 0 else (x[2] if strlen_of(x[2], off) else x[3])): return False
    return True

def lengths(prog, c):
    c.rule("whoever stores a string records the length of that same string; scanning for a terminator is used only for language tags")
    for f in sorted(prog.fns.values(), key=lambda f: f.u):
        if not f.blocks or f.cls == "uima::lowlevel::FSHeap": continue
        if not any(n.get("fn") in (HEAP + "setStringValue", HEAP + "getStringAsFS") for i, n in f.calls()): continue
        fl = Flow(prog, f, lambda t, fr: False); c.fn(f)
        for n, st, o, a in fl.calls(lambda q: q in (HEAP + "setStringValue", HEAP + "getStringAsFS")):
            ref, ln = a[-2], a[-1]
            c.count("string_stores")
            if not iscall(ref, HEAP + "addString"): c.bad("length|ref|" + f.u, "%s: %s stores %s, which is not a string put on the string heap" % (n.loc(), f.u, show(ref)[:120])); continue
            src = ref[3][0]
            if any(x[0] == "call" and x[1].startswith("uima::Language::") for x in subforms(src)): c.ok(); continue
            c.judge(same_len(ln, src), "length|" + f.u, "%s: %s stores the string %s with length %s" % (n.loc(), f.u, show(src)[:100], show(ln)[:100]), "length recorded in " + f.q)
    c.floor("string_stores", 8)

def same_len(ln, src):
    if ln is None: return False
    if ln[0] == "call" and ln[1].rsplit("::", 1)[-1] == "length" and (ln[2] == src or src is not None and any(x == ln[2] for x in subforms(src))): return True
    return src is not None and src[0] == "ctor" and len(src[2]) == 2 and src[2][1] == ln

def strlen_of(v, off):
    if v[0] != "call" or v[1].rsplit("::", 1)[-1].split("_7")[0] not in ("u_strlen",): return False
    d = dict(lnorm(v[3][0], [])[0])
    return d == {("base", SH): 1, off: 1} and lnorm(v[3][0], [])[1] == 0

def is_len(v, src, mul, add):
    d, cc = lin(v)
    if cc != add or len(d) != 1: return False
    (x, k), = d.items()
    if x[0] == "call" and x[2] is not None and has_root(x[2], src):
        nm = x[1].rsplit("::", 1)[-1]
        return (nm == "length" and k == mul) or (nm == "getSizeInBytes" and k * 2 == mul)
    return x[0] == "f" and x[2].endswith("iv_uiLength") and k == mul
def is_buf(x, src):
    return x[0] == "call" and x[1].rsplit("::", 1)[-1] == "getBuffer" and has_root(x[2], src) or x[0] == "f" and x[2].endswith("iv_pUChars")
def has_root(o, src):
    return o == src or o is not None and o[0] == "ctor" and o[1] == USR and len(o[2]) in (1, 2) and any(y == src for y in subforms(o))

def copies(prog, c):
    c.rule("copying features copies each of the first n features from the same offset of the source to the target; a string feature gets an entry of its own, since setStringValue rewrites entries in place; a clone copies a constant or zero count only between structures of the same type")
    f = prog.fn(HEAP + "copyFeatures", 3); c.fn(f)
    fl = Flow(prog, f, inl)
    T, S, NF = [("param", i, p["n"]) for i, p in enumerate(f.params)]
    main = "iv_clTemporaryHeap"
    seen = set()
    for n, st, o, a in fl.calls(lambda q: q.startswith(HQ) and q.endswith("::setHeapValue")):
        if heapname(o) != main: continue
        pos = lnorm(a[0], []); v = norm(a[1], [])
        c.count("feature_copies")
        offs = dict(pos[0]); offs[T] = offs.get(T, 0) - 1; offs = {x: k for x, k in offs.items() if k}
        src = ("cell", main, (canon({**offs, S: 1}), pos[1]))
        string = lambda pol: has_b(st[0], lambda y: iscall(y, TS + "subsumes") and num(prog, y[3][0]) == typeconst(prog, "gs_tyStringType") and iscall(y[3][1], TS + "getRangeType"), pol)
        if v == src:
            c.judge(string(False), "copy|share", "%s: the cell of a feature that may be a string is shared by both structures" % n.loc(), "copy of non-string features"); seen.add("plain")
        else:
            # a fresh entry carrying the source entry's offset
            fresh = any(x == ("alloc", SR) for x in walk(v))
            offs_ok = False
            for n2, st2, o2, a2 in fl.calls(lambda q: q.startswith(HQ) and q.endswith("::setHeapValue")):
                if heapname(o2) != SR: continue
                e = entry(lnorm(a2[0], [])); w = norm(a2[1], [])
                if e and e[1] == 0 and w[0] == "cell" and w[1] == SR and entry(w[2]) and entry(w[2])[1] == 0 and entry(w[2])[0][0] == ((src, 1),) and e[0] == lnorm(a[1], []): offs_ok = True
            c.judge(fresh and offs_ok and string(True), "copy|string", "%s: the copy of a string feature is %s" % (n.loc(), show(a[1])[:160]), "copy of string features"); seen.add("string")
        # coverage: offsets 1..n
        if len(offs) == 1 and list(offs.values()) == [1] and list(offs)[0][0] == "phi":
            phi = list(offs)[0]; cnt = fl.counter(phi)
            start = cnt is not None and cnt[0] == ("int", 1 - pos[1]) and cnt[1] == 1
            upper = any(x[0] == "le" and x[2] == -pos[1] and len(x[1]) == 2 and dict(x[1]).get(phi) == 1 and sorted(dict(x[1]).values()) == [-1, 1] for x in st[0])
            c.judge(start and upper, "copy|range", "%s: features copied do not run from 1 to the feature count (counter %s)" % (n.loc(), cnt))
        elif len(offs) == 1 and list(offs)[0] == ("this",): pass
        else: c.bad("copy|pos", "%s: feature copied from %s to %s" % (n.loc(), show(a[1])[:120], show(a[0])[:120]))
    if seen != {"plain", "string"}: c.bad("copy|kinds", "%s: copyFeatures handles only %s features" % (f.loc(), sorted(seen)))
    for q, fs in list(prog.byq.items()):
        for f in fs:
            if not any(n.get("fn") == HEAP + "copyFeatures" for i, n in f.calls()): continue
            fl = Flow(prog, f, lambda t, fr: t.cls in ("uima::FeatureStructure", "uima::internal::FSPromoter") and t.name != "getCAS"); c.fn(f)
            for n, st, o, a in fl.calls(lambda q: q == HEAP + "copyFeatures"):
                c.count("copy_calls")
                cf = fold(a[2]) if len(a) > 2 else ("int", 0)
                tgt = a[0]
                made = [y for y in subforms(tgt) if y[0] == "call" and y[1] == "uima::CAS::createFS"]
                own = bool(made) and any(x[0] == "call" and x[1] == "uima::FeatureStructure::getType" or iscall(x, HEAP + "getType") for x in subforms(made[0][3][0]))
                if cf == ("int", 0): c.judge(own, "copy|all|" + f.u, "%s: %s copies all features into a structure of another type" % (n.loc(), f.u), f.u)
                else: c.judge(holds(st[0], ("b", cf), True) is True or holds(st[0], ("le", ((cf, -1),), -1), True) is True, "copy|zero|" + f.u, "%s: %s copies %s features, which means all when it is 0" % (n.loc(), f.u, show(cf)[:120]), f.u)
                if cf != ("int", 0):
                    common = any(iscall(x, TS + "getMostSpecificCommonSupertype") for x in subforms(cf))
                    c.judge(common, "copy|common|" + f.u, "%s: %s copies %s features, not those of the common supertype" % (n.loc(), f.u, show(cf)[:120]))
    c.floor("copy_calls", 2); c.floor("feature_copies", 2)

def handles(prog, c, checkcasts):
    c.rule("public setters hand the caller's value unchanged to the writer of their kind; public getters return the reader's result unchanged")
    for f in sorted(prog.fns.values(), key=lambda f: f.u):
        if not f.blocks or f.d["kind"] in ("ctor", "dtor") or f.d.get("acc", "public") != "public" or not f.cls: continue
        if f.cls != "uima::FeatureStructure" and "uima::FeatureStructure" not in prog.bases(f.cls): continue
        for K in KINDS:
            if f.name == "set%sValue" % K or f.name == "get%sValue" % K: break
        else: continue
        fl = Flow(prog, f, lambda t, fr: t.cls in ("uima::FeatureStructure", "uima::internal::FSPromoter") or t.q.startswith("uima::internal::") and t.cls is None)
        c.fn(f); c.count("handle_routes")
        if f.name.startswith("set"):
            V = ("param", len(f.params) - 1, f.params[-1]["n"])
            n_ = 0
            for n, st, o, a in fl.calls(lambda q: q == HEAP + f.name):
                n_ += 1
                c.judge(a[2] == V, "handle|" + f.u, "%s: %s stores %s instead of its argument" % (n.loc(), f.u, show(a[2])), f.q)
            checkcasts(fl, f.q, WIDTH[K], lambda v: v == V)
            c.judge(n_ > 0, "handle|none|" + f.u, "%s: %s never reaches the writer of its kind" % (f.loc(), f.u))
        else:
            for n, st, v in fl.rets():
                checkcasts(fl, f.q, WIDTH[K], lambda v: iscall(v, HEAP + f.name))
                c.judge(iscall(v, HEAP + f.name), "handle|" + f.u, "%s: %s returns %s instead of the stored value" % (n.loc(), f.u, show(v)[:120]), f.q)
    c.floor("handle_routes", 14)
