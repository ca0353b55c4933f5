"""C02: feature access and creation respect the type system."""
from .common import *
from .c01 import inline, TYFS, HBASE

FEAT = "uima::Feature::iv_tyFeature"
TYPE = "uima::Type::iv_tyType"

def run(prog, c):
    c.rule("a public operation of a feature-structure handle that reads or writes a feature named by the caller reaches the heap accessor of kind K "
           "only on paths where the feature object is valid, the feature is appropriate for the type of this cell, and the feature's range type agrees with K "
           "(K primitive: range subsumed/equal to that primitive; reference read: range excluded from every primitive and string type; reference write: range subsumes "
           "the value's type, or the value is a plain FS array going into a specialised FS-array feature; string: range is a string type)")
    c.rule("a string is stored only if the range is the plain string type or an element of the subtype's value set compared equal to the stored value on the path")
    c.rule("a type-named creation reaches the heap allocation only with the type valid and neither primitive, string subtype nor array (or proven an annotation type)")
    c.rule("array/list handles built from an arbitrary feature structure leave the constructor only if the handle is invalid or its type was compared with the handle's type")
    K = {k: typeconst(prog, v) for k, v in KTYPE.items()}
    tyString = typeconst(prog, "gs_tyStringType"); tyFSArray = typeconst(prog, "gs_tyFSArrayType")
    tyArrayBase = typeconst(prog, "gs_tyArrayBaseType"); tyAnn = typeconst(prog, "gs_tyAnnotationType")
    reftypes = {v for q, v in prog.gcv.items() if q.startswith("uima::internal::gs_ty") and q.endswith("ListType")}
    classes = [HBASE] + prog.subclasses(HBASE)
    kinds_seen = set()

    def featobj(x): return x is not None and x[0] == "f" and x[2] == FEAT and x[1][0] == "param"

    for f in sorted(prog.fns.values(), key=lambda f: f.u):
        if not f.blocks or f.cls not in classes or f.d["kind"] in ("ctor", "dtor") or f.d.get("acc", "public") != "public": continue
        if not any("uima::Feature " in p["t"] for p in f.params): continue
        cells = [("f", ("param", ix, p["n"]), TYFS) for ix, p in enumerate(f.params) if "FeatureStructure" in p["t"]][:1] if f.d.get("static") else [("f", ("this",), TYFS)]
        g = Graph(prog, f, inline=inline, depth=6)
        # string set membership: an equality with the stored value taken on the path
        strp = [("param", ix, p["n"]) for ix, p in enumerate(f.params) if "UnicodeString" in p["t"] or "UnicodeStringRef" in p["t"] or "char16_t" in p["t"]]
        def edge(n, tgt, lab, facts, us):
            if lab is not None and lab[0] == "t" and lab[1] is not None and strp:
                cc, pol = lab[1], lab[2]
                while cc[0] == "not": cc = cc[1]; pol = not pol
                if cc[0] == "cmp":
                    m = [any(contains(s, p) for p in strp) for s in (cc[2], cc[3]) if s is not None]
                    if len(m) == 2 and m[0] != m[1]:
                        other = cc[3] if m[0] else cc[2]
                        mine = cc[2] if m[0] else cc[3]
                        find = any(x[0] == "call" and x[1] in ("std::find", "std::__find_if", "std::binary_search") for x in subforms(mine))
                        if not find and num(prog, other) is None and (cc[1] == "==") == pol and cc[1] in ("==", "!="): return us | {"m"}
                        if find and (cc[1] == "!=") == pol and cc[1] in ("==", "!="): return us | {"m"}
                elif any(x[0] == "call" and x[1] == "std::binary_search" for x in subforms(cc)) and pol: return us | {"m"}
                elif cc[0] == "call" and cc[1].endswith("::operator==") and pol and any(contains(cc, p) for p in strp): return us | {"m"}
            return us
        def step(n, facts, us):
            if n.k == "call" and n.ev[0] == TS + "getStringsForStringSubtype":
                us = us | {("set", n.ev[3][0] if n.ev[3] else None)}
            return [(facts, us)]
        r = explore(g, ustate=frozenset(), step=step, edge=edge)
        c.fn(f)
        for n in g.nodes:
            if n.k != "call" or n.i not in r.at or not n.ev[0] or not n.ev[0].startswith(HEAP): continue
            nm = n.ev[0][len(HEAP):]; args = n.ev[3]
            if len(args) < 2 or args[0] not in cells: continue
            if not (nm.startswith(("get", "set", "is")) and nm.endswith("Value") or nm == "getFeatureInternal"): continue
            X = args[1]
            if not featobj(X):
                if X is not None and num(prog, X) is None and not (X[0] == "g"): 
                    c.count("derived_features")
                continue
            set_ = nm.startswith("set")
            kind = nm[3:-5] if nm[:3] in ("get", "set") else None
            c.count("feature_accesses"); kinds_seen.add(nm)
            for st in r.at[n.i]:
                F = st[0]
                rngs = lambda x: iscall(x, TS + "getRangeType", (X,))
                why = None
                def eqrange(code, pol):
                    for x in F:
                        if x[0] in ("eq", "ne") and len(x[1]) == 1 and rngs(x[1][0][0]) and x[2] == code and abs(x[1][0][1]) == 1:
                            if (x[0] == "eq") == pol: return True
                        if x[0] == "eq" and not pol and len(x[1]) == 1 and rngs(x[1][0][0]) and x[2] != code: return True
                    return False
                def sub(a, b, pol=True):
                    return has_b(F, lambda y: iscall(y, TS + "subsumes") and len(y[3]) == 2 and a(y[3][0]) and b(y[3][1]), pol)
                isnum = lambda v: (lambda y: num(prog, y) == v)
                if not holds(F, ("b", X), True) and not holds_eq(F, X, ("int", 0), prog, False): why = "without testing that the feature object is valid"
                elif not has_b(F, lambda y: iscall(y, TS + "isAppropriateFeature") and len(y[3]) == 2 and y[3][1] == X and iscall(y[3][0], HEAP + "getType", (args[0],))):
                    why = "without testing that the feature is appropriate for the type"
                elif kind in K and not (sub(rngs, isnum(K[kind])) or eqrange(K[kind], True)):
                    why = "without testing that the feature's range is %s" % kind
                elif kind == "String" or (kind == "FS" and not set_ and (sub(isnum(tyString), rngs) or eqrange(tyString, True))):
                    if not (sub(isnum(tyString), rngs) or eqrange(tyString, True)): why = "without testing that the range is a string type"
                    elif set_ and not eqrange(tyString, True) and not ("m" in st[1] and any(isinstance(x, tuple) and x[0] == "set" and rngs(x[1]) for x in st[1])):
                        why = "without the value having matched one of the string subtype's values"
                elif kind == "FS" and any(iscall(x[1], TS + "subsumes") and len(x[1][3]) == 2 and num(prog, x[1][3][0]) in reftypes and rngs(x[1][3][1]) for x in F if x[0] == "b") \
                     and (not set_ or iscall(args[2], HEAP + "createFS")): pass
                elif kind == "FS" and not set_:
                    miss = [k for k, v in K.items() if not eqrange(v, False)]
                    if not eqrange(tyString, False) and not sub(isnum(tyString), rngs, False): miss.append("String")
                    par = any(x[0] == "ne" and len(x[1]) == 1 and iscall(x[1][0][0], TS + "getParentType") and rngs(x[1][0][0][3][0]) and x[2] == tyString for x in F)
                    if not par and not sub(isnum(tyString), rngs, False): miss.append("string subtype")
                    if miss: why = "although the feature's range may be " + "/".join(miss)
                elif kind == "FS" and set_:
                    val = args[2]
                    vt = lambda y: iscall(y, HEAP + "getType", (val,))
                    plain = sub(rngs, vt)
                    if not plain:
                        fsa = any(x[0] == "eq" and len(x[1]) == 1 and vt(x[1][0][0]) and x[2] == tyFSArray for x in F)
                        rel = fsa and (any(x[0] == "eq" and len(x[1]) == 2 and any(vt(y) for y, z in x[1]) and x[2] == 0 and all(vt(y) or y[0] == "f" and y[2] == TYPE or rngs(y) for y, z in x[1]) for x in F)
                                       or has_b(F, lambda y: iscall(y, TS + "subsumes") and len(y[3]) == 2 and (vt(y[3][0]) or num(prog, y[3][0]) == tyFSArray) and (y[3][1][0] == "f" and y[3][1][2] == TYPE or rngs(y[3][1]))))
                        if not rel: why = "without testing that the range subsumes the value's type"
                    if not why:
                        cas = [x for x in F if x[0] == "eq" and len(x[1]) == 2 and x[2] == 0 and any(contains(y, ("param", 1, f.params[1]["n"])) for y, z in x[1])]
                        if not any(all("TypeSystem" in repr(y) or "iv_cas" in repr(y) for y, z in x[1]) for x in cas): why = "without testing that the value belongs to the same type system"
                if why:
                    c.bad("%s|%s" % (f.u, nm), "%s: %s reaches %s %s (path: %s)" % (n.where(), f.u, n.ev[0], why, "; ".join(trace(g, r, n.i, st))))
                    break
            else: c.ok("%s in %s" % (nm, f.u))
    for k in list(K) + ["FS"]:
        for s in ("get", "set"):
            if s + k + "Value" not in kinds_seen: raise AnalysisBroken("no public %s%sValue operation found" % (s, k))
    if "setStringValue" not in kinds_seen: raise AnalysisBroken("no public setStringValue found")
    c.floor("feature_accesses", 30)

    # ---- creation
    for f in sorted(prog.fnall("uima::CAS::createFS") + prog.fnall("uima::CAS::createAnnotation"), key=lambda f: f.u):
        g = Graph(prog, f, inline=lambda t, fr: t.cls in ("uima::CAS", "uima::internal::FSPromoter", "uima::Type") and t.name != "getSofa", depth=4)
        r = explore(g); c.fn(f)
        for n in g.nodes:
            if n.k != "call" or n.i not in r.at or n.ev[0] != HEAP + "createFS": continue
            T = n.ev[3][0]
            if num(prog, T) is not None: continue
            c.count("creations")
            for st in r.at[n.i]:
                F = st[0]
                why = None
                valid = holds(F, ("b", T), True) is True
                sub = lambda code, pol: has_b(F, lambda y: iscall(y, TS + "subsumes") and len(y[3]) == 2 and num(prog, y[3][0]) == code and y[3][1] == T, pol)
                if not valid: why = "the type object may be invalid"
                elif not sub(tyAnn, True):
                    miss = [k for k, v in K.items() if not holds_eq(F, T, ("int", v), prog, False)]
                    if not sub(tyString, False): miss.append("string types")
                    if not sub(tyArrayBase, False): miss.append("array types")
                    if miss: why = "the type may be " + ", ".join(miss)
                    elif f.name == "createAnnotation": why = "the type may not be an annotation type"
                if why:
                    c.bad("create|%s" % f.u, "%s: %s allocates a feature structure although %s" % (n.where(), f.u, why)); break
            else: c.ok("creation in " + f.u)
    c.floor("creations", 2)

    # ---- array / list handles
    for f in sorted(prog.fns.values(), key=lambda f: f.u):
        if f.d["kind"] != "ctor" or not f.cls or not f.file.endswith(("arrayfs.cpp", "listfs.cpp")): continue
        if [p["t"].replace("const ", "").strip() for p in f.params] != ["uima::FeatureStructure &"]: continue
        g = Graph(prog, f, inline=inline, depth=5)
        r = explore(g); c.fn(f)
        cell = ("f", ("this",), TYFS)
        c.count("typed_handle_ctors")
        okv = True
        for st in r.at.get(g.exit.i, ()):
            F = st[0]
            inv = has_b(F, lambda y: y == cell or iscall(y, HEAP + "isValid") or y == ("f", ("this",), "uima::FeatureStructure::iv_cas") or (y[0] == "ret" and y[2].endswith("isValid")), False)
            ty = any(x[0] in ("eq",) and len(x[1]) == 1 and iscall(x[1][0][0], HEAP + "getType", (cell,)) for x in F) \
                 or has_b(F, lambda y: iscall(y, TS + "subsumes") and len(y[3]) == 2 and iscall(y[3][1], HEAP + "getType", (cell,)))
            if not inv and not ty: okv = False
        c.judge(okv, "ctor|" + f.u, "%s: %s accepts a valid feature structure without comparing its type with the handle's type" % (f.loc(), f.u), "ctor " + f.u)
    c.floor("typed_handle_ctors", 13)
