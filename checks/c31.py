"""C31: validation refuses exactly the inconsistent descriptions, and engines are made from validated ones"""
from sa import check
from sa.core import *
from sa.scen import Scen, last

class Val(Scen):
    """notes elements read outside a vector"""
    def __init__(self, *a, **k):
        Scen.__init__(self, *a, **k); self.lim = 1 << 20; self.outside = []
    def visit(self, n, env):
        if n.k == "call":                                # arguments are evaluated
            for a in n.ev[3]: self.val(a, env)
            if n.ev[0] and last(n.ev[0]) == "insert" and len(n.ev[3]) == 1 and n.ev[2] is not None:     # what insert tells is about the set before
                o, v = self.val(n.ev[2], env), self.norm(self.val(n.ev[3][0], env))
                if isinstance(o, tuple) and o and o[0] == "vec" and v is not None: env[("call", n.ev[0], n.ev[2], tuple(n.ev[3]))] = ("obj", "pair", (("second", int(v not in o[1:])),))
        return Scen.visit(self, n, env)
    def val(self, f, env):
        v = Scen.val(self, f, env)
        if v == "outside" and f is not None and f[0] in ("idx", "call"): self.outside.append(show(f))
        return v
    def callval(self, q, o, args, f=None):
        n = last(q)
        seq = lambda x: isinstance(x, tuple) and x and x[0] == "it" and x[1][0] == "vec"
        if n in ("count", "find") and len(args) == 3 and seq(args[0]) and seq(args[1]):
            want = self.norm(args[2])
            if want is None: return None
            part = args[0][1][1 + args[0][2]:1 + args[1][2]]
            if n == "count": return sum(x == want for x in part)
            return ("it", args[0][1], args[0][2] + (part.index(want) if want in part else len(part)))
        if isinstance(o, tuple) and o and o[0] == "vec" and n in ("count", "find") and len(args) == 1:    # a set
            want = self.norm(args[0])
            if want is None: return None
            return sum(x == want for x in o[1:]) if n == "count" else ("it", o, o[1:].index(want) if want in o[1:] else len(o) - 1)
        return Scen.callval(self, q, o, args, f)

def one(prog, q, nparams=0):
    fs = [f for f in prog.byq.get(q, ()) if f.blocks and len(f.params) == nparams]
    if len(fs) != 1: raise AnalysisBroken("%d definitions of %s" % (len(fs), q))
    return fs[0]

def graph(prog, c, f, stop=("validate", "getNameValuePair"), own=()):
    c.fn(f)
    return Graph(prog, f, inline=lambda t, fr: t.u != f.u and t.name not in stop and t.name not in own and t.d.get("kind") in ("func", "method") and (t.cls in ("", None) or t.cls == f.cls), depth=4, eh="all")

LISTS = [(), ("a",), ("a", "b"), ("a", "b", "c"), ("a", "a"), ("a", "b", "a"), ("b", "a", "a"), ("a", "a", "a")]
def names(l): return {"%s#%d" % (x, i): x for i, x in enumerate(l)}
def tok(l): return tuple("%s#%d" % (x, i) for i, x in enumerate(l))
def unq(o): return o.split("#")[0] if isinstance(o, str) and "#" in o else None

def typesystem(prog, c):
    """duplicate type names are refused, every type is validated"""
    f = one(prog, "uima::TypeSystemDescription::validate")
    g = graph(prog, c, f, own=("getTypeDescriptions",))
    for l in LISTS:
        vec = ("vec",) + tok(l)
        for bad in (None,) + tok(l)[-1:]:
            ans = {"getTypeDescriptions": vec, "getName": lambda s, o, a: unq(o), "validate": None}
            s = Val(prog, g, [], {"iv_vecpTypeDescriptions": vec}, ans, ("validate",), maxlog=30)
            if bad: s.throws = lambda n, t=s.throws: t(n) or validates(n); s.must = lambda n: validates(n)
            out = s.go(); c.count("scenarios")
            dup = len(set(l)) != len(l)
            w = None
            for thr, r, lg, env in out:
                if thr != (dup or bad is not None): w = "is %s" % ("refused" if thr else "accepted")
                elif not thr and sorted(e[1] for e in lg) != sorted(tok(l)): w = "is accepted, but only %s of its types validated" % len(set(lg))
            if s.outside: w = "reads %s outside its vector" % s.outside[0]
            c.judge(bool(out) and w is None, "types|%s|%s" % (".".join(l), bad), "%s: %s: a type system with types (%s)%s %s" % (f.loc(), f.q, ", ".join(l), " of which one is invalid" if bad else "", w), "types %s" % ".".join(l))

def validates(n): return n.k == "call" and n.ev[0] is not None and last(n.ev[0]) == "validate"

def typedesc(prog, c):
    """allowed values only for subtypes of string; feature names are unique"""
    f = one(prog, "uima::TypeDescription::validate")
    g = graph(prog, c, f, own=("getFeatureDescriptions", "getAllowedValues", "getSuperTypeName", "getName"))
    for l in LISTS:
        for allowed in (0, 1, 2):
            for sup in ("uima.cas.String", "uima.tcas.Annotation"):
                fv = ("vec",) + tok(l); av = ("vec",) + tuple("v%d" % i for i in range(allowed))
                ans = {"getFeatureDescriptions": fv, "getAllowedValues": av, "getSuperTypeName": '"%s"' % sup, "getName": lambda s, o, a: unq(o) or "T"}
                s = Val(prog, g, [], {"iv_vecpFeatureDescriptions": fv, "iv_vecpAllowedValues": av, "iv_superTypeName": '"%s"' % sup, "iv_name": "T"}, ans)
                out = s.go(); c.count("scenarios")
                want = len(set(l)) != len(l) or (allowed > 0 and sup != "uima.cas.String")
                w = None
                for thr, r, lg, env in out:
                    if thr != want: w = "is %s" % ("refused" if thr else "accepted")
                if s.outside: w = "reads %s outside its vector" % s.outside[0]
                c.judge(bool(out) and w is None, "type|%s|%d|%s" % (".".join(l), allowed, sup), "%s: %s: a subtype of %s with features (%s) and %d allowed values %s" % (f.loc(), f.q, sup, ", ".join(l), allowed, w), "type %s" % ".".join(l))

def metadata(prog, c):
    """type system, capabilities, indexes and mandatory parameters"""
    q = "uima::AnalysisEngineMetaData"
    f = one(prog, q + "::validate")
    own = ("getTypeSystemDescription", "getCapabilites", "getFSIndexDescriptions", "getConfigurationGroupNames", "getConfigurationParameters", "getSearchStrategy", "hasGroups")
    g = graph(prog, c, f, own=own)
    def case(key, text, want, caps=("c0", "c1"), idx=("x#0", "y#1"), groups={"g0": ("p",)}, mand=("p",), have=(), ts=False, hasgroups=1):
        asked = []
        def nvp(s, o, a):
            asked.append(tuple(a)); return None if len(a) < 2 or a[0] is None else ("value|%s" % a[1] if (a[0], a[1]) in have else 0)
        ans = {"getTypeSystemDescription": "TS", "getCapabilites": ("vec",) + caps, "getFSIndexDescriptions": ("vec",) + idx, "getLabel": lambda s, o, a: unq(o),
               "getConfigurationGroupNames": ("vec",) + tuple(sorted(groups)), "getConfigurationParameters": lambda s, o, a: ("vec",) + tuple(groups.get(a[0], ())) if a and a[0] in groups else None,
               "isMandatory": lambda s, o, a: int(o in mand), "getName": lambda s, o, a: o, "getSearchStrategy": "STRAT", "hasGroups": hasgroups, "getNameValuePair": nvp}
        s = Val(prog, g, [], {"iv_pTypeSystemDesc": "TS", "iv_capabilities": ("vec",) + caps, "iv_indexDescs": ("vec",) + idx, "iv_searchStrategy": "STRAT", "iv_enSearchStrategy": "STRAT"}, ans, ("validate",), maxlog=10)
        if ts: s.throws = lambda n, t=s.throws: t(n) or validates(n); s.must = lambda n: validates(n)
        out = s.go(); c.count("scenarios")
        w = None
        for thr, r, lg, env in out:
            if thr != want: w = "is %s" % ("refused" if thr else "accepted")
            elif not thr and ("validate", "TS") not in lg: w = "is accepted without a look at its type system"
        for a in asked:
            ok = len(a) >= 3 and a[2] == "STRAT" and (len(a) < 4 or a[3] is None or a[3] in ('""', "empty|UnicodeString"))
            if not ok and not w: w = "looks up a mandatory parameter with %s, not with group, name and search strategy" % (a,)
        if s.outside and not w: w = "reads %s outside its vector" % s.outside[0]
        c.judge(bool(out) and w is None, "meta|" + key, "%s: %s: a description with %s %s" % (f.loc(), f.q, text, w), "meta " + key)
    full = {("g0", "p")}
    case("plain", "everything in order", False, have=full)
    case("empty", "nothing in it", False, caps=(), idx=(), groups={})
    case("types", "an invalid type system", True, have=full, ts=True)
    for i, cs in enumerate([(0,), ("c0", 0), (0, "c1"), ("c0", 0, "c2")]): case("cap%d" % i, "a missing capability", True, caps=cs, have=full)
    for i, cs in enumerate([(0,), ("x#0", 0), (0, "x#1"), ("x#0", 0, "y#2")]): case("idx%d" % i, "a missing index description", True, idx=cs, have=full)
    for l in LISTS: case("labels" + ".".join(l), "index labels (%s)" % ", ".join(l), len(set(l)) != len(l), idx=tok(l), have=full)
    G = {"g0": ("p", "q", "r"), "g1": ("q", "s"), "g2": ("s",)}
    every = [(a, b) for a in sorted(G) for b in G[a]]
    for hg in (0, 1):
        case("all%d" % hg, "mandatory parameters that all have a value", False, groups=G, mand=("p", "q", "r", "s"), have=every, hasgroups=hg)
        case("none%d" % hg, "optional parameters without values", False, groups=G, mand=(), have=(), hasgroups=hg)
        for a, b in every:
            case("miss%d%s%s" % (hg, a, b), "no value for the mandatory parameter %s of group %s" % (b, a), True, groups=G, mand=(b,), have=[e for e in every if e != (a, b)], hasgroups=hg)
            case("opt%d%s%s" % (hg, a, b), "no value for the optional parameter %s of group %s" % (b, a), False, groups=G, mand=tuple({"p", "q", "r", "s"} - {b}), have=[e for e in every if e[1] != b], hasgroups=hg)

def engine(prog, c):
    """an aggregate validates every delegate, merges their type systems into its own and then validates itself"""
    q = "uima::AnalysisEngineDescription"
    f = one(prog, q + "::validate")
    g = graph(prog, c, f, own=("getDelegates", "getAnalysisEngineMetaData", "getTypeSystemDescription", "getXmlFileLocation"))
    def meta(s, o, a): return "MD(%s)" % ("this" if o in (None, "this") else o)
    def ts(s, o, a): return "TS(%s)" % (o,)
    for n in (0, 1, 2, 3):
        dm = ("map", "D", tuple("k%d" % i for i in range(n)))
        for bad in [None] + list(range(n)) + ["self", "merge"]:
            if bad == "merge" and not n: continue
            ans = {"getDelegates": dm, "getAnalysisEngineMetaData": meta, "getTypeSystemDescription": ts, "getTypeDescriptions": lambda s, o, a: "TD(%s)" % (o,)}
            s = Val(prog, g, [], {"iv_pAeMetaData": "MD(this)", "iv_delegateSpecs": dm}, ans, ("validate", "mergeTypeDescriptions", "addContext"), maxlog=40)
            base = s.throws
            def hit(nd, s=s, bad=bad):
                if nd.k != "call" or nd.ev[0] is None: return False
                if last(nd.ev[0]) == "mergeTypeDescriptions": return bad == "merge"
                if last(nd.ev[0]) != "validate": return False
                md = nd.ev[0].startswith("uima::AnalysisEngineMetaData")
                return md if bad == "self" else (not md and isinstance(bad, int))
            s.throws = lambda nd, base=base, hit=hit: base(nd) or hit(nd)
            s.must = lambda nd, hit=hit, bad=bad: hit(nd) and not isinstance(bad, int)
            out = s.go(); c.count("scenarios")
            w = None; D = ["v|D|k%d" % i for i in range(n)]
            full = 0
            for thr, r, lg, env in out:
                dv = [e[1] for e in lg if e[0] == "validate" and e[1] in D]; mg = [(e[1], e[2]) for e in lg if e[0] == "mergeTypeDescriptions"]; mv = [i for i, e in enumerate(lg) if e[:2] == ("validate", "MD(this)")]
                if not thr:
                    full += 1
                    if bad is not None and not isinstance(bad, int): w = "is accepted although its %s is refused" % ("own description" if bad == "self" else "merging the type systems")
                    elif sorted(dv) != D: w = "is accepted after a look at only %d of its %d delegates" % (len(set(dv)), n)
                    elif sorted(mg) != sorted(("TS(MD(this))", "TD(TS(MD(%s)))" % x) for x in D): w = "is accepted without merging every delegate's type system into its own"
                    elif len(mv) != 1: w = "is accepted without validating its own description"
                    elif any(e[0] == "mergeTypeDescriptions" for e in lg[mv[0]:]): w = "validates its type system before the merge is complete"
                    elif isinstance(bad, int) and any(e[0] == "addContext" for e in lg): w = "is accepted although a delegate is refused"
            if not w and bad is not None and not any(t for t, r, l, e in out): w = "does not report the failure of %s" % bad
            if not w and bad is None and not full: w = "is refused"
            c.judge(bool(out) and w is None, "engine|%d|%s" % (n, bad), "%s: %s: an aggregate of %d delegates%s %s" % (f.loc(), f.q, n, "" if bad is None else " (failure of %s)" % bad, w), "engine %d %s" % (n, bad))

def merging(prog, c):
    """two descriptions of a type become one if they agree and are refused otherwise"""
    q = "uima::TypeSystemDescription"
    f = one(prog, q + "::mergeTypeDescriptions", 1)
    g = graph(prog, c, f, own=("getTypeDescription", "addTypeDescription"))
    def run1(key, text, mine, theirs, want):
        ans = {"getTypeDescription": lambda s, o, a: ("M#" + a[0] if a and a[0] in mine else 0) if a and isinstance(a[0], str) else None,
               "getName": lambda s, o, a: o.split("#")[1] if isinstance(o, str) and "#" in o else None,
               "getSuperTypeName": lambda s, o, a: (mine if o[0] == "M" else theirs)[o.split("#")[1]] if isinstance(o, str) and "#" in o else None,
               "getFeatureDescriptions": lambda s, o, a: "F(%s)" % o, "getAllowedValues": lambda s, o, a: "A(%s)" % o, "addTypeDescription": 0}
        s = Val(prog, g, [("vec",) + tuple("O#" + t for t in theirs)], {}, ans, ("mergeFeatureDescriptions", "mergeAllowedValues", "addTypeDescription"), maxlog=30)
        out = s.go(); c.count("scenarios")
        w = None
        conflict = any(t in mine and mine[t] != theirs[t] for t in theirs)
        exp = set()
        for t in theirs:
            if t in mine: exp |= {("mergeFeatureDescriptions", "M#" + t, "F(O#%s)" % t), ("mergeAllowedValues", "M#" + t, "A(O#%s)" % t)}
            else: exp |= {("addTypeDescription", "this", "new(O#%s)" % t)}
        for thr, r, lg, env in out:
            got = {(e[0], e[1] if e[1] is not None else "this", e[2]) for e in lg}
            if thr != conflict: w = "is %s" % ("refused" if thr else "accepted")
            elif not thr and got != exp: w = "does %s instead of %s" % (sorted(map(str, got - exp))[:2], sorted(map(str, exp - got))[:2])
        c.judge(bool(out) and w is None, "merge|" + key, "%s: %s: merging %s %s" % (f.loc(), f.q, text, w), "merge " + key)
    for key, text, mine, theirs in (("none", "nothing", {"a": "S"}, {}), ("new", "a new type", {}, {"a": "S"}), ("news", "new types", {"z": "S"}, {"a": "S", "b": "S"}), ("same", "the same type", {"a": "S"}, {"a": "S"}),
                                    ("conflict", "a type with another supertype", {"a": "S"}, {"a": "U"}), ("mix", "known and new types", {"a": "S", "b": "U"}, {"a": "S", "c": "S", "b": "U"}),
                                    ("late", "a list whose last type conflicts", {"a": "S", "b": "U"}, {"a": "S", "c": "S", "b": "S"}), ("first", "a list whose first type conflicts", {"a": "S", "b": "U"}, {"b": "S", "a": "S"})):
        run1(key, text, mine, theirs, None)
    t = "uima::TypeDescription"
    for meth, get, add, attr in (("mergeFeatureDescriptions", "getFeatureDescription", "addFeatureDescription", "getRangeTypeName"), ("mergeAllowedValues", "getAllowedValue", "addAllowedValue", None)):
        f = one(prog, t + "::" + meth, 1)
        g = graph(prog, c, f, own=(get, add))
        for mine, theirs in (({}, {}), ({}, {"a": "R"}), ({"a": "R"}, {"a": "R"}), ({"a": "R"}, {"b": "R"}), ({"a": "R", "b": "R"}, {"c": "R", "a": "R", "d": "Q"}), ({"a": "R"}, {"a": "Q"}), ({"a": "R", "b": "R"}, {"a": "R", "b": "Q"}), ({"a": "R", "b": "R"}, {"c": "R", "b": "Q", "d": "R"})):
            if attr is None and any(mine.get(k, v) != v for k, v in theirs.items()): continue
            ans = {get: lambda s, o, a: ("M#" + a[0] if a and a[0] in mine else 0) if a and isinstance(a[0], str) else None, "getName": lambda s, o, a: o.split("#")[1] if isinstance(o, str) and "#" in o else None, add: 0}
            if attr: ans[attr] = lambda s, o, a: (mine if o[0] == "M" else theirs)[o.split("#")[1]] if isinstance(o, str) and "#" in o else None
            s = Val(prog, g, [("vec",) + tuple("O#" + k for k in theirs)], {}, ans, (add,), maxlog=30)
            clash = [k for k in theirs if k in mine and mine[k] != theirs[k]]
            # adding a name that is there already is what refuses it (checked below)
            out = s.go(); c.count("scenarios")
            exp = {"new(O#%s)" % k for k in theirs if k not in mine or k in clash}
            w = None
            for thr, r, lg, env in out:
                got = {e[2] for e in lg if e[0] == add}
                if thr:
                    if not clash: w = "is refused"
                elif clash and not got & {"new(O#%s)" % k for k in clash}: w = "is accepted although %s is defined differently" % clash[0]
                elif got != exp: w = "adds %s, not %s" % (sorted(map(str, got)), sorted(exp))
            c.judge(bool(out) and w is None, "merge|%s|%s|%s" % (meth, mine, theirs), "%s: %s: merging %s into %s %s" % (f.loc(), f.q, theirs, mine, w), "merge %s" % meth)
        # a name that is taken is refused
        for a in [x for x in prog.byq.get(t + "::" + add, ()) if x.blocks]:
            ga = graph(prog, c, a, own=(get, "isModifiable"))
            for taken in (0, "M#a"):
                s = Val(prog, ga, ["O#a", None], {}, {get: taken, "isModifiable": 1, "getName": "a"}); out = s.go(); c.count("scenarios")
                c.judge(bool(out) and all(x[0] == bool(taken) for x in out), "taken|%s|%s" % (add, bool(taken)), "%s: %s with a name that is %s %s" % (a.loc(), a.q, "taken" if taken else "free", "is not refused" if taken else "is refused"), "taken " + add)
        gg = [x for x in prog.byq.get(t + "::" + get, ()) if x.blocks]
        for a in gg: lookup(prog, c, a, "iv_vecp" + get[3:] + "s")
    a = [x for x in prog.byq.get(q + "::addTypeDescription", ()) if x.blocks]
    for a in a:
        ga = graph(prog, c, a, own=("getTypeDescription", "isModifiable", "mergeTypeDescriptions"))
        for taken in (0, "M#a"):
            s = Val(prog, ga, ["O#a", None], {}, {"getTypeDescription": taken, "isModifiable": 1, "getName": "a"}, ("mergeTypeDescriptions",)); out = s.go(); c.count("scenarios")
            want = {(("mergeTypeDescriptions", "this", ("vec", "O#a")),)} if taken else {()}
            got = {tuple((e[0], e[1] if e[1] is not None else "this", e[2]) for e in x[2]) for x in out if not x[0]}
            c.judge(bool(out) and got == want, "known|%s" % bool(taken), "%s: %s of a type that is %s leads to %s" % (a.loc(), a.q, "known" if taken else "new", got), "known type")
    for a in [x for x in prog.byq.get(q + "::getTypeDescription", ()) if x.blocks]: lookup(prog, c, a, "iv_vecpTypeDescriptions")

def lookup(prog, c, f, field):
    """finds exactly the entry of that name"""
    g = graph(prog, c, f, own=("getName",))
    for l in LISTS[:4]:
        for want in ("a", "b", "c", "z"):
            vec = ("vec",) + tok(l)
            s = Val(prog, g, [want], {field: vec}, {"getName": lambda s, o, a: unq(o)}); out = s.go(); c.count("scenarios")
            exp = "%s#%d" % (want, l.index(want)) if want in l else 0
            w = [x[1] for x in out if x[0] or x[1] != exp]
            if s.outside: w = s.outside
            c.judge(bool(out) and not w, "find|%s|%s|%s" % (f.name, ".".join(l), want), "%s: %s(%s) among (%s) gives %s, not %s" % (f.loc(), f.q, want, ", ".join(l), w[:1], exp), "find " + f.name)

def made(prog, c):
    """whoever reads a descriptor and makes an engine of it validates and commits it in between"""
    n = 0
    for f in sorted(prog.fns.values(), key=lambda f: f.u):
        if not f.blocks or not f.file.startswith("src/") or "/test/" in f.file: continue
        if not any(x.get("k") == "ctor" and x.get("cls") == "uima::AnnotatorContext" for x in f.nodes): continue
        g = Graph(prog, f, inline=lambda t, fr: False, depth=1)
        parse = [x for x in g.nodes if x.k == "call" and x.ev[0] and last(x.ev[0]) in ("parseAnalysisEngineDescription", "buildTaeFromMemory", "buildTaeFromFile")]
        if not parse: continue
        n += 1; c.fn(f)
        # forward: the set of (validated, committed) states that reach each node
        start = (0,); seen = {(id(g.entry), start)}
        work = [(g.entry, start)]; bad = None
        while work:
            nd, st = work.pop()
            if nd.k == "call" and nd.ev[0]:
                m = last(nd.ev[0]); cls = nd.ev[0]
                if nd in parse: st = (1,)
                elif cls == "uima::AnalysisEngineDescription::validate" and st[0] in (1,): st = (2,)
                elif cls.endswith("::commit") and cls.startswith("uima::") and ("AnalysisEngineDescription" in cls or "MetaDataObject" in cls): st = (3,) if st[0] == 2 else st
            made = (nd.k == "call" and nd.ev[0] and last(nd.ev[0]) == "createCASDefinition") or (nd.k == "new" and "AnnotatorContext" in str(nd.ev[1]))
            if made and st[0] != 3 and not bad: bad = "line %s: made from a description that is %s" % (nd.line if hasattr(nd, "line") else "", ("not read", "not validated", "not committed")[st[0]])
            for t, lab in nd.succ:
                k = (id(t), st)
                if k not in seen: seen.add(k); work.append((t, st))
        c.judge(bad is None, "made|" + f.u, "%s: %s: the engine is %s" % (f.loc(), f.q, bad), "made " + f.q)
    c.count("makers", n)

def run(prog, c):
    c.rule("C31: validate() and the merge functions interpreted over descriptions with and without each inconsistency: refused exactly when inconsistent; every path from reading a descriptor to an engine validates, then commits")
    c.floor("scenarios", 150); c.floor("makers", 1)
    typesystem(prog, c); typedesc(prog, c); metadata(prog, c); engine(prog, c); merging(prog, c); made(prog, c)
    c.ok()

if __name__ == "__main__": check.main("C31", run)
