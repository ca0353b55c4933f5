"""C07: the type system stays one consistent tree with inherited, uniquely numbered features."""
from .common import *
from sa.loops import *
from sa.flow import Flow, entails_le, ul
from sa.absint import AI
from .c09 import calls, last, values

T = "uima::lowlevel::TypeSystem"
FINAL = {"gs_tyIntegerType", "gs_tyFloatType", "gs_tyStringType", "gs_tyBooleanType", "gs_tyByteType", "gs_tyShortType", "gs_tyLongType", "gs_tyDoubleType",
         "gs_tyArrayBaseType", "gs_tyFSArrayType", "gs_tyFloatArrayType", "gs_tyIntArrayType", "gs_tyStringArrayType", "gs_tyBooleanArrayType", "gs_tyByteArrayType",
         "gs_tyShortArrayType", "gs_tyLongArrayType", "gs_tyDoubleArrayType"}
PERTYPE = ("iv_vecTree", "iv_vecParents", "iv_vecIntroducedFeatures", "iv_vecTypeNames", "iv_vecTypeCreatorIDs")
PERFEAT = ("iv_vecFeatureBaseNames", "iv_vecRangeTypes", "iv_vecMultiRefs", "iv_vecFeatureCreatorIDs")

def F(n): return ("f", ("this",), T + "::" + n)
def own(t, fr): return t.cls == T and t.d.get("kind") == "method"
def idx(a, b): return ("idx", a, b)
def sized(v): return lambda f: f is not None and f[0] == "call" and last(f[1]) == "size" and f[2] == v

def wr(n):
    """(location, operator, value) of a store, through operator= as well"""
    if n.k == "set" and n.ev[0] is not None: return n.ev
    if n.k == "call" and n.ev[0] and last(n.ev[0]) == "operator=" and n.ev[2] is not None and len(n.ev[3]) == 1: return (n.ev[2], "=", n.ev[3][0])
    return None

def run(prog, c):
    c.rule("creating a type grows every per-type table by one and fills the new slot (parent, child list of the parent, name, creator); creating a feature appends once to every per-feature table; both return the new index (abstract table sizes along every path)")
    c.rule("creation is reached only when the name is known to be absent, and after the built-in types only under a parent that is not final; exactly the primitives, arrays and string subtypes are final")
    c.rule("the tables are written by the creation functions only, and nothing is created after the commit")
    c.rule("subsumption climbs the parent chain and answers true only for equal types or the top; the closure and common-supertype queries follow the tree")
    c.rule("commit: every child inherits all features and the feature count of its parent before its own features get the next offsets; computed before the committed flag")
    c.rule("type priorities: a pair is kept only when the graph stays acyclic, and the result says so; the sort removes only nodes without predecessor")
    c.rule("merging a description visits every type and feature; conflicts of parent, range and allowed strings throw; supertype chains are proven to end before they are followed")
    tables(prog, c); uniqueness(prog, c); finality(prog, c); writers(prog, c); order(prog, c); queries(prog, c); approp(prog, c); priorities(prog, c); merging(prog, c)
    c.floor("creations", 2); c.floor("types_classified", 20)

# ---------------------------------------------------------------- table growth

class Sizes:
    """abstract values: ('S', k) = old size of the table family + k, ('P', i) = parameter, None unknown"""
    def __init__(self, fams): self.fams = fams
    def cmp(self, op, a, b): return None
    def leaf(self, f):
        if f[0] == "param": return ("P", f[1])
        return None
    def op(self, o, vs):
        if len(vs) == 2 and isinstance(vs[0], tuple) and vs[0][0] == "S" and isinstance(vs[1], int) and o in ("+", "-", "u-"): return ("S", vs[0][1] + (vs[1] if o == "+" else -vs[1]))
        if len(vs) == 2 and isinstance(vs[1], tuple) and vs[1][0] == "S" and isinstance(vs[0], int) and o == "+": return ("S", vs[1][1] + vs[0])
        return None
    def call(self, f, args, rec): return None

def interp(prog, f, fam, extra=()):
    """final (env, kind) of every path; env: ('size', table) -> abstract size; ('elem', table, index) -> value"""
    g = Graph(prog, f, inline=lambda t, fr: own(t, fr) and t.name not in ("getFeatureByBaseName", "getTypeByName", "getTypeName", "createTypeNoChecks") and len(t.blocks) < 14 and not t.name.startswith(("isAllowed", "debug")), depth=3, raw=True)
    o = Sizes(fam)
    fam = {F(n): n for n in tuple(fam) + ("iv_vecIntroducedFeatures", "iv_vecTree")}
    init = {}
    for ff in fam:
        init[("size", ff)] = ("S", 0)
    ai = AI(g, o, init)
    def sz(env, ff): return env.get(("size", ff))
    base = ai.val
    def val(fm, env):
        if fm is not None and fm[0] == "call" and last(fm[1]) in ("size", "length") and fm[2] in fam: return sz(env, fm[2])
        if fm is not None and fm[0] in ("ctor",) and len(fm[2]) == 1: return val(fm[2][0], env)
        return base(fm, env)
    ai.val = val
    def visit(n, env):
        w = wr(n)
        if w is not None and w[0][0] == "idx" and w[0][1] in fam:
            i = val(w[0][2], env); env = dict(env)
            env[("elem", w[0][1], i)] = val(w[2], env) if w[1] == "=" else None
            if n.k == "set": return env
            return env
        if n.k == "call" and n.ev[2] is not None:
            m = last(n.ev[0] or "")
            tgt = n.ev[2]
            if tgt[0] == "var" and env.get(("alias", tgt)) is not None: tgt = env[("alias", tgt)]
            if tgt in fam:
                env = dict(env)
                s = env.get(("size", tgt))
                if m == "resize": env[("size", tgt)] = val(n.ev[3][0], env)
                elif m in ("push_back", "emplace_back"):
                    env[("elem", tgt, s)] = val(n.ev[3][0], env) if n.ev[3] else ("new",)
                    env[("size", tgt)] = ("S", s[1] + 1) if isinstance(s, tuple) else None
                elif m in ("clear", "pop_back", "erase", "insert", "swap", "assign"): env[("size", tgt)] = None
                return env
            if tgt[0] == "idx" and tgt[1] in fam and m in ("push_back", "emplace_back") and n.ev[3]:
                env = dict(env); env[("push", tgt[1], val(tgt[2], env))] = env.get(("push", tgt[1], val(tgt[2], env)), ()) + (val(n.ev[3][0], env),)
                return env
        return None
    return g, ai.run(visit)

def tables(prog, c):
    for q, fam, npar in ((T + "::createTypeNoChecks", PERTYPE, 3), (T + "::createFeature", PERFEAT, 5)):
        f = prog.fn(q, nparams=npar); c.fn(f)
        g, outs = interp(prog, f, fam)
        done = [(n, e) for n, e in outs if n.k == "exit"]
        if not done: raise AnalysisBroken("%s has no normal path" % q)
        c.count("creations")
        P = {p["n"]: i for i, p in enumerate(f.params)}
        for n, e in done:
            for t in fam:
                c.judge(e.get(("size", F(t))) == ("S", 1), "grow|%s|%s" % (f.name, t), "%s: %s does not grow %s by exactly one: the tables get out of step" % (f.loc(), f.q, t), "%s grows %s" % (f.name, t))
            c.judge(e.get(("result",)) == ("S", 0), "id|" + f.name, "%s: %s does not return the index of the new entry" % (f.loc(), f.q), "%s returns the new index" % f.name)
            new = ("S", 0)
            if fam is PERTYPE: want = (("iv_vecParents", 0), ("iv_vecTypeNames", 1), ("iv_vecTypeCreatorIDs", 2))
            else: want = (("iv_vecRangeTypes", 1), ("iv_vecMultiRefs", 2), ("iv_vecFeatureBaseNames", 3), ("iv_vecFeatureCreatorIDs", 4))
            for t, p in want:
                c.judge(e.get(("elem", F(t), new)) == ("P", p), "fill|%s|%s" % (f.name, t), "%s: %s does not enter %s into %s at the new index" % (f.loc(), f.q, f.params[p]["n"], t), "%s fills %s" % (f.name, t))
                bad = [k for k in e if k[0] == "elem" and k[1] == F(t) and k[2] != new]
                c.judge(not bad, "clobber|%s|%s" % (f.name, t), "%s: %s overwrites another entry of %s" % (f.loc(), f.q, t))
            tab = "iv_vecTree" if fam is PERTYPE else "iv_vecIntroducedFeatures"
            pushes = {k[2]: v for k, v in e.items() if k[0] == "push" and k[1] == F(tab)}
            c.judge(pushes == {("P", 0): (new,)}, "link|" + f.name, "%s: %s does not append the new entry exactly once to %s of its %s" % (f.loc(), f.q, tab, f.params[0]["n"]), "%s links the new entry" % f.name)
    # string subtypes
    f = prog.fn(T + "::createStringSubtype"); c.fn(f)
    fl = Flow(prog, f, inline=lambda t, fr: False)
    st = F("iv_stringSubtypeToStringSet")
    done = False
    for n, s, v in fl.rets():
        ok = v is not None and v[0] == "call" and v[1] == T + "::createTypeNoChecks" and v[3][1:] == (("param", 0, f.params[0]["n"]), ("param", 2, f.params[2]["n"])) and isstring(prog, v[3][0])
        c.judge(ok, "strsub|ret", "%s: the string subtype is not created under the string type with the given name" % n.loc(), "string subtype created under uima.cas.String")
        done = True
    sets = [(n, s, loc, v) for n, s, loc, v in fl.stores() if loc[0] == "idx" and loc[1] == st]
    pushes = [n for n in fl.g.nodes if n.k == "call" and n.i in fl.at and n.ev[2] == F("iv_enumStrings") and last(n.ev[0]) in ("push_back", "emplace_back")]
    L = Loops(fl.g)
    # the value stored, in terms of the number of string sets before the append: locals hold (that number + k)
    gr = Graph(prog, f, raw=True); vals = []
    def size0(fm, env, pushed):
        d, k = lin(ul(fm), prog)
        if len(d) != 1 or set(d.values()) != {1}: return None
        x = list(d)[0]
        if sized(F("iv_enumStrings"))(x): return pushed + k
        return env[x] + k if x in env else None
    def step(n, facts, us):
        pushed, env = us
        if n.k == "call" and n.ev[2] == F("iv_enumStrings") and last(n.ev[0]) in ("push_back", "emplace_back"): return [(facts, (pushed + 1, env))] if pushed < 3 else []
        if n.k == "set" and n.ev[0] is not None and n.ev[0][0] in ("var", "ret"):
            e = dict(env); k = size0(n.ev[2], e, pushed) if n.ev[2] is not None and n.ev[1] == "=" else None
            e.pop(n.ev[0], None)
            if k is not None: e[n.ev[0]] = k
            return [(facts, (pushed, frozenset(e.items())))]
        w = wr(n)
        if w is not None and w[0] is not None and w[0][0] == "idx" and w[0][1] == st: vals.append(size0(w[2], dict(env), pushed) if w[2] is not None else None)
        return [(facts, us)]
    explore(gr, ustate=(0, frozenset()), step=step)
    ok = bool(sets) and len(pushes) >= 1 and bool(vals) and set(vals) == {0}
    for n, s, loc, v in sets: ok = ok and loc[2][0] == "call" and loc[2][1] == T + "::createTypeNoChecks"
    ok = ok and not L.path([fl.g.entry.i], [fl.g.exit.i], [n.i for n, *x in sets]) and not L.path([fl.g.entry.i], [fl.g.exit.i], [p.i for p in pushes])
    for p in pushes:
        ok = ok and p.ev[3] and p.ev[3][0][0] == "param" and p.ev[3][0][1] == 1
    c.judge(ok, "strsub|set", "%s: the allowed strings are not stored under the new subtype at the position they were appended at" % f.loc(), "allowed strings stored with the subtype")

def isstring(prog, v):
    if num(prog, v) == typeconst(prog, "gs_tyStringType"): return True
    return v is not None and v[0] == "call" and last(v[1]) == "getTypeByName" and v[3] and any(y[0] == "g" and y[1].endswith("TYPE_NAME_STRING") for y in subforms(v[3][0]))

# ---------------------------------------------------------------- uniqueness

def absent(prog, facts, tab, namep, lookups):
    """facts say that the name is not in the table"""
    for x in facts:
        for fm in fact_forms(x):
            for y in subforms(fm):
                if y[0] != "call": continue
                m = last(y[1])
                if m == "find" and y[1].startswith("std::") and len(y[3]) == 3 and y[3][2] == namep and y[3][0] is not None and y[3][1] is not None and y[3][0][0] == "call" and last(y[3][0][1]) in ("begin", "cbegin") and y[3][0][2] == tab \
                   and y[3][1][0] == "call" and last(y[3][1][1]) in ("end", "cend") and y[3][1][2] == tab:
                    ends = [z for z in fact_forms(x) if z != y and z[0] == "call" and last(z[1]) in ("end", "cend") and z[2] == tab]
                    if x[0] == "eq" and ends and x[2] == 0: return True
                if y[1] in lookups and y[3] and y[3][-1] == namep and lookups[y[1]](y):
                    if x[0] == "nb" and x[1] == y: return True
                    at = atom(("cmp", "==", y, ("g", T + "::INVALID_FEATURE")), prog)
                    for inv in ("INVALID_FEATURE", "INVALID_TYPE"):
                        at = atom(("cmp", "==", y, ("g", T + "::" + inv)), prog)
                        if at is not None and holds(facts, at[0], at[1]) is True: return True
                if m == "findIndex" and y[3] == (tab, namep):
                    at = atom(("cmp", "<", y, ("int", 1)), prog)
                    if holds(facts, at[0], at[1]) is True: return True
                if m == "count" and y[1].startswith("std::") and y[3] and y[3][-1] == namep and x == ("nb", y): return True
    return False

def uniqueness(prog, c):
    f = prog.fn(T + "::createTypeNoChecks"); names = F("iv_vecTypeNames")
    g = Graph(prog, f, inline=lambda t, fr: own(t, fr) and t.name not in ("getTypeByName", "getTypeName", "getFeatureByBaseName"), depth=2); r = explore(g)
    np = ("param", 1, f.params[1]["n"])
    cnt = 0
    for n in g.nodes:
        if n.k == "call" and n.ev[2] == names and last(n.ev[0]) in ("resize", "push_back", "emplace_back") and n.i in r.at:
            cnt += 1
            for facts, us in r.at[n.i]:
                c.judge(absent(prog, facts, names, np, {T + "::getTypeByName": lambda y: True}), "uniq|type", "%s: a type can be created although its name exists already: names stop identifying types" % n.loc(), "type created only when its name is new")
    if not cnt: raise AnalysisBroken("growth of the type name table not found")
    f = prog.fn(T + "::createFeature", nparams=5); names = F("iv_vecFeatureBaseNames")
    g = Graph(prog, f, inline=lambda t, fr: own(t, fr) and t.name not in ("getTypeByName", "getTypeName", "getFeatureByBaseName", "isAllowedToCreateFeatures"), depth=2); r = explore(g)
    np = ("param", 3, f.params[3]["n"]); tp = ("param", 0, f.params[0]["n"])
    cnt = 0
    for n in g.nodes:
        if n.k == "call" and n.ev[2] == names and last(n.ev[0]) in ("resize", "push_back", "emplace_back") and n.i in r.at:
            cnt += 1
            for facts, us in r.at[n.i]:
                c.judge(absent(prog, facts, names, np, {T + "::getFeatureByBaseName": lambda y: y[3][0] == tp}), "uniq|feature", "%s: a feature can be created although the type has or inherits one of that name" % n.loc(), "feature created only when type and supertypes have no such name")
            # the subtypes must not have the name either
            L = Loops(g)
            below = [m.i for m in g.nodes if m.k == "call" and m.i in L.live and last(m.ev[0] or "") in ("getSubsumedTypes", "getDirectSubTypes") and m.ev[3] and m.ev[3][0] == tp]
            c.judge(bool(below) and L.dom(n.i, below), "uniq|subtypes", "%s: a feature can be created although a subtype introduced one of the same name: that subtype then has two features with one name" % n.loc(), "feature name is new to the subtypes")
    if not cnt: raise AnalysisBroken("growth of the feature name table not found")
    # the lookup itself: every introduced feature of the type and of each supertype up to the top
    f = prog.fn(T + "::getFeatureByBaseName", sig="unsigned int"); c.fn(f)
    fl = Flow(prog, f, inline=lambda t, fr: own(t, fr) and t.name in ("isValidType",))
    g = fl.g; p0 = ("param", 0, f.params[0]["n"]); nm_ = ("param", 1, f.params[1]["n"])
    def cur(v, intro=None):
        """v denotes the type being climbed"""
        if v == p0: return True
        if v[0] == "phi":
            ph = fl.phi.get((v[1], v[2]))
            return ph is not None and all(x == p0 or x[0] == "phi" and x != v and cur(x) for x in ph[0]) and all(isparent(x, v) for x in ph[1])
        return False
    def isparent(x, v): return x == ("call", T + "::getParentType", ("this",), (v,)) or x == idx(F("iv_vecParents"), v) or (x[0] == "phi" and x != v and (v[0] == "phi") and False)
    n0 = 0
    for n, s, v in fl.rets():
        n0 += 1
        if num(prog, v) == 0:
            top = any(x[0] == "eq" and len(x[1]) == 2 and x[2] == 0 and any(y[0] == F("iv_tyTop") for y in x[1]) and any(cur(y[0]) for y in x[1] if y[0] != F("iv_tyTop")) for x in s[0])
            bad = not entails_valid(s[0], p0)
            c.judge(top or bad, "find|none", "%s: getFeatureByBaseName gives up before it has searched the type and all its supertypes" % n.loc(), "a feature is reported missing only at the top")
        else:
            ok = v[0] == "idx" and v[1][0] == "idx" and v[1][1] == F("iv_vecIntroducedFeatures") and cur(v[1][2]) and holds_eq(s[0], idx(F("iv_vecFeatureBaseNames"), v), nm_, prog)
            c.judge(ok, "find|hit", "%s: getFeatureByBaseName returns %s without knowing that its name is the one asked for" % (n.loc(), show(v)), "a feature is returned only when its base name matches")
    g2 = Graph(prog, f); L = Loops(g2)
    full = [(lp, it) for lp in L.loops.values() for it in [L.iteration(lp)] if it is not None and it.cont is not None and it.cont[0] == "idx" and it.cont[1] == F("iv_vecIntroducedFeatures")]
    okl = bool(full)
    for lp, it in full:
        early = [x for x in it.early if not all(m.k == "ret" or True for m in [x[1]])]
        okl = okl and it.kind in ("it", "ix") and it.starts and it.steps
        # climbing happens only after the whole list
        climbs = [n.i for n in g2.nodes if n.k == "set" and n.i in L.live and n.ev[2] is not None and n.ev[2][0] in ("call", "idx") and (last(n.ev[2][1]) == "getParentType" if n.ev[2][0] == "call" else n.ev[2][1] == F("iv_vecParents"))]
        for n, t, l, cc in it.early: okl = okl and not L.path([t.i], climbs)
        okl = okl and bool(climbs) and all(L.dom(x, [lp.head]) for x in climbs)
    c.judge(okl, "find|all", "%s: getFeatureByBaseName does not look at every feature introduced at the type before it climbs to the parent" % f.loc(), "every introduced feature is compared")

def entails_valid(facts, p):
    """facts do not exclude that p is a valid type"""
    for x in facts:
        if x[0] == "le" and len(x[1]) == 1 and x[1][0][0] == p and x[1][0][1] > 0 and x[2] <= 0: return False
        if x[0] == "nb" and x[1] == p: return False
        if x[0] == "nb" and contains(x[1], p): return False
        if x[0] == "le" and any(y == p and k < 0 for y, k in x[1]) and any(y[0] == "call" and last(y[1]) == "size" and k > 0 for y, k in x[1]) and x[2] <= 0: return False
    return True

# ---------------------------------------------------------------- finality

def finality(prog, c):
    sts = F("iv_stringSubtypeToStringSet")
    class O:
        def __init__(self, strsub): self.s = strsub
        def cmp(self, op, a, b):
            if {a, b} == {"found", "end"}: return op == "!="
            if a == b == "end": return op == "=="
            if isinstance(a, int) != isinstance(b, int) and op in ("==", "!="): return op == "!="   # a string subtype is no built-in
            return None
        def leaf(self, f):
            if f[0] == "enum": return f[2]
            if f == F("iv_tyTop"): return 1
            if f[0] == "g": return prog.gcv.get(f[1])
            return None
        def call(self, f, args, rec):
            m = last(f[1])
            if f[2] == sts and m == "find": return "found" if self.s else "end"
            if f[2] == sts and m == "count": return 1 if self.s else 0
            if f[2] == sts and m in ("end", "cend"): return "end"
            if m == "isStringSubType": return 1 if self.s else 0
            return None
        def truth(self, v): return None
    codes = {k.rsplit("::", 1)[-1]: v for k, v in prog.gcv.items() if k.startswith("uima::internal::gs_ty") and k.endswith("Type") and isinstance(v, int)}
    need = FINAL | {"gs_tyTopType"}
    miss = FINAL - set(codes)
    if miss: raise AnalysisBroken("built-in type codes: %s" % sorted(miss))
    codes.setdefault("TOP", 1)
    for fname, topok in (("isAllowedToAddSubTypes", True), ("isAllowedToCreateFeatures", False)):
        f = prog.fn(T + "::" + fname); c.fn(f)
        for nm_, code in sorted(codes.items()) + [("a string subtype", None)]:
            g = Graph(prog, f, inline=own, depth=4, raw=True, bind={f.params[0]["id"]: ("int", code) if code is not None else ("param", 0, f.params[0]["n"])})
            ai = AI(g, O(code is None), {("param", 0, f.params[0]["n"]): "strsub"} if code is None else {})
            res = {e.get(("result",)) for n, e in ai.run() if n.k == "exit"}
            res = {None if v is None else bool(v) for v in res}
            want = not (nm_ in FINAL or code is None or (code == 1 and not topok))
            c.count("types_classified")
            c.judge(res == {want}, "final|%s|%s" % (fname, nm_), "%s: %s(%s) is %s, it must be %s" % (f.loc(), fname, nm_, sorted(map(str, res)), want), "%s(%s) = %s" % (fname, nm_, want))
    built = F("iv_bBuiltinTypesCreated")
    for q, npar, gate, tgt in ((T + "::createType", 3, "isAllowedToAddSubTypes", lambda n: n.ev[0] == T + "::createTypeNoChecks"), (T + "::createFeature", 5, "isAllowedToCreateFeatures", lambda n: n.ev[2] == F("iv_vecFeatureBaseNames") and last(n.ev[0]) in ("push_back", "emplace_back", "resize"))):
        f = prog.fn(q, nparams=npar)
        g = Graph(prog, f, inline=lambda t, fr: own(t, fr) and t.name not in (gate, "createTypeNoChecks", "getFeatureByBaseName"), depth=3); r = explore(g)
        gc = lambda fm: iscall(fm, T + "::" + gate) and fm[3] == (("param", 0, f.params[0]["n"]),)
        hit = [n for n in g.nodes if n.k == "call" and n.ev[0] and tgt(n) and n.i in r.at]
        if not hit: raise AnalysisBroken("creation in %s not found" % q)
        for n in hit:
            for facts, us in r.at[n.i]:
                c.judge(has_b(facts, lambda fm: fm == built, False) or has_b(facts, gc), "gate|" + f.name, "%s: %s creates below a type that may be final" % (n.loc(), f.q), "%s only under a type that is not final" % f.name)
    # creation without checks: its callers
    okc = 0
    for x, i in prog.callers().get(prog.fn(T + "::createTypeNoChecks").u, []):
        okc += 1
        c.judge(x.q in (T + "::createType", T + "::createStringSubtype") or "Deserializer" in (x.cls or "") or x.cls == T and x.name.startswith("createPredefined"), "nochecks|" + x.q, "%s: %s creates types without the finality check" % (x.loc(i), x.q), "%s may create types unchecked" % x.q)
    # the built-in flag
    f = prog.fn(T + "::createPredefinedCASTypes"); c.fn(f); g = Graph(prog, f); L = Loops(g)
    on = [n.i for n in g.nodes if n.k == "set" and n.ev[0] == built and num(prog, n.ev[2]) == 1 and n.i in L.live]
    mk = [n.i for n in g.nodes if n.k == "call" and n.i in L.live and n.ev[0] in (T + "::createType", T + "::createFeature")]
    c.judge(bool(on) and not L.path([g.entry.i], [g.exit.i], on) and not any(L.path(L.succs(o), mk) for o in on), "builtin|flag", "%s: the built-in types are not marked complete after the last of them" % f.loc(), "built-in phase ends after the built-in types")
    for x in prog.fns.values():
        if not x.blocks: continue
        for i, n in enumerate(x.nodes):
            if n["k"] == "asg" and n["op"] == "=":
                l = x.nodes[x.strip(n["a"][0])]
                if l["k"] == "mem" and l.get("f") == built[2]:
                    v = num(prog, Frame(x, {}, ("this",), 0, tag=()).form(n["a"][1]))
                    c.judge(v == 1 or x.q == T + "::reset" or x.d.get("kind") == "ctor", "builtin|off|" + x.q, "%s: %s turns the finality checks off" % (x.loc(i), x.q))
    loops = [L.iteration(lp) for lp in L.loops.values()]
    c.judge(len(mk) >= 2 and not L.path([g.entry.i], [g.exit.i], [x for x in L.loops]), "builtin|all", "%s: built-in types or features are left out" % f.loc())

# ---------------------------------------------------------------- writers

def writers(prog, c):
    allowed = {"createTypeNoChecks", "createFeature", "createPredefinedCASTypes", "createStringSubtype", "reset"}
    derived = {"iv_vecFeatureNumber", "iv_vecFeatureOffset", "iv_vecApprop", "iv_vecTypeFeatureOffsetMapping", "iv_mapTypePriority", "iv_typePriorityList"}
    der_ok = {"commit", "computeApprop", "computeTypeFeatureOffsetMapping", "computeTypePriorityClosure", "addTypePriority", "combineUserDefinedPrioritiesWithSiblingPriority", "reset", "createPredefinedCASTypes"}
    from .c06 import mutated
    m = mutated(prog).get(T, {})
    # helpers called by the allowed functions only count as part of them
    def helper(x, ok, d=4):
        if x.name in ok: return True
        cs = prog.callers().get(x.u, [])
        return d > 0 and x.cls == T and bool(cs) and all(helper(y, ok, d - 1) for y, i in cs)
    for t in PERTYPE + PERFEAT + ("iv_enumStrings", "iv_stringSubtypeToStringSet"):
        if t not in m: raise AnalysisBroken("table %s is written nowhere" % t)
        for x, n in m[t]:
            if x.d.get("kind") in ("ctor", "dtor"): continue
            c.judge(x.cls == T and helper(x, allowed), "writer|%s|%s" % (t, x.q), "%s: %s changes %s behind the creation functions" % (n.loc(), x.q, t), "%s written by %s" % (t, x.name))
    for t in sorted(derived):
        for x, n in m.get(t, []):
            if x.d.get("kind") in ("ctor", "dtor"): continue
            c.judge(x.cls == T and helper(x, der_ok), "writer|%s|%s" % (t, x.q), "%s: %s changes the committed table %s" % (n.loc(), x.q, t))
    # nothing is created after a commit
    com = {T + "::commit"}; cre = {T + "::createTypeNoChecks", T + "::createFeature", T + "::createStringSubtype", T + "::createType"}
    def closure(seed):
        s = {f.u for f in prog.fns.values() if f.q in seed}
        todo = list(s)
        while todo:
            for x, i in prog.callers().get(todo.pop(), []):
                if x.u not in s: s.add(x.u); todo.append(x.u)
        return s
    C, K = closure(com), closure(cre)
    for u in sorted(C & K):
        x = prog.fns[u]
        if not x.blocks: continue
        g = Graph(prog, x); L = Loops(g)
        def targets(n): return [t for t in (prog.targets(n.ev[1], n.ev[4]) if n.ev[1] else [])]
        cs = [n for n in g.nodes if n.k == "call" and n.i in L.live and any(t.u in C for t in targets(n))]
        ks = [n for n in g.nodes if n.k == "call" and n.i in L.live and any(t.u in K and t.u not in C for t in targets(n))]
        rs = [n.i for n in g.nodes if n.k == "call" and n.i in L.live and n.ev[0] == T + "::reset"]
        c.fn(x)
        for n in cs:
            for k in ks:
                same = n.ev[2] == k.ev[2] or n.ev[2] is None or k.ev[2] is None or contains(n.ev[2], k.ev[2]) or contains(k.ev[2], n.ev[2])
                c.judge(not (same and n is not k and L.path(L.succs(n.i), [k.i], rs + [m.i for m in g.nodes if m.k == "new"])), "late|" + x.q, "%s: %s creates types or features after the type system was committed at %s" % (k.loc(), x.q, n.loc()), "no creation after commit in %s" % x.q)

def order(prog, c):
    f = prog.fn(T + "::commit"); c.fn(f)
    g = Graph(prog, f, inline=lambda t, fr: own(t, fr) and t.name not in ("computeApprop", "computeTypeFeatureOffsetMapping", "computeTypePriorityClosure"), depth=2); L = Loops(g)
    a = [n for n in calls(g, L, lambda n: n.ev[0] == T + "::computeApprop")]; m = calls(g, L, lambda n: n.ev[0] == T + "::computeTypeFeatureOffsetMapping"); p = calls(g, L, lambda n: n.ev[0] == T + "::computeTypePriorityClosure")
    flag = [n for n in g.nodes if n.k == "set" and n.i in L.live and n.ev[0] == F("iv_bIsCommitted") and num(prog, n.ev[2]) == 1]
    for ns, what in ((a, "inherited features"), (m, "the offset table"), (p, "the type priorities")):
        c.judge(bool(ns) and not L.path([g.entry.i], [g.exit.i], [n.i for n in ns]), "commit|" + what, "%s: commit does not compute %s on every path" % (f.loc(), what), "commit computes " + what)
        c.judge(all(L.dom(x.i, [n.i for n in ns]) for x in flag), "commit|early|" + what, "%s: the type system is marked committed before %s are computed" % (f.loc(), what))
    c.judge(all(L.dom(x.i, [n.i for n in a]) for x in m), "commit|order", "%s: the offset table is computed before the features are inherited" % f.loc())
    c.judge(bool(flag) and not L.path([g.entry.i], [g.exit.i], [n.i for n in flag]), "commit|flag", "%s: commit does not mark the type system committed" % f.loc())
    c.judge(all(n.ev[3] and (n.ev[3][0] == F("iv_tyTop") or num(prog, n.ev[3][0]) == 1) for n in a), "commit|top", "%s: inheritance does not start at the top type" % f.loc())
    # start state of the computed tables
    for t, per in (("iv_vecFeatureNumber", PERTYPE), ("iv_vecFeatureOffset", PERFEAT), ("iv_vecApprop", PERTYPE)):
        rs = [n for n in calls(g, L, lambda n: n.ev[2] == F(t) and last(n.ev[0]) in ("resize", "assign"))]
        cl = [n.i for n in calls(g, L, lambda n: n.ev[2] == F(t) and last(n.ev[0]) in ("clear", "assign"))]
        ok = bool(rs) and all(n.ev[3] and any(sized(F(x))(n.ev[3][0]) for x in per) for n in rs) and all(L.dom(n.i, [r.i for r in rs]) for n in a) and all(L.dom(r.i, cl) for r in rs)
        c.judge(ok, "commit|init|" + t, "%s: %s does not start empty with one slot per entry" % (f.loc(), t), "%s starts with one slot per entry" % t)
    rows = False
    for lp in L.loops.values():
        it = L.iteration(lp)
        if it is None or it.cont is None or not it.full(): continue
        rz = [n.i for n in calls(g, L, lambda n: n.i in lp.body and last(n.ev[0]) in ("resize", "assign") and n.ev[2] is not None and (it.iselem(n.ev[2]) or n.ev[2] == idx(F("iv_vecApprop"), it.var)) and n.ev[3] and any(sized(F(x))(n.ev[3][0]) for x in PERFEAT))]
        if rz and not L.cycle_avoids(lp, rz): rows = True
    c.judge(rows, "commit|rows", "%s: the appropriateness table does not get one column per feature in every row" % f.loc(), "appropriateness rows sized")

# ---------------------------------------------------------------- queries

def queries(prog, c):
    f = prog.fn(T + "::subsumes"); c.fn(f)
    fl = Flow(prog, f, inline=lambda t, fr: own(t, fr) and t.u != f.u and t.name in ("isValidType", "getTopType"))
    a = ("param", 0, f.params[0]["n"]); b = ("param", 1, f.params[1]["n"]); top = F("iv_tyTop"); par = lambda x: idx(F("iv_vecParents"), x)
    def cur(v):
        if v == b: return True
        if v[0] == "phi":
            ph = fl.phi.get((v[1], v[2]))
            return ph is not None and all(x == b for x in ph[0]) and all(x == par(v) or iscall(x, T + "::getParentType", (v,)) for x in ph[1])
        return False
    def eqs(F_, x, y, pol=True): return x == y and pol or holds_eq(F_, x, y, prog, pol)
    def climbers(F_):
        out = {b}
        for x in F_:
            for fm in fact_forms(x):
                for y in subforms(fm):
                    if y[0] == "phi" and cur(y): out.add(y)
        return out
    def judge(n, F_, v):
        cs = climbers(F_)
        if v is not None and v[0] == "phi": pass
        if v == ("int", 1):
            ok = any(eqs(F_, a, x) for x in cs) or eqs(F_, a, top)
            c.judge(ok, "subsumes|true", "%s: subsumes answers true although the types differ and the first is not the top" % n.loc(), "true only for equal types or the top"); return
        if v == ("int", 0):
            inval = any(not entails_valid(F_, x) for x in cs)
            attop = any((eqs(F_, top, par(x)) or eqs(F_, top, x)) and (eqs(F_, a, x, False) or eqs(F_, a, b, False) and x == b) and (eqs(F_, a, top, False)) for x in cs)
            c.judge(inval or attop, "subsumes|false", "%s: subsumes answers false before the parent chain is exhausted" % n.loc(), "false only at the end of the chain"); return
        if v is not None and v[0] == "cmp" and v[1] == "==":
            for pol in (True, False):
                F2 = assume(F_, v, pol, prog)
                if F2 is not None: judge(n, F2, ("int", int(pol)))
            return
        if v is not None and v[0] in ("or", "and", "ite"):
            parts = v[1:3] if v[0] != "ite" else v[1:4]
            if v[0] == "or":
                F1 = assume(F_, v[1], True, prog)
                if F1 is not None: judge(n, F1, ("int", 1))
                F2 = assume(F_, v[1], False, prog)
                if F2 is not None: judge(n, F2, v[2])
            elif v[0] == "and":
                F1 = assume(F_, v[1], False, prog)
                if F1 is not None: judge(n, F1, ("int", 0))
                F2 = assume(F_, v[1], True, prog)
                if F2 is not None: judge(n, F2, v[2])
            else:
                for pol, w in ((True, v[2]), (False, v[3])):
                    F2 = assume(F_, v[1], pol, prog)
                    if F2 is not None: judge(n, F2, w)
            return
        ok = iscall(v, f.q) and len(v[3]) == 2 and v[3][0] == a and any(v[3][1] == par(x) or iscall(v[3][1], T + "::getParentType", (x,)) for x in cs)
        c.judge(ok, "subsumes|climb", "%s: subsumes does not continue with the parent of the second type: %s" % (n.loc(), show(v)), "subsumption climbs the parents")
    k = 0
    for n, s, v in fl.rets(): k += 1; judge(n, s[0], v)
    if not k: raise AnalysisBroken("subsumes returns nothing")
    # all subsumed types
    f = prog.fn(T + "::getSubsumedTypes"); c.fn(f); g = Graph(prog, f); L = Loops(g)
    p0, p1 = [("param", i, p["n"]) for i, p in enumerate(f.params[:2])]
    me = [n.i for n in calls(g, L, lambda n: n.ev[2] == p1 and last(n.ev[0]) in ("push_back", "emplace_back", "insert") and p0 in n.ev[3])]
    c.judge(bool(me) and not L.path([g.entry.i], [g.exit.i], me), "closure|self", "%s: getSubsumedTypes can leave out the type itself" % f.loc(), "the type itself is listed")
    rec = False
    for lp in L.loops.values():
        it = L.iteration(lp)
        if it is not None and it.full() and it.cont == idx(F("iv_vecTree"), p0):
            cl = [n.i for n in calls(g, L, lambda n: n.i in lp.body and n.ev[0] == f.q and len(n.ev[3]) == 2 and it.iselem(n.ev[3][0]) and n.ev[3][1] == p1)]
            if cl and not L.cycle_avoids(lp, cl) and not L.path([g.entry.i], [g.exit.i], [lp.head]): rec = True
    c.judge(rec, "closure|children", "%s: getSubsumedTypes does not descend into every child" % f.loc(), "every child is visited")
    # common supertype
    f = prog.fn(T + "::getMostSpecificCommonSupertype"); c.fn(f)
    fl = Flow(prog, f, inline=lambda t, fr: False)
    a, b = [("param", i, p["n"]) for i, p in enumerate(f.params[:2])]
    sub = T + "::subsumes"; gp = T + "::getParentType"
    def climbed(v, p):
        if v == p: return True
        if v[0] == "phi":
            ph = fl.phi.get((v[1], v[2]))
            return ph is not None and all(x == p for x in ph[0]) and all(iscall(x, gp) and x[3][0] == v or x == idx(F("iv_vecParents"), v) for x in ph[1])
        return False
    k = 0
    for n, s, v in fl.rets():
        k += 1
        up = lambda x: iscall(x, gp) and len(x[3]) == 1 or (x[0] == "idx" and x[1] == F("iv_vecParents"))
        upof = lambda x: x[3][0] if x[0] == "call" else x[2]
        if iscall(v, f.q):
            x, y = v[3]
            ok = False
            for i, (p, q_) in enumerate(((x, y), (y, x))):
                if up(p) and {upof(p), q_} == {a, b}: ok = ok or has_b(s[0], lambda fm: iscall(fm, sub) and fm[3] == (upof(p), q_), False)
            c.judge(ok, "common|climb", "%s: the common supertype is searched from a type that was not ruled out first" % n.loc(), "climbs only from a type that does not subsume the other")
        else:
            ok = False
            for p, q_ in ((a, b), (b, a)):
                if climbed(v, p): ok = ok or has_b(s[0], lambda fm: iscall(fm, sub) and fm[3][0] == v and climbed(fm[3][1], q_))
            c.judge(ok, "common|ret", "%s: getMostSpecificCommonSupertype returns a type that is not known to subsume the other" % n.loc(), "returned type subsumes both")
    if k < 2: raise AnalysisBroken("common supertype: returns")

# ---------------------------------------------------------------- inheritance

def approp(prog, c):
    f = prog.fn(T + "::computeApprop"); c.fn(f)
    g = Graph(prog, f, inline=lambda t, fr: own(t, fr) and t.u != f.u and not t.name.startswith("debug"), depth=2); L = Loops(g)
    p0 = ("param", 0, f.params[0]["n"])
    A, NUM, OFF, INTRO = F("iv_vecApprop"), F("iv_vecFeatureNumber"), F("iv_vecFeatureOffset"), F("iv_vecIntroducedFeatures")
    its = [(lp, L.iteration(lp)) for lp in L.loops.values()]
    ch = [(lp, it) for lp, it in its if it is not None and it.full() and it.cont == idx(F("iv_vecTree"), p0)]
    if not c.judge(len(ch) == 1 and not L.path([g.entry.i], [g.exit.i], [ch[0][0].head]), "approp|children", "%s: inheritance does not visit every child of the type" % f.loc(), "every child inherits"): return
    lp, it = ch[0]
    def child(v): return it.iselem(v)
    W = [(n, wr(n)) for n in g.nodes if n.i in L.live and wr(n) is not None]
    # flags of the parent are copied for every feature
    copy = None
    for l2, i2 in its:
        if i2 is None or l2 is lp or l2.head not in lp.body or i2.cont is None: continue
        if i2.full() and (i2.cont in [F(x) for x in PERFEAT] + [F("iv_vecFeatureOffset"), idx(A, p0)] or (i2.cont[0] == "idx" and i2.cont[1] == A and child(i2.cont[2]))):
            ns = [n.i for n, w in W if n.i in l2.body and w[1] == "=" and w[0][0] == "idx" and w[0][1][0] == "idx" and w[0][1][1] == A and child(w[0][1][2]) and w[0][2] == i2.var and w[2] == idx(idx(A, p0), i2.var)]
            if ns and not L.cycle_avoids(l2, ns): copy = l2.head
    whole = [n.i for n, w in W if n.i in lp.body and w[1] == "=" and w[0][0] == "idx" and w[0][1] == A and child(w[0][2]) and w[2] == idx(A, p0)]
    cp = ([copy] if copy is not None else []) + whole
    c.judge(bool(cp) and not L.cycle_avoids(lp, cp), "approp|inherit", "%s: a child does not inherit the appropriateness of every feature of its parent" % f.loc(), "appropriateness is inherited")
    # numbers
    adds = [n.i for n, w in W if n.i in lp.body and w[0][0] == "idx" and w[0][1] == NUM and child(w[0][2]) and (w[1] == "+=" and w[2] == idx(NUM, p0) or w[1] == "=" and w[2] == idx(NUM, p0) or w[1] == "=" and w[2] is not None and lin(w[2])[0] == {idx(NUM, p0): 1, w[0]: 1})]
    c.judge(bool(adds) and not L.cycle_avoids(lp, adds) and not any(L.path(L.succs(x), adds, [lp.head]) for x in adds), "approp|count", "%s: a child does not start with the feature count of its parent" % f.loc(), "feature count is inherited once")
    intro = None
    for l2, i2 in its:
        if i2 is None or l2.head not in lp.body or i2.cont is None or not (i2.cont[0] == "idx" and i2.cont[1] == INTRO and child(i2.cont[2])): continue
        if not i2.full(): continue
        incs = [n.i for n, w in W if n.i in l2.body and w[0][0] == "idx" and w[0][1] == NUM and child(w[0][2]) and (w[1] == "++" or w[1] == "+=" and w[2] == ("int", 1) or w[1] == "=" and w[2] is not None and lin(w[2]) == ({w[0]: 1}, 1))]
        others = [n.i for n, w in W if n.i in l2.body and w[0][0] == "idx" and w[0][1] == NUM and n.i not in incs]
        offs = [(n.i, w) for n, w in W if n.i in l2.body and w[0][0] == "idx" and w[0][1] == OFF]
        okoff = bool(offs)
        for i, w in offs:
            v = lin(w[2]) if w[2] is not None else None
            pre = L.path([l2.head], [i], incs)         # reached before the increment?
            post_ = any(L.path(L.succs(x), [i], [l2.head]) for x in incs)
            okoff = okoff and w[1] == "=" and i2.iselem(w[0][2]) and v is not None and len(v[0]) == 1 and list(v[0].values()) == [1] and list(v[0])[0][0] == "idx" and list(v[0])[0][1] == NUM and child(list(v[0])[0][2]) \
                and ((v[1] == 0 and not pre) or (v[1] == 1 and not post_))
        marks = [n.i for n, w in W if n.i in l2.body and w[1] == "=" and w[0][0] == "idx" and w[0][1][0] == "idx" and w[0][1][1] == A and child(w[0][1][2]) and i2.iselem(w[0][2]) and num(prog, w[2]) == 1]
        c.judge(bool(incs) and not others and not L.cycle_avoids(l2, incs) and not any(L.path(L.succs(x), incs, [l2.head]) for x in incs), "approp|number", "%s: an introduced feature does not raise the feature count by exactly one: offsets collide or leave gaps" % f.loc(), "each introduced feature counts once")
        c.judge(okoff and not L.cycle_avoids(l2, [i for i, w in offs]), "approp|offset", "%s: the offset of an introduced feature is not the next free one of its type" % f.loc(), "each introduced feature gets the next offset")
        c.judge(bool(marks) and not L.cycle_avoids(l2, marks), "approp|mark", "%s: an introduced feature is not appropriate for the type that introduces it" % f.loc(), "introduced features are appropriate")
        intro = l2
    c.judge(intro is not None and not L.cycle_avoids(lp, [intro.head]), "approp|intro", "%s: not every feature introduced at a child is numbered" % f.loc(), "all introduced features are visited")
    rec = [n for n in calls(g, L, lambda n: n.ev[0] == f.q and n.i in lp.body and child(n.ev[3][0]))]
    c.judge(bool(rec) and not L.cycle_avoids(lp, [n.i for n in rec]), "approp|descend", "%s: inheritance does not continue below every child" % f.loc(), "inheritance descends")
    if intro is not None:
        for n in rec:
            back = [x for x in adds + cp + [intro.head] if L.path(L.succs(n.i), [x], [lp.head])]
            c.judge(not back, "approp|first", "%s: the children of a type inherit from it before it is complete" % n.loc(), "a type is complete before its children inherit")
        for x in adds:
            c.judge(not L.path(L.succs(intro.head), [x], [lp.head]) or not L.path([intro.head], [x], [lp.head]), "approp|addfirst", "%s: the parent's feature count is added after own features were numbered" % f.loc())
        for x in cp:
            c.judge(not L.path([intro.head], [x], [lp.head]), "approp|copyfirst", "%s: the parent's flags overwrite those of the features introduced here" % f.loc())
    # offset -> feature table
    f = prog.fn(T + "::computeTypeFeatureOffsetMapping"); c.fn(f)
    fl = Flow(prog, f, inline=lambda t, fr: own(t, fr)); M = F("iv_vecTypeFeatureOffsetMapping")
    cnt = 0
    for n, s, loc, v in fl.stores():
        if loc[0] != "idx" or loc[1][0] != "idx" or loc[1][1] != M: continue
        cnt += 1
        t, o = loc[1][2], loc[2]
        ct, cf = fl.counter(t) if t[0] == "phi" else None, fl.counter(v) if v[0] == "phi" else None
        c.judge(o == idx(OFF, v) and has_b(s[0], lambda fm: fm == idx(idx(A, t), v) or fm[0] == "call" and fm[2] == idx(idx(A, t), v)), "map|entry", "%s: the offset table of a type does not map the offset of each appropriate feature to that feature" % n.loc(), "offset table inverts the offsets")
        c.judge(ct is not None and ct[1] == 1 and ct[0] in (("int", 0), ("int", 1)) and cf is not None and cf[1] == 1 and cf[0] in (("int", 0), ("int", 1)), "map|range", "%s: types or features are left out of the offset table" % n.loc())
        sizes = s[0]
        row = loc[1]
        okb = any(x[0] == "le" and any(y == o and k > 0 for y, k in x[1]) and any(sized(row)(y) and k < 0 for y, k in x[1]) and x[2] <= -1 for x in s[0])
        g = fl.g; LL = Loops(g)
        rz = [m.i for m in g.nodes if m.k == "call" and m.i in fl.at and last(m.ev[0] or "") == "resize" and any((lin(fl.val(m.ev[3][0], s2)) == ({idx(OFF, v): 1}, 1)) for s2 in fl.at[m.i])]
        if not okb and rz:   # resized on this round, or the offset is known to be inside
            hd = LL.innermost(n.i).head if LL.innermost(n.i) is not None else None
            e = explore(g, ustate=False, step=lambda m, fa, us: [(fa, True if m.i in rz else False if m.i == hd else us)])
            small = lambda fa: any(x[0] == "le" and dict(x[1]) == {OF: 1, SZ: -1} and x[2] <= -1 for x in fa for SZ in fact_forms(x) if sized(row_)(SZ) for OF in fact_forms(x) if OF != SZ)
            w = wr(n); row_ = w[0][1] if w is not None and w[0] is not None and w[0][0] == "idx" else None
            okb = row_ is not None and all(us or small(fa) for fa, us in e.at.get(n.i, ()))
        c.judge(okb, "map|grow", "%s: the offset table is not grown to the offset it is written at" % n.loc(), "offset table grown before the write")
        for m in rz:
            for s2 in fl.at[m]:
                facts = s2[0]
                c.judge(any(x[0] == "le" and any(y == o and k < 0 for y, k in x[1]) and any(y[0] == "call" and last(y[1]) == "size" and k > 0 for y, k in x[1]) for x in facts), "map|shrink", "%s: the offset table can shrink" % g.nodes[m].loc())
    if not cnt: raise AnalysisBroken("offset table stores")
    g = Graph(prog, f); L = Loops(g)
    st = [n for n in g.nodes if n.k == "set" and n.i in L.live and n.ev[0] is not None and n.ev[0][0] == "idx" and n.ev[0][1] is not None and n.ev[0][1][0] == "idx" and n.ev[0][1][1] == M]
    for n in st:
        enc = L.enclosing(n)
        okf = len(enc) == 2
        for l2 in enc:
            i2 = L.iteration(l2)
            okf = okf and i2 is not None and i2.kind == "ix" and i2.steps and not i2.early
        # skipped only when not appropriate
        skip = L.path(L.succs(enc[0].head), [enc[0].head], [n.i] + [m.i for m in g.nodes if m.k == "br" and m.cond is not None and any(y[0] == "idx" and y[1] is not None and y[1][0] == "idx" and y[1][1] == A for y in subforms(m.cond))], within=enc[0].body) if enc else True
        c.judge(okf and not skip, "map|all", "%s: the offset table does not cover every type and feature" % n.loc(), "offset table covers all types and features")

# ---------------------------------------------------------------- priorities

def priorities(prog, c):
    f = prog.fn(T + "::addTypePriority"); c.fn(f)
    PL = F("iv_typePriorityList"); p = [("param", i, x["n"]) for i, x in enumerate(f.params)]
    g = Graph(prog, f); r = explore(g); L = Loops(g)
    pair = lambda v: v is not None and (v[0] == "ctor" and v[2] == tuple(p) or v[0] == "call" and last(v[1]) == "make_pair" and v[3] == tuple(p))
    push = [n for n in calls(g, L, lambda n: n.ev[2] == PL and last(n.ev[0]) in ("push_back", "emplace_back"))] + [n for n in g.nodes if n.i in L.live and n.k in ("set", "call") and wr(n) is not None and wr(n)[0] == PL]
    cyc = lambda fm: fm[0] == "call" and last(fm[1]) in ("hasCycle",) or fm[0] == "call" and last(fm[1]) == "topologicalSort"
    if not push: raise AnalysisBroken("addTypePriority keeps nothing")
    # the candidate list: copy of the list plus the pair
    cand = set()
    for n in g.nodes:
        if n.k == "call" and n.i in L.live and n.ev[2] is not None and n.ev[2][0] == "var" and last(n.ev[0]) in ("push_back", "emplace_back") and n.ev[3] and pair(n.ev[3][0]) and PL in values(g, n.ev[2]): cand.add(n.ev[2])
    def acyc(facts):
        for x in facts:
            if x[0] in ("b", "nb") and x[1][0] == "call" and len(x[1][3]) >= 2:
                m = last(x[1][1])
                if m == "hasCycle" and x[0] == "nb" and x[1][3][1] in cand: return True
                if m == "topologicalSort" and x[0] == "b" and x[1][3][1] in cand: return True
        return False
    for n in push:
        for facts, us in r.at.get(n.i, ()):
            c.judge(acyc(facts), "prio|guard", "%s: a type priority is kept without knowing that the priorities stay acyclic" % n.loc(), "priority kept only when acyclic")
        ok = n.k == "call" and n.ev[2] == PL and last(n.ev[0]) != "operator=" and pair(n.ev[3][0]) or wr(n) is not None and wr(n)[2] in cand
        c.judge(ok, "prio|pair", "%s: the priority kept is not the pair given" % n.loc(), "the pair given is kept")
    for n in g.nodes:
        if n.k != "ret" or n.fr is not g.frame or n.i not in r.at: continue
        v = num(prog, n.ev[0]) if n.ev[0] is not None else None
        reached_without = L.path([g.entry.i], [n.i], [x.i for x in push])
        reached_with = any(L.path(L.succs(x.i), [n.i]) for x in push)
        if v is not None: c.judge((bool(v) and not reached_without) or (not v and not reached_with), "prio|result", "%s: addTypePriority reports %s for a priority it did %skeep" % (n.loc(), bool(v), "not " if v else ""), "the result says whether the priority was kept")
        else: c.judge(n.ev[0] is not None and n.ev[0][0] in ("var", "ret", "call", "not"), "prio|result", "%s: result not understood" % n.loc())
        if not v and v is not None:
            for facts, us in r.at[n.i]:
                c.judge(any(x[0] == "b" and x[1][0] == "call" and last(x[1][1]) == "hasCycle" or x[0] == "nb" and x[1][0] == "call" and last(x[1][1]) == "topologicalSort" for x in facts), "prio|refuse", "%s: a type priority is refused without a cycle" % n.loc())
    # list of all types given to the sort
    al = calls(g, L, lambda n: n.ev[0] == T + "::getAllTypes")
    for n in calls(g, L, lambda n: last(n.ev[0]) in ("hasCycle", "topologicalSort")):
        c.judge(any(a.ev[3] and a.ev[3][0] == n.ev[3][0] and L.dom(n.i, [a.i]) for a in al), "prio|all", "%s: the cycle test does not cover all types" % n.loc(), "cycle test covers all types")
    # the sort: nodes without predecessor only
    for base in ("topologicalSort", "deleteNodeWithoutPredecessor", "hasPredecessor", "deleteAllEdges", "hasCycle"):
        if not [x for x in prog.fns.values() if x.name.split("<")[0] == base and x.cls is None]: raise AnalysisBroken("helper %s not found" % base)
    for f in [x for x in prog.fns.values() if x.cls is None and x.name.split("<")[0] == "hasPredecessor"]:
        fl = Flow(prog, f); c.fn(f); b = ("param", 1, f.params[1]["n"]); e = ("param", 0, f.params[0]["n"])
        g = Graph(prog, f); L = Loops(g)
        its = [L.iteration(lp) for lp in L.loops.values()]
        its = [i for i in its if i is not None and i.cont == e and i.kind in ("it", "ix") and i.starts and i.steps]
        for n, s, v in fl.rets():
            if v == ("int", 1): c.judge(any(x[0] == "eq" and x[2] == 0 and any(y[0] == b for y in x[1]) and any(y[0][0] == "f" and last(y[0][2]) == "second" for y in x[1]) for x in s[0]), "sort|pred1", "%s: a node is said to have a predecessor without an edge into it" % n.loc(), "predecessor found by an edge into the node")
        ok = bool(its)
        for i in its:
            for n, t, l, cc in i.early:
                ok = ok and not any(m.k == "ret" and L.path([t.i], [m.i]) and num(prog, m.ev[0]) == 0 for m in g.nodes)
        c.judge(ok, "sort|pred0", "%s: a node is said to have no predecessor before every edge was examined" % f.loc(), "every edge examined")
    for f in [x for x in prog.fns.values() if x.cls is None and x.name.split("<")[0] == "deleteAllEdges"]:
        c.fn(f); g = Graph(prog, f); L = Loops(g); r = explore(g)
        e, nd = [("param", i, p["n"]) for i, p in enumerate(f.params)]
        ok = False
        for lp in L.loops.values():
            it = L.iteration(lp)
            if it is None or not it.full() or it.cont != e: continue
            ps = calls(g, L, lambda n: n.i in lp.body and last(n.ev[0]) in ("push_back", "emplace_back") and it.iselem(n.ev[3][0]))
            good = bool(ps)
            for n in ps:
                for facts, us in r.at.get(n.i, ()):
                    good = good and any(x[0] == "ne" and any(y[0] == nd for y in x[1]) and any(y[0][0] == "f" and last(y[0][2]) == "first" for y in x[1]) for x in facts)
            # an edge is dropped only when it starts at the node
            for i in lp.body:
                n = g.nodes[i]
                for t, l in n.succ:
                    if t.i == lp.head or L.path([t.i], [lp.head], [p.i for p in ps], within=lp.body):
                        pass
            drop = unkept(g, L, lp, ps, nd)
            res = [n for n in g.nodes if n.i in L.live and wr(n) is not None and wr(n)[0] == e] + calls(g, L, lambda n: last(n.ev[0]) == "swap")
            if good and not drop and res and not L.path([g.entry.i], [g.exit.i], [n.i for n in res]): ok = True
        er = calls(g, L, lambda n: n.ev[2] == e and last(n.ev[0]) == "erase")
        c.judge(ok or bool(er), "sort|edges", "%s: removing a node does not remove exactly the edges that start at it" % f.loc(), "edges of the removed node removed")
    for f in [x for x in prog.fns.values() if x.cls is None and x.name.split("<")[0] == "deleteNodeWithoutPredecessor"]:
        c.fn(f); g = Graph(prog, f); r = explore(g); L = Loops(g)
        ns, ed, rs = [("param", i, p["n"]) for i, p in enumerate(f.params)]
        for n in g.nodes:
            if n.k == "call" and n.i in r.at and n.ev[2] == ns and last(n.ev[0]) == "erase":
                for facts, us in r.at[n.i]:
                    c.judge(any(x[0] == "nb" and x[1][0] == "call" and last(x[1][1]).split("<")[0] == "hasPredecessor" and x[1][3] == (ed, unconv(n.ev[3][0])) for x in facts), "sort|select", "%s: a node that may have a predecessor is taken" % n.loc(), "only nodes without predecessor are taken")
                dl = [m.i for m in calls(g, L, lambda m: last(m.ev[0]).split("<")[0] == "deleteAllEdges" and m.ev[3] == (ed, unconv(n.ev[3][0])))]
                out = [m.i for m in g.nodes if wr(m) is not None and m.i in L.live and wr(m)[0] == rs and wr(m)[2] == unconv(n.ev[3][0])]
                c.judge(L.dom(n.i, dl) and L.dom(n.i, out), "sort|consistent", "%s: the node is removed without its edges or without reporting which one it was" % n.loc(), "node removed with its edges and reported")
        er = [n.i for n in calls(g, L, lambda n: n.ev[2] == ns and last(n.ev[0]) == "erase")]
        for n in g.nodes:
            if n.k == "ret" and n.i in r.at:
                v = num(prog, n.ev[0])
                c.judge(v is not None and (not L.path([g.entry.i], [n.i], er) if v else not any(L.path(L.succs(x), [n.i]) for x in er)), "sort|ret", "%s: the result does not say whether a node was taken" % n.loc())
    for f in [x for x in prog.fns.values() if x.cls is None and x.name.split("<")[0] == "topologicalSort"]:
        c.fn(f); fl = Flow(prog, f, inline=lambda t, fr: False); nodes = ("param", 0, f.params[0]["n"]); out = ("param", 2, f.params[2]["n"])
        nodes = {nodes} | {("var", (), f.params[0]["id"], f.params[0]["n"])}
        k = 0
        for n, s, loc, v in fl.stores():
            if loc[0] == "idx" and loc[1] == out:
                k += 1
                ct = fl.counter(v) if v[0] == "phi" else None
                if ct is None:
                    d, cc = lin(v); ph = [x for x in d if x[0] == "phi"]
                    ct = fl.counter(ph[0]) if len(d) == 1 and len(ph) == 1 else None
                c.judge(ct is not None and ct[1] == 1, "sort|number", "%s: positions in the sort order are not counted up one by one" % n.loc(), "positions count up by one")
                c.judge(any(x[0] == "b" and x[1][0] in ("call", "hv", "var", "ret") for x in s[0]), "sort|taken", "%s: a position is given although no node was taken" % n.loc())
        if not k: raise AnalysisBroken("sort order stores")
        for n, s, v in fl.rets():
            if v == ("int", 0): continue
            ok = v is not None and v[0] == "call" and last(v[1]) == "empty" and (v[2] in nodes or v[2][0] in ("hv", "phi") and v[2][2] in nodes) or v is not None and v[0] == "hv" or v == ("int", 1) and any(x[0] == "b" and x[1][0] == "call" and last(x[1][1]) == "empty" for x in s[0])
            if v is not None and v[0] == "cmp": ok = any(sized(x)(y) for x in nodes for y in v[2:])
            c.judge(ok, "sort|complete", "%s: the order is called complete although nodes may be left" % n.loc(), "sorted only when no node is left")
    for f in [x for x in prog.fns.values() if x.cls is None and x.name.split("<")[0] == "hasCycle"]:
        c.fn(f); fl = Flow(prog, f, inline=lambda t, fr: False)
        for n, s, v in fl.rets():
            c.judge(v is not None and v[0] == "not" and v[1][0] == "call" and last(v[1][1]).split("<")[0] == "topologicalSort" and v[1][3][:2] == tuple(("param", i, p["n"]) for i, p in enumerate(f.params)), "sort|cycle", "%s: hasCycle does not report that sorting failed" % n.loc(), "a cycle is a failed sort")
    # the priority number of a type comes from the sort of the kept list
    f = prog.fn(T + "::computeTypePriorityClosure"); c.fn(f); g = Graph(prog, f); L = Loops(g)
    so = calls(g, L, lambda n: last(n.ev[0]).split("<")[0] == "topologicalSort" and n.ev[3][1] == PL and n.ev[3][2] == F("iv_mapTypePriority"))
    c.judge(bool(so) and not L.path([g.entry.i], [g.exit.i], [n.i for n in so]), "prio|closure", "%s: the priority numbers are not computed from the kept priorities" % f.loc(), "priority numbers come from the kept priorities")

def unkept(g, L, lp, ps, nd):
    """rounds that drop an element under a condition other than 'starts at nd'"""
    blocked = {p.i for p in ps}
    seen = set()
    todo = [(t.i, False) for t, l in g.nodes[lp.head].succ if t.i in lp.body]
    while todo:
        i, ok = todo.pop()
        if (i, ok) in seen or i in blocked: continue
        seen.add((i, ok))
        if i == lp.head:
            if not ok: return True
            continue
        n = g.nodes[i]
        for t, l in n.succ:
            if t.i not in lp.body: continue
            o = ok
            if l is not None and l[0] == "t":
                cnd = l[1] if l[2] else neg(l[1])
                if cnd[0] == "cmp" and cnd[1] == "==" and nd in cnd[2:] and any(y[0] == "f" and last(y[2]) == "first" for y in cnd[2:]): o = True
            todo.append((t.i, o))
    return False

# ---------------------------------------------------------------- merging descriptions

def merging(prog, c):
    CD = "uima::internal::CASDefinition"
    f = prog.fn("uima::internal::mergeType"); c.fn(f)
    P = [("param", i, p["n"]) for i, p in enumerate(f.params)]
    ts, name, desc, cre = P
    local = lambda t, fr: t.cls is None and t.file == f.file and t.u != f.u
    g = Graph(prog, f, inline=local, depth=2); L = Loops(g); r = explore(g)
    exist = ("call", T + "::getTypeByName", ts, (name,))
    def has(facts, q): return has_b(facts, lambda fm: fm[0] == "call" and last(fm[1]) == q and fm[3] == (name,))
    rec = calls(g, L, lambda n: n.ev[0] == f.q)
    if not rec: raise AnalysisBroken("mergeType does not merge the parent")
    for n in rec:
        ok = n.ev[3][0] == ts and n.ev[3][2:] == (desc, cre) and n.ev[3][1] is not None and n.ev[3][1][0] == "call" and last(n.ev[3][1][1]) == "getSuperTypeName"
        c.judge(ok, "merge|parent", "%s: the parent merged is not the declared supertype" % n.loc(), "the declared supertype is merged first")
        # termination: a chain test with a throwing exit precedes the recursion
        bound = False
        for lp in L.loops.values():
            if not L.dom(n.i, [lp.head]) or n.i in lp.body: continue
            follows = [m for m in g.nodes if m.i in lp.body and any(y is not None and y[0] == "call" and last(y[1]) == "getSuperTypeName" for z in ([m.ev[2]] if m.k == "set" else list(m.ev[3]) + [m.ev[2]] if m.k == "call" else []) if z is not None for y in subforms(z))]
            thr = [m for m in g.nodes if m.i in lp.body and m.k == "br" and any(t.i not in lp.body and not L.path([t.i], [n.i]) for t, l in m.succ)]
            thr = thr or [m for m in g.nodes if m.i in lp.body and m.k == "br" and any(not L.path([t.i], [n.i]) for t, l in m.succ)]
            # the throwing test compares a counter stepped on every round, or consults names collected on every round
            stepped = {m.ev[0] for m in g.nodes if m.i in lp.body and m.k == "set" and m.ev[0] is not None and m.ev[1] != "=" and not L.cycle_avoids(lp, [m.i])}
            stepped |= {m.ev[2] for m in g.nodes if m.i in lp.body and m.k == "call" and m.ev[2] is not None and last(m.ev[0]) in ("insert", "push_back", "emplace_back") and not L.cycle_avoids(lp, [m.i])}
            stepped |= {m.ev[0] for m in g.nodes if m.i in lp.body and m.k == "set" and m.ev[0] is not None and m.ev[1] == "=" and m.ev[2] is not None and m.ev[2] != m.ev[0] and lin(m.ev[2])[0] == {m.ev[0]: 1} and not L.cycle_avoids(lp, [m.i])}
            thr = [m for m in thr if m.cond is not None and any(contains(m.cond, x) for x in stepped)]
            if follows and thr and not L.cycle_avoids(lp, [m.i for m in thr]): bound = True
        if not bound:
            # or a set of names in progress
            for facts, us in r.at.get(n.i, ()): pass
            vis = [m.i for m in calls(g, L, lambda m: last(m.ev[0]) in ("insert", "push_back") and m.ev[3] and name in m.ev[3])]
            tst = [m.i for m in g.nodes if m.k == "br" and m.i in L.live and m.cond is not None and any(y[0] == "call" and last(y[1]) in ("find", "count", "insert") and name in y[3] for y in subforms(m.cond)) and any(not L.path([t.i], [n.i]) for t, l in m.succ)]
            bound = bool(vis) and bool(tst) and L.dom(n.i, tst)
        c.judge(bound, "merge|cycle", "%s: a cycle of supertypes in a description is followed without end" % n.loc(), "supertype chains are tested before they are followed")
    parentv = set()
    for n in rec: parentv.add(("call", f.q, None, n.ev[3]))
    for n in g.nodes:
        if n.k == "set" and n.ev[2] in parentv: parentv.add(n.ev[0])
    def absent_(facts): 
        at = atom(("cmp", "==", exist, ("g", T + "::INVALID_TYPE")), prog)
        return holds(facts, at[0], at[1]) is True
    mk = calls(g, L, lambda n: n.ev[0] in (T + "::createType", T + "::createStringSubtype"))
    kinds = {last(n.ev[0]) for n in mk}
    c.judge(kinds == {"createType", "createStringSubtype"}, "merge|create", "%s: mergeType does not create both ordinary types and string subtypes" % f.loc())
    strt = ("int", typeconst(prog, "gs_tyStringType"))
    for n in mk:
        for facts, us in r.at.get(n.i, ()):
            c.judge(absent_(facts) and has(facts, "hasTypeDescription"), "merge|new|" + last(n.ev[0]), "%s: a type is created although it exists or is not declared" % n.loc(), "%s only for declared types that do not exist" % last(n.ev[0]))
            if last(n.ev[0]) == "createType":
                c.judge(n.ev[3][0] in parentv and n.ev[3][1] == name and n.ev[3][2] == cre, "merge|args", "%s: the type is not created under its declared parent, name and creator" % n.loc(), "created under the declared parent")
                c.judge(any(holds_eq(facts, p, strt, prog, False) for p in parentv), "merge|plain", "%s: a subtype of the string type is created as an ordinary type" % n.loc())
            else:
                c.judge(any(holds_eq(facts, p, strt, prog) for p in parentv), "merge|str", "%s: a string subtype is created for a type that is not derived from the string type" % n.loc())
                c.judge(n.ev[3][0] == name and n.ev[3][2] == cre, "merge|strargs", "%s: the string subtype is not created with its name and creator" % n.loc())
    # existing: parents agree, or throw
    for n in g.nodes:
        if n.k != "ret" or n.fr is not g.frame or n.i not in r.at: continue
        v = n.ev[0]
        for facts, us in r.at[n.i]:
            if v is not None and v[0] == "call" and v[1] in (T + "::createType", T + "::createStringSubtype"): continue
            if absent_(facts):
                c.judge(any(m.i for m in mk if L.dom(n.i, [m.i])) or (v is not None and v[0] in ("var", "ret")), "merge|unknown", "%s: an unknown type is accepted" % n.loc()); continue
            c.judge(v == exist or (v is not None and v[0] in ("var", "ret")), "merge|ret", "%s: mergeType returns %s instead of the existing type" % (n.loc(), show(v)), "the existing type is returned")
            if has(facts, "hasTypeDescription"):
                pe = any(holds_eq(facts, p, ("call", T + "::getParentType", ts, (exist,)), prog) for p in parentv)
                c.judge(pe, "merge|conflict", "%s: a type that exists with another parent is merged silently" % n.loc(), "an existing type is accepted only with the same parent")
    strings(prog, c, f, g, L, r, ts, exist)
    # the whole description
    f = prog.fn(CD + "::mergeTypeSystem", sig="TypeSystemDescription"); c.fn(f)
    g = Graph(prog, f, inline=lambda t, fr: t.cls == CD and t.u != f.u or t.cls is None and t.file == f.file and t.q != "uima::internal::mergeType", depth=2); L = Loops(g); r = explore(g)
    its = [(lp, L.iteration(lp)) for lp in L.loops.values()]
    desc = ("param", 0, f.params[0]["n"])
    tl = [(lp, it) for lp, it in its if it is not None and it.full() and it.cont is not None and it.cont[0] == "call" and last(it.cont[1]) == "getTypeDescriptions"]
    mt = calls(g, L, lambda n: n.ev[0] == "uima::internal::mergeType" and n.ev[3][1] is not None and n.ev[3][1][0] == "call" and last(n.ev[3][1][1]) == "getName")
    okt = [lp for lp, it in tl for m in [[n.i for n in mt if n.i in lp.body and it.iselem(n.ev[3][1][2])]] if m and not L.cycle_avoids(lp, m)]
    c.judge(bool(okt) and not L.path([g.entry.i], [g.exit.i], [lp.head for lp in okt]), "mts|types", "%s: not every described type is merged" % f.loc(), "every described type is merged")
    cf = calls(g, L, lambda n: n.ev[0] == T + "::createFeature")
    okf = False
    for lp, it in its:
        if it is None or it.cont is None or not (it.cont[0] == "call" and last(it.cont[1]) == "getFeatureDescriptions" and it.full()): continue
        outer = [o for o, oi in tl if lp.head in o.body and o is not lp and oi.iselem(it.cont[2])]
        if not outer or L.cycle_avoids(outer[0], [lp.head]): continue
        okf = True
        c.judge(all(not L.path([o.head for o in outer], [t.head]) for t in okt if t is not outer[0]) and L.dom(lp.head, [t.head for t in okt]), "mts|order", "%s: features are created before all types exist" % f.loc(), "types exist before features")
        get = lambda q: (lambda v: v is not None and v[0] == "call" and last(v[1]) == q and it.iselem(v[2]))
        # a round ends normally only with the feature present with this range or created
        cl = [n for n in cf if n.i in lp.body]
        for n in cl:
            a = n.ev[3]
            rng = a[1]
            ok = len(a) == 5 and a[3] is not None and get("getName")(a[3]) and a[2] is not None and (get("isMultipleReferencesAllowed")(a[2]) or get("getMultipleReferencesAllowed")(a[2])) and rng is not None and rng[0] == "call" and last(rng[1]) == "getTypeByName" and get("getRangeTypeName")(rng[3][0]) \
                and a[0] is not None and a[0][0] == "call" and last(a[0][1]) == "getTypeByName" and a[0][3][0][0] == "call" and last(a[0][3][0][1]) == "getName" and any(oi.iselem(a[0][3][0][2]) for o, oi in tl)
            c.judge(ok, "mts|args", "%s: the feature is not created with the declared type, range, name and sharing" % n.loc(), "feature created as declared")
            for facts, us in r.at.get(n.i, ()):
                valid = has_b(facts, lambda fm: iscall(fm, T + "::isValidType", (rng,)))
                c.judge(valid or any(holds_eq(facts, rng, ("g", T + "::INVALID_TYPE"), prog, False) for _ in (0,)), "mts|range", "%s: a feature is created with an unknown range type" % n.loc(), "range type is known")
        bad = 0
        # states coming back to the head without createFeature on the last round
        def step(n, facts, us):
            if n.i == lp.head: return [(facts, "round")]
            if n in cl: return [(facts, "made")]
            return [(facts, us)]
        r2 = explore(g, ustate="out", step=step)
        for i in lp.body:
            n = g.nodes[i]
            if not any(t.i == lp.head for t, l in n.succ): continue
            for facts, us in r2.at.get(i, ()):
                us2 = "made" if n in cl else us
                if us2 != "round": continue
                ok = False
                for x in facts:
                    for fm in fact_forms(x):
                        for y in subforms(fm):
                            if y[0] == "call" and last(y[1]) == "getRangeType" and y[3] and y[3][0][0] == "call" and last(y[3][0][1]) == "getFeatureByBaseName":
                                for z in facts:
                                    for zf in fact_forms(z):
                                        if zf[0] == "call" and last(zf[1]) == "getTypeByName" and get("getRangeTypeName")(zf[3][0]) and holds_eq(facts, y, zf, prog): ok = True
                c.judge(ok, "mts|conflict", "%s: a declared feature is skipped although it may be missing or have another range" % f.loc(), "an existing feature is accepted only with the same range")
    c.judge(okf, "mts|features", "%s: not every feature of every described type is merged" % f.loc(), "every described feature is merged")
    # priorities from descriptions: refused ones throw
    f = prog.fn(CD + "::addTypePriorities", sig="vector"); c.fn(f); g = Graph(prog, f); L = Loops(g); r = explore(g)
    ap = calls(g, L, lambda n: n.ev[0] == T + "::addTypePriority")
    if not ap: raise AnalysisBroken("addTypePriorities adds nothing")
    for n in ap:
        fm = ("call", n.ev[0], n.ev[2], n.ev[3])
        names = {fm} | {m.ev[0] for m in g.nodes if m.k == "set" and m.ev[2] == fm}
        lp = L.innermost(n)
        br = [m for m in g.nodes if m.k == "br" and m.i in L.live and m.cond is not None and any(y in names for y in subforms(m.cond))]
        ok = bool(br)
        for m in br:
            for t, l in m.succ:
                if l[0] == "t":
                    v = evalb(frozenset({("nb", x) for x in names}), l[1], prog)
                    if v is not None and v == l[2]: ok = ok and not L.path([t.i], [lp.head, g.exit.i])
        ok = ok and not L.path(L.succs(n.i), [lp.head, g.exit.i], [m.i for m in br])
        c.judge(ok, "mts|prio", "%s: a type priority that conflicts with earlier ones is dropped silently" % n.loc(), "conflicting priorities are reported")

def strings(prog, c, f, g, L, r, ts, exist):
    """allowed values of an existing string subtype: set equality"""
    got = [n for n in calls(g, L, lambda n: n.ev[0] == T + "::getStringsForStringSubtype")]
    if not got: raise AnalysisBroken("mergeType does not compare allowed strings")
    for n in got:
        for facts, us in r.at.get(n.i, ()):
            pe = any(x[0] == "eq" and x[2] == 0 and any(iscall(y[0], T + "::getParentType") for y in x[1]) for x in facts)
            c.judge(pe, "str|kind", "%s: the allowed strings are looked up for a type that may not be a string subtype" % n.loc(), "allowed strings looked up for string subtypes only")
    # the comparison: for every stored string some allowed one is equal
    have = ("call", T + "::getStringsForStringSubtype", ts, (exist,))
    cmps = []
    for n in g.nodes:
        if n.k == "br" and n.i in L.live and n.cond is not None and n.cond[0] == "cmp" and n.cond[1] in ("==", "!="):
            x, y = n.cond[2], n.cond[3]
            for u, v in ((x, y), (y, x)):
                if u is not None and u[0] == "idx" and u[1] == have and v is not None and v[0] == "idx" and v[1] != have: cmps.append((n, u, v))
    lib = calls(g, L, lambda n: n.ev[0].startswith("std::") and last(n.ev[0]) in ("find", "count", "is_permutation", "equal") and any(a is not None and contains(a, have) for a in n.ev[3]))
    if not cmps:
        c.judge(bool(lib) or any(n.k == "br" and n.cond is not None and contains(n.cond, have) and n.cond[0] == "cmp" and n.cond[1] in ("==", "!=") for n in g.nodes), "str|cmp", "%s: the allowed strings of an existing subtype are not compared with the declared ones" % f.loc())
        return
    for n, u, v in cmps:
        inner = L.innermost(n)
        eqedge = [t for t, l in n.succ if l[0] == "t" and (l[2] == (n.cond[1] == "=="))]
        needge = [t for t, l in n.succ if l[0] == "t" and (l[2] != (n.cond[1] == "=="))]
        # 'contained' is concluded on the equal edge only
        flags = [m for m in g.nodes if m.k == "set" and m.i in L.live and m.ev[1] == "=" and num(prog, m.ev[2]) == 1 and m.ev[0] is not None and m.ev[0][0] == "var" and any(L.path([t.i], [m.i], [inner.head]) for t in eqedge + needge)]
        ok = bool(flags) and all(not any(L.path([t.i], [m.i], [inner.head]) for t in needge) for m in flags)
        c.judge(ok, "str|eq", "%s: an allowed string counts as known without being equal to a declared one" % n.loc(), "allowed strings are compared for equality")
        outer = [l for l in L.enclosing(n) if l is not inner]
        c.judge(bool(outer), "str|forall", "%s: not every stored string is looked up" % n.loc())
        for lp, bnd in ((inner, v), (outer[0], u)) if outer else ():
            it = L.iteration(lp)
            var = bnd[2]
            okb = False
            for m in g.nodes:
                if m.i in lp.body and m.k == "br":
                    for t, l in m.succ:
                        if t.i not in lp.body and l[0] == "t":
                            cc = l[1] if l[2] else neg(l[1])
                            if cc[0] == "cmp" and cc[1] in (">=", "==") and cc[2] == var and cc[3] is not None and cc[3][0] == "call" and last(cc[3][1]) == "size": okb = True
            z = [m for m in g.nodes if m.k == "set" and m.i in L.live and m.ev[0] == var]
            okb = okb and all((m.ev[1] == "=" and num(prog, m.ev[2]) == 0) or m.ev[1] == "++" or (m.ev[1] == "+=" and num(prog, m.ev[2]) == 1) for m in z)
            c.judge(okb, "str|range", "%s: the comparison of allowed strings leaves some out" % n.loc(), "all allowed strings take part")
    szs = [n for n in g.nodes if n.k == "br" and n.i in L.live and n.cond is not None and n.cond[0] == "cmp" and n.cond[1] in ("==", "!=") and any(sized(have)(y) for y in n.cond[2:] if y is not None)]
    c.judge(bool(szs), "str|size", "%s: sets of allowed strings of different size are not told apart" % f.loc(), "sizes of the sets are compared")
