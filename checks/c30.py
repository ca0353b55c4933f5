"""C30: description objects keep what they are given, and are immutable once committed"""
from sa import check
from sa.core import *
from sa.scen import Scen, last
from checks.c14 import enumv

META = "uima::MetaDataObject"; FLAG = ("f", ("this",), META + "::iv_bIsModifiable")
FREE = ("uima::NameValuePair",)                        # values stay changeable by design
MUT = ("push_back", "push_front", "emplace_back", "insert", "emplace", "erase", "clear", "assign", "swap", "resize", "operator=", "operator+=", "operator[]", "append", "setTo", "removeBetween", "remove", "pop_back")
# adder -> accessor that hands the collection out (per argument after the first)
ADD = {("Capability", "addCapabilityType"): "getCapabilityTypes", ("Capability", "addCapabilityFeature"): "getCapabilityFeatures", ("Capability", "addCapabilitySofa"): "getCapabilitySofas", ("Capability", "addSupportedLanguage"): "getSupportedLanguages",
       ("FixedFlow", "addNode"): "getNodes", ("CapabilityLanguageFlow", "addNode"): "getNodes", ("FSIndexDescription", "addFSIndexKey"): "getFSIndexKeys", ("TypePriority", "addType"): "getTypeOrder",
       ("AnalysisEngineMetaData", "addCapability"): "getCapabilites", ("AnalysisEngineMetaData", "addFSIndexDescription"): "getFSIndexDescriptions", ("AnalysisEngineMetaData", "addTypePriority"): "getTypePriorities",
       ("AnalysisEngineMetaData", "addFSIndexImportDescription"): "getFSIndexImportDescriptions", ("AnalysisEngineMetaData", "addTypePriorityImportDescription"): "getTypePriorityDescriptions",
       ("TypeDescription", "addFeatureDescription"): "getFeatureDescriptions", ("TypeDescription", "addAllowedValue"): "getAllowedValues", ("TypeSystemDescription", "addTypeDescription"): "getTypeDescriptions",
       ("TypeSystemDescription", "addImportDescription"): "getImportDescriptions", ("AnalysisEngineDescription", "addSofaMapping"): "getSofaMappings"}
GET = {"setIsTypePriority": "isTypePriority", "setModifiesCas": "getModifiesCas", "setFixedFlow": "getFlowConstraints"}

def rooted(f):
    if f is not None and f[0] == "ite": return rooted(f[2]) or rooted(f[3])
    while f is not None and f[0] in ("f", "idx", "call", "op"):
        if f[0] == "f" and f[1] == ("this",): return f
        f = f[2] if f[0] == "call" else f[2] if f[0] == "op" and len(f) > 2 and isinstance(f[2], tuple) else f[1] if f[0] in ("f", "idx") else None
    return None

class Writes(Scen):
    """records what the reachable paths do to the object"""
    def __init__(self, *a, **k):
        Scen.__init__(self, *a, **k); self.lim = 1 << 40; self.writes = []
    def visit(self, n, env):
        w = None
        if n.k == "set" and n.ev[0] is not None: w = rooted(n.ev[0])
        elif n.k == "call" and n.ev[2] is not None and n.ev[0] and last(n.ev[0]) in MUT and not (n.ev[1] or "").rstrip().endswith("const"): w = rooted(n.ev[2])
        elif n.k == "del": w = ("deleted",)
        if w is not None: self.writes.append((w, n))
        return Scen.visit(self, n, env)

class Desc:
    def __init__(self, prog, c):
        self.prog, self.c = prog, c; self.gs = {}
        sub = {META}
        while True:
            n = {q for q, cs in prog.clsq.items() for d in cs if any(b in sub for b in d["bases"])} | sub
            if n == sub: break
            sub = n
        self.cls = sorted(sub)
        if len(sub) < 20: raise AnalysisBroken("the description classes not found")
    def graph(self, f, stop=()):
        key = (f.u, stop)
        if key not in self.gs:
            self.c.fn(f)
            self.gs[key] = Graph(self.prog, f, inline=lambda t, fr: (t.cls in self.cls or (t.file == f.file and t.cls in ("", None))) and t.u != f.u and t.name not in stop and t.d.get("kind") in ("method", "func"), depth=4, eh="try")
        return self.gs[key]
    def methods(self, q, pred):
        return sorted((f for f in self.prog.fns.values() if f.cls == q and f.blocks and f.d.get("kind") == "method" and pred(f)), key=lambda f: f.u)
    def fields(self, q):
        out, todo = {}, [q]
        while todo:
            k = todo.pop()
            for cl in self.prog.clsq.get(k, [])[:1]:
                for x in cl["fields"]: out.setdefault(x["n"], (("f", ("this",), k + "::" + x["n"]), x["t"], k))
                todo += [b for b in cl["bases"]]
        return out

def code(f): return (f.d.get("rett") or f.d.get("ret") or "").strip() in ("long", "TyErrorId", "uima::TyErrorId") or "TyErrorId" in (f.d.get("ret") or "")
def isvec(t): return t.replace("const ", "").startswith(("std::vector<", "vector<", "std::list<", "std::deque<"))
def guarded(d):
    return [f for q in d.cls if q not in FREE for f in d.methods(q, lambda f: code(f) and f.name.startswith(("set", "add")) and f.name != "setNameValuePair")]
def owns(f): return [i for i, p in enumerate(f.params) if p["t"].replace(" ", "") == "bool&"]

def refused(d, fs):
    """a committed object refuses every change"""
    prog, c = d.prog, d.c
    res = {}
    for f in fs:
        s = Writes(prog, d.graph(f), [None] * len(f.params), {}, {}, init={FLAG: 0}); s.params = ["ARG"] + [None] * len(f.params)
        out = s.go(); c.count("setters")
        own = [i for i in owns(f)]
        for i in own: pass
        res[f.u] = (f, {(thr, r) for thr, r, lg, env in out}, [w for w in s.writes if w[0] != ("deleted",) or True], [env.get(("param", i, f.params[i]["n"])) for i in own for thr, r, lg, env in out])
    votes = {}
    for f, rs, w, o in res.values():
        for r in rs: votes[r] = votes.get(r, 0) + 1
    want = max(votes, key=votes.get)
    if want[0] or not isinstance(want[1], int) or want[1] == 0: raise AnalysisBroken("the error of a committed object not found: %s" % (want,))
    for f, rs, w, o in sorted(res.values(), key=lambda x: x[0].u):
        bad = None
        if w: bad = "changes %s (line %s)" % (show(w[0][0]) if w[0][0] != ("deleted",) else "something: it deletes an object", w[0][1].fr.loc(w[0][1]) if hasattr(w[0][1].fr, "loc") else f.loc())
        elif rs != {want}: bad = "ends with %s, not with the error that the object is committed" % sorted(str(x) for x in rs)
        elif any(x not in (0, None, False) for x in o): bad = "claims to own its argument"
        c.judge(bad is None, "committed|" + f.u, "%s: %s on a committed object %s" % (f.loc(), f.q, bad), "committed: " + f.q)
    return want[1]

def stored(d, fs):
    """before, it stores its argument where the accessor of that name finds it"""
    prog, c = d.prog, d.c
    for f in fs:
        q = f.cls; short = last(q); fl = d.fields(q)
        if (short, f.name) in ADD:
            stem = ADD[(short, f.name)]
            gets = d.methods(q, lambda g: g.name == stem)
            if not gets: continue
            styles = [None]
            if len(f.params) > 1 and "En" in f.params[1]["t"]:
                styles = [enumv(prog, q, x) for x in (("INPUTSOFA", "OUTPUTSOFA") if "Sofa" in f.name else ("INPUT", "OUTPUT"))]
            for st in styles:
                init = {x[0]: ("vec", n + "0") for n, x in fl.items() if isvec(x[1])}
                base = dict(init); init[FLAG] = 1
                look = {"getFeatureDescription": 0, "getAllowedValue": 0, "getTypeDescription": 0}
                s = Writes(prog, d.graph(f, tuple(look)), ["ARG", st] if st is not None else ["ARG"] + [None] * 3, {}, look, init=init)
                out = s.go(); c.count("stores")
                bad = None
                for thr, r, lg, env in out:
                    got = None
                    for g in gets[:1]:
                        o2 = Writes(prog, d.graph(g), [st] if st is not None else [], {}, {}, init={x: env.get(x) for x in base}).go()
                        got = [x[1] for x in o2]
                    ch = {x for x in base if env.get(x) != base[x]}
                    if thr or r != 0: bad = "fails"
                    elif len(ch) != 1: bad = "changes %s" % sorted(show(x) for x in ch)
                    elif any(not isinstance(x, tuple) or x[0] != "vec" or x[-1] != "ARG" or len(x) != 3 for x in got): bad = "does not end up where %s looks" % stem
                    elif any(env.get(("param", i, f.params[i]["n"])) != 1 for i in owns(f)): bad = "does not report that it owns its argument"
                c.judge(bool(out) and bad is None, "add|%s|%s" % (f.u, st), "%s: an entry added by %s%s %s" % (f.loc(), f.q, "" if st is None else " (style %s)" % st, bad), "add " + f.q)
        elif f.name.startswith("set"):
            stem = f.name[3:]
            names = (GET.get(f.name, "get" + stem), "is" + stem, "get" + stem)
            gets = [g for n in names for g in d.methods(q, lambda g: g.name == n and not g.params)][:1]
            vals = ["ARG"]
            if not f.params: vals = [1]
            elif f.params[0]["t"].replace("const", "").strip() == "bool": vals = [0, 1]
            elif "EnParameterAggregation" in f.params[0]["t"]: vals = [enumv(prog, "uima::ConfigurationParameter", x) for x in ("SINGLE_VALUE", "MULTIPLE_VALUES")]
            for v in vals:
                init = {FLAG: 1}
                for n, x in fl.items():
                    if x[0] not in (FLAG,): init[x[0]] = ("vec", "old") if isvec(x[1]) else "old " + n if "*" not in x[1] else 0
                base = dict(init)
                s = Writes(prog, d.graph(f), [v if f.params else None], {}, {}, init=init)
                out = s.go(); c.count("stores")
                bad = None
                for thr, r, lg, env in out:
                    ch = {x: env.get(x) for x in base if env.get(x) != base[x]}
                    if f.name == "setDefaultGroupName": ch = {a: b for a, b in ch.items() if not a[2].endswith("hasDefaultGroup")}
                    want = v
                    if thr or r != 0: bad = "fails"
                    elif not ch or set(ch.values()) != {want} or len(ch) > 1: bad = "sets %s" % {show(a): b for a, b in ch.items()}
                    elif gets:
                        o2 = Writes(prog, d.graph(gets[0]), [], {}, {}, init={x: env.get(x) for x in base}).go()
                        w2 = want
                        if f.name == "setMultiValued": w2 = int(v == vals[1])
                        if any(x[0] or x[1] not in (w2, bool(w2) if isinstance(w2, int) else w2) for x in o2) or not o2: bad = "is not what %s then returns (%s)" % (gets[0].name, [x[1] for x in o2])
                c.judge(bool(out) and bad is None, "set|%s|%s" % (f.u, v), "%s: the value given to %s %s" % (f.loc(), f.q, bad), "set " + f.q)

def commits(d, fs):
    """commit marks the object and reaches every part of it"""
    prog, c = d.prog, d.c
    need = {f.cls for f in fs}
    while True:                                         # a class whose parts refuse changes
        n = {q for q in d.cls for b in prog.clsq[q][:1] for x in b["bases"] if x in need} | need
        if n == need: break
        need = n
    def partof(t):
        hit = [q for q in d.cls if q in need and any(t.replace("const ", "").rstrip(" *&>").endswith(z) for z in (q,))]
        return max(hit, key=len) if hit else None
    flow = "uima::FlowConstraints"
    for q in d.cls:
        if q not in need and q != flow: continue
        k = q; f = None
        while f is None:
            m = [g for g in prog.fns.values() if g.cls == k and g.name == "commit" and g.blocks]
            if m: f = m[0]; break
            b = prog.clsq[k][0]["bases"]
            if not b: break
            k = b[0]
        if f is None: raise AnalysisBroken("commit of %s not found" % q)
        fl = d.fields(q)
        parts = {}
        for n, x in fl.items():
            p = partof(x[1]) or (flow if "FlowConstraints *" in x[1] else None)
            if p and x[1].replace("const ", "").strip() != "": parts[n] = (x[0], x[1], p)
        for size in (0, 1, 3) if parts else (0,):
            init = {FLAG: 1}; want = []
            for n, (fo, t, p) in parts.items():
                if "map<" in t: init[fo] = ("map", n, tuple("k%d" % i for i in range(size)))
                elif isvec(t): init[fo] = ("vec",) + tuple("%s.%d" % (n, i) for i in range(size)); want += list(init[fo][1:])
                else:
                    init[fo] = n if size else 0
                    if size: want.append(n)
            flags = []
            def own(s, env, o, ov, a):
                if o == ("this",): env[FLAG] = 0             # the base class marks the object
                return env
            def look(s, env, o, ov, a): flags.append(env.get(FLAG)); return env
            if not parts and f.u in d.gs: pass
            key = (f.u, "commit")
            if key not in d.gs:
                c.fn(f)
                d.gs[key] = Graph(prog, f, inline=lambda t, fr: t.cls in d.cls and t.u != f.u and t.d.get("kind") == "method" and t.name not in ("commit", "resolveImports"), depth=3, eh="none")
            ans = {"hasDefaultGroup": 0, "isModifiable": 1}
            s = Writes(prog, d.gs[key], [], {}, ans, ("commit",), init=init, maxlog=60, effects={"resolveImports": look, "commit": own})
            out = s.go(); c.count("commits")
            bad = None
            for thr, r, lg, env in out:
                got = [e[1] for e in lg if e[1] != "this"]
                if env.get(FLAG) not in (0, False): bad = "leaves the object modifiable"
                miss = [w for w in want if w not in got]
                for n, (fo, t, p) in parts.items():
                    if "map<" in t:
                        hit = {x for x in got if isinstance(x, str) and ("|%s|" % n in x or x.startswith(n)) or (isinstance(x, tuple) and x[0] == "it" and x[1][:2] == ("map", n)) or x in ["k%d" % i for i in range(size)]}
                        m2 = [e for e in got if mapped(e, n)]
                        if len(set(map(str, m2))) < size: miss.append("%d of the %d entries of %s" % (size - len(set(map(str, m2))), size, n))
                if miss and not bad: bad = "does not commit " + ", ".join(miss[:3])
            if flags and any(x in (0, False) for x in flags): bad = "resolves imports after marking the object as committed, so the imported types are refused"
            c.judge(bool(out) and bad is None, "commit|%s|%d" % (q, size), "%s: %s (for %s) %s" % (f.loc(), f.q, q, bad), "commit %s" % q)

def mapped(e, n):
    """an element reached through the map n: its value token"""
    return "|%s|" % n in str(e) or (isinstance(e, tuple) and e and e[0] == "it" and e[1][:2] == ("map", n)) or ("('map', '%s'" % n) in str(e)

def made(d):
    """constructors define every plain member; copies carry every member"""
    prog, c = d.prog, d.c
    for q in d.cls:
        own = {x["n"]: x for x in prog.clsq[q][0]["fields"]}
        for f in sorted((f for f in prog.fns.values() if f.cls == q and f.blocks is not None and f.d.get("kind") == "ctor"), key=lambda f: f.u):
            copy = len(f.params) == 1 and q in f.params[0]["t"] and "&" in f.params[0]["t"]
            g = d.graph(f, ("getAllowedValue", "getFeatureDescription"))
            init = {FLAG: 1}
            for n, x in own.items():
                if copy: init[("f", ("param", 0, f.params[0]["n"]), q + "::" + n)] = ("vec", n + ".0", n + ".1", n + ".2") if isvec(x["t"]) else "other " + n
                if isvec(x["t"]): init[("f", ("this",), q + "::" + n)] = ("vec",)
            s = Writes(prog, g, ["OTHER"] if copy else [], {}, {}, init=init)
            s.answers = {"getAllowedValue": 0, "getFeatureDescription": 0, "get": lambda s, o, a: o, "release": lambda s, o, a: o}
            out = s.go(); c.count("constructors")
            for n, x in own.items():
                fo = ("f", ("this",), q + "::" + n)
                cls = x["t"].replace("const ", "").strip()
                plain = "*" in cls or not any(z in cls for z in ("std::", "icu", "map<", "UnicodeString")) or isvec(cls) and False
                if not copy:
                    if not plain or isvec(cls): continue
                    bad = [1 for thr, r, lg, env in out if env.get(fo) is None and not any(w[0] == fo for w in s.writes)]
                    c.judge(not bad, "defined|%s|%s" % (f.u, n), "%s: %s leaves the member %s undefined" % (f.loc(), f.q, n), "defined %s::%s" % (q, n))
                else:
                    bad = None
                    for thr, r, lg, env in out:
                        v = env.get(fo)
                        if isvec(cls):
                            o = tuple(n + ".%d" % i for i in range(3))
                            ok = v == ("vec",) + o if "*" not in cls else v == ("vec",) + tuple("new(%s)" % i for i in o)
                        else: ok = v == "other " + n
                        if not ok: bad = "the copy's %s is %s" % (n, v)
                    c.judge(bool(out) and bad is None, "copied|%s|%s" % (f.u, n), "%s: %s: %s" % (f.loc(), f.q, bad), "copied %s::%s" % (q, n))

def used(d):
    """descriptions are committed before an engine, a type system or a CAS definition is made from them"""
    prog, c = d.prog, d.c
    n = 0
    for f in sorted(prog.fns.values(), key=lambda f: f.u):
        if f.cls != "uima::internal::CASDefinition" or not f.blocks or not (f.name.startswith("create") or f.d.get("kind") == "ctor"): continue
        ps = [i for i, p in enumerate(f.params) if any(p["t"].replace("const ", "").rstrip(" &") == x for x in ("uima::AnalysisEngineDescription", "uima::AnalysisEngineMetaData", "uima::TypeSystemDescription"))]
        for i in ps:
            n += 1; c.fn(f)
            g = Graph(prog, f, inline=lambda t, fr: False, depth=1)
            if not any(x.k == "call" and x.ev[0] and last(x.ev[0]) == "mergeTypeSystem" for x in g.nodes) and f.d.get("kind") != "ctor": n -= 1; continue
            s = Writes(prog, g, ["P%d" % j for j in range(len(f.params))], {}, {"isModifiable": 1}, ("commit", "mergeTypeSystem", "addTypePriorities", "createIndexesFromSpecifier"), maxlog=40)
            bad = None
            out = s.go()
            for thr, r, lg, env in out:
                cm = [j for j, e in enumerate(lg) if e[0] == "commit" and e[1] == "P%d" % i]
                use = [j for j, e in enumerate(lg) if e[0] != "commit"]
                dele = [x for x in g.nodes if x.k == "call" and x.ev[0] and last(x.ev[0]).startswith("create") and any(a == ("param", i, f.params[i]["n"]) for a in x.ev[3])]
                if not cm and not dele: bad = "does not commit it"
                elif cm and use and use[0] < cm[0]: bad = "reads it before it is committed"
            c.judge(bool(out) and bad is None, "used|%s|%d" % (f.u, i), "%s: %s takes a modifiable description and %s" % (f.loc(), f.q, bad), "used " + f.q)
    c.count("users", n)

def run(prog, c):
    c.rule("C30: setters and adders of description objects, interpreted: committed - refuse without any effect; modifiable - the value is found by its accessor; commit reaches every part; constructors define and copies carry every member; users commit first")
    d = Desc(prog, c)
    fs = guarded(d)
    c.floor("setters", 50); c.floor("stores", 55); c.floor("commits", 25); c.floor("constructors", 20); c.floor("users", 4)
    refused(d, fs); stored(d, fs); commits(d, fs); made(d); used(d)
    c.ok()

if __name__ == "__main__": check.main("C30", run)
