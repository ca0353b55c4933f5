"""C13: configuration parameters are looked up, overridden and typed as declared"""
from sa import check
from sa.core import *
from sa.scen import Scen, last
from checks.c14 import enumv

NV = "uima::NameValuePair"; CP = "uima::ConfigurationParameter"; CG = "uima::ConfigurationGroup"; SG = "uima::SettingsForGroup"
MD = "uima::AnalysisEngineMetaData"; AD = "uima::AnalysisEngineDescription"; AC = "uima::AnnotatorContext"
CLS = (NV, CP, CG, SG, MD, AD, AC)
STR, INT, FLT, BOO = "STRING", "INTEGER", "FLOAT", "BOOLEAN"
VEC = {STR: "iv_strValues", INT: "iv_intValues", FLT: "iv_fltValues", BOO: "iv_boolValues"}
CONV = {STR: "%s", INT: "long(%s)", FLT: "double(%s)", BOO: "bool(%s)"}

def kind(t):
    t = t.replace("const", "").replace("&", "").replace("icu_74::", "").replace("icu::", "").strip()
    multi = t.startswith("std::vector<") or t.startswith("vector<")
    if multi: t = t[t.index("<") + 1:t.rindex(">")].strip()
    t = t.rstrip("* ").strip()
    k = {"bool": BOO, "int": INT, "unsigned int": INT, "size_t": INT, "unsigned long": INT, "long": INT, "float": FLT, "double": FLT}.get(t)
    if k is None and ("String" in t or "string" in t): k = STR
    return k, multi

def field(cls, n): return ("f", ("this",), cls + "::" + n)

class Check:
    def __init__(self, prog, c):
        self.prog = prog; self.c = c; self.gs = {}
        self.K = {k: enumv(prog, CP, k) for k in VEC}; self.AGG = {False: enumv(prog, CP, "SINGLE_VALUE"), True: enumv(prog, CP, "MULTIPLE_VALUES")}
    def fns(self, cls, name, n=None, want=1):
        r = [f for f in self.prog.fns.values() if f.cls == cls and f.name == name and f.blocks and (n is None or len(f.params) == n)]
        if len(r) < want: raise AnalysisBroken("%s::%s not found" % (cls, name))
        return sorted(r, key=lambda f: f.u)
    def go(self, f, params=(), fields=None, answers=None, log=(), init=None, stop=(), mustthrow=(), **kw):
        names = frozenset(list(answers or ()) + list(log) + list(stop) + list(mustthrow))
        key = (f.u, names)
        if key not in self.gs:
            self.c.fn(f)
            self.gs[key] = Graph(self.prog, f, inline=lambda t, fr: (t.cls in CLS or (t.file == f.file and t.cls in ("", None))) and t.u != f.u and last(t.q) not in names and t.q not in names and t.d.get("kind") in ("method", "func"), depth=4, eh="all", thrown="uima::ConfigException")
        fields = dict(fields or {})
        for a, b in ACCESS.items():
            if answers and a in answers and b not in fields: fields[b] = (lambda v: (lambda s, o: v(s, o, [])) if callable(v) else v)(answers[a])
        s = Scen(self.prog, self.gs[key], params, fields, answers, log, mustthrow=mustthrow, init=init, **kw)
        self.c.count("scenarios")
        out = s.go(); self.last = s
        return out
    def exact(self, f, key, out, want, what):
        """every outcome is want: (threw?, result or ANY, log or ANY)"""
        bad = None
        for thr, res, lg, env in out:
            if thr != want[0] or (want[1] is not ANY and not thr and res != want[1]) or (want[2] is not ANY and lg != want[2]): bad = (thr, res, lg); break
        if not out: bad = "never ends"
        self.c.judge(bad is None, "%s|%s" % (f.q, key), "%s: %s %s: %s" % (f.loc(), f.q, what, short(bad) if bad is not None else ""), "%s: %s" % (f.q, what))
    def names(self):
        return {"getName": lambda s, o, a: "name(%s)" % o}

ACCESS = {"hasGroups": "iv_hasGroups", "getSearchStrategy": "iv_searchStrategy", "isModifiable": "iv_bIsModifiable", "getDefaultGroupName": "iv_defaultGroup", "hasDefaultGroup": "iv_hasDefaultGroup", "getName": "iv_name", "isMandatory": "iv_mandatory", "getTaeSpecifier": "iv_pTaeSpecifier", "getAnalysisEngineMetaData": "iv_pAeMetaData"}
ANY = object()
def short(b):
    if not isinstance(b, tuple): return str(b)
    return ("throws" if b[0] else "returns %s" % (b[1],)) + (" after " + ", ".join("%s(%s)" % (e[0], ", ".join(str(x) for x in e[1:])) for e in b[2]) if b[2] else "")

def typed(k):
    """a NameValuePair only ever touches the values of its own type and multiplicity"""
    prog, c = k.prog, k.c
    conv = {"string2Long": lambda s, o, a: "long(%s)" % a[0], "string2Int": lambda s, o, a: "long(%s)" % a[0], "string2Double": lambda s, o, a: "double(%s)" % a[0], "string2Float": lambda s, o, a: "double(%s)" % a[0],
            "string2Bool": lambda s, o, a: "bool(%s)" % a[0], "asUTF8": lambda s, o, a: o, "convert": lambda s, o, a: a[0] if a else o}
    fv = {kk: field(NV, v) for kk, v in VEC.items()}
    n = 0
    fs = [f for f in prog.fns.values() if f.cls == NV and f.blocks and f.d.get("kind") == "method" and f.name.startswith(("setValue", "addValue", "extract"))]
    if len(fs) < 18: raise AnalysisBroken("the accessors of NameValuePair not found")
    for f in sorted(fs, key=lambda f: f.u):
        put = f.name.startswith(("set", "add"))
        if put: own = None if kind(f.params[0]["t"])[0] == STR else kind(f.params[0]["t"])[0]; multi = f.name.startswith("add")
        else:
            own, multi = kind(f.params[-1]["t"] if f.params else f.d["ret"])
        for kk in VEC:
            for agg in (False, True):
                init = {field(NV, "iv_enType"): k.K[kk], field(NV, "iv_enAggregation"): k.AGG[agg]}
                for x, g in fv.items(): init[g] = ("vec", x + "0")
                base = dict(init)
                par = ["P0"] if put else [("vec",)] * len(f.params)
                for p in f.params:
                    if not put: init[("param", 0, p["n"])] = ("vec",)
                out = k.go(f, par, answers=conv, init=init)
                ok = (own is None or own == kk) and multi == agg
                for thr, res, lg, env in out:
                    ch = {g: v for g, v in env.items() if isinstance(g, tuple) and any(contains(g, h) for h in fv.values()) and v != base.get(g)}
                    for g in base:
                        if env.get(g) != base[g]: ch[g] = env.get(g)
                    ch = {("idx", g[2], ("int", 0)) if g[0] == "call" and last(g[1]) == "front" else g: v for g, v in ch.items()}
                    n += 1
                    d = "%s of a %s value declared %s" % (f.name, kk, "multi-valued" if agg else "single")
                    key = "%s(%s)|%s|%s" % (f.q, kind(f.params[0]["t"]) if f.params else "", kk, agg)
                    if not ok:
                        c.judge(thr and not ch, "typed|" + key, "%s: %s does not end with an exception that leaves the values alone" % (f.loc(), d), d); continue
                    if put:
                        v = "P0" if own is not None else CONV[kk] % "P0"
                        want = {fv[kk]: ("vec", kk + "0", v)} if multi else {("idx", fv[kk], ("int", 0)): v}
                        if multi is False and ch == {fv[kk]: ("vec", v)}: want = ch
                        c.judge(not thr and ch == want and res == 0, "stored|" + key, "%s: %s does not store exactly that value: %s" % (f.loc(), d, {show(a): b for a, b in ch.items()}), d)
                    else:
                        got = env.get(("param", 0, f.params[0]["n"])) if f.params else res
                        w = ("vec", kk + "0") if multi else kk + "0"
                        if f.params and "*" in f.params[0]["t"] and isinstance(got, tuple): got = ("vec",) + tuple(str(x)[4:-1] for x in got[1:])
                        c.judge(not thr and not ch and got == w, "read|" + key, "%s: %s yields %s" % (f.loc(), d, "an exception" if thr else got), d)
    c.count("typed accesses", n)
    # define and reset
    for f in k.fns(NV, "define", 2):
        for kk in VEC:
            for agg in (False, True):
                init = {fv[x]: ("vec", "old") for x in VEC}
                init[field(NV, "iv_enType")] = 99; init[field(NV, "iv_enAggregation")] = 99
                out = k.go(f, [k.K[kk], k.AGG[agg]], init=init)
                for thr, res, lg, env in out:
                    good = not thr and env.get(field(NV, "iv_enType")) == k.K[kk] and env.get(field(NV, "iv_enAggregation")) == k.AGG[agg] and all(len(env.get(fv[x]) or ()) == (2 if x == kk and not agg else 1) and "old" not in env[fv[x]] for x in VEC)
                    c.judge(good, "define|%s|%s" % (kk, agg), "%s: NameValuePair::define of a %s %s value leaves %s" % (f.loc(), "multi-valued" if agg else "single", kk, {x: env.get(fv[x]) for x in VEC}), "define %s %s" % (kk, agg))

def assign(k):
    fs = k.fns(AC, "assignValue", want=12)
    for f in fs:
        kk, multi = kind(f.params[-1]["t"])
        if kk is None: raise AnalysisBroken("type of %s not understood" % f.u)
        grp = len(f.params) == 3
        for vals in ([("vec",), ("vec", "e1"), ("vec", "e1", "e2"), ("vec", "e1", "e2", "e3")] if multi else ["V"]):
            par = (["GRP"] if grp else []) + ["NAME", vals]
            out = k.go(f, par, answers={"setNameValuePair": 77}, log=("setName", "define", "setValue", "addValue", "setNameValuePair"), sigs=("setValue", "addValue"))
            for thr, res, lg, env in out:
                nv = [e for e in lg if e[0] == "setNameValuePair"]
                obj = nv[0][-1] if nv else None
                rest = [e for e in lg if e[0] != "setNameValuePair" and e[1] == obj]
                d = [i for i, e in enumerate(rest) if e[0] == "define"]; st = [(i, e) for i, e in enumerate(rest) if e[0] in ("setValue", "addValue")]
                good = not thr and res == 77 and len(nv) == 1 and lg[-1][0] == "setNameValuePair" and nv[0][1] == "this" and nv[0][2:-1] == (("GRP",) if grp else ())
                good = good and [e[2:] for e in rest if e[0] == "setName"] == [("NAME",)] and len(d) == 1 and rest[d[0]][2:] == (k.K[kk], k.AGG[multi]) and all(i > d[0] for i, e in st)
                exp = [("addValue", v) for v in vals[1:]] if multi else [("setValue", "V")]
                good = good and [(e[0], e[2]) for i, e in st] == exp and all(kind(e[3])[0] == kk for i, e in st)
                k.c.judge(good, "assign|%s" % f.u, "%s: %s with %s does not define a %s %s parameter with that value and hand it on: %s" % (f.loc(), f.u[:90], vals, "multi-valued" if multi else "single", kk, short((thr, res, lg))), f.u)

def extract(k):
    fs = k.fns(AC, "extractValue", want=12)
    for f in fs:
        kk, multi = kind(f.params[-1]["t"])
        byptr = "*" in f.params[-1]["t"]
        grp = len(f.params) == 3
        out_ = ("param", len(f.params) - 1, f.params[-1]["n"])
        for found in (True, False):
            ans = {"findNameValuePair": "NV" if found else 0, "getSearchStrategy": "STRAT"}
            wide = "std::string" in f.params[-1]["t"] or "std::basic_string" in f.params[-1]["t"]
            for x in ("Bool", "Int", "Float", "String", "SingleByteString"):
                ans["extract%sValue" % x] = (lambda n: lambda s, o, a: "%s(%s)" % (n, o))(x)
                if not (byptr and x == "SingleByteString"): ans["extract%sValues" % x] = (lambda n: lambda s, o, a: "%ss(%s)" % (n, o))(x)
            log = ["findNameValuePair"] + (["extractSingleByteStringValues"] if byptr else [])
            o = k.go(f, (["GRP"] if grp else []) + ["NAME", "OLD"], answers=ans, log=log, init={out_: "OLD"}, stop=("extractSingleByteStringValues",))
            for thr, res, lg, env in o:
                q = [e for e in lg if e[0] == "findNameValuePair"]
                good = not thr and len(q) == 1 and q[0][1] == "this" and q[0][2:4] == (("GRP", "NAME") if grp else ("NAME",) + tuple(q[0][3:4]))
                if good and grp: good = q[0][4] == "STRAT"
                if good: anc = q[0][5 if grp else 3:]; good = all(x in ('""', "empty|UnicodeString", None) for x in anc)
                nm = {BOO: "Bool", INT: "Int", FLT: "Float", STR: "SingleByteString" if wide else "String"}[kk]
                v = env.get(out_)
                if not found: good = good and res not in (0, None) and v == "OLD" and len(lg) == 1
                elif byptr: good = good and res == 0 and [e for e in lg if e[0] != "findNameValuePair"] == [("extractSingleByteStringValues", "NV", "OLD")]
                else: good = good and res == 0 and v == "%s%s(NV)" % (nm, "s" if multi else "")
                k.c.judge(good, "extract|%s|%s" % (f.u, found), "%s: %s, value %s: %s, output %s" % (f.loc(), f.u[:100], "found" if found else "not found", short((thr, res, lg)), v), f.u)

def find(k):
    for f in k.fns(AC, "findNameValuePair", want=2):
        n = len(f.params); par = (["GRP", "NAME", "STRAT", "ANC"] if n == 4 else ["NAME", "ANC"])
        for parent in (0, "PARENT"):
            for pv in (("PV", 0, "throw") if parent else (0,)):
                for lv in ("LV", 0, "throw"):
                    mt = (["findNameValuePair"] if pv == "throw" else []) + (["getNameValuePair"] if lv == "throw" else [])
                    out = k.go(f, par, fields={"iv_pParentAnC": parent, "iv_pTaeSpecifier": "SPEC", "iv_AnCKey": "KEY"}, answers={"findNameValuePair": 0 if pv == "throw" else pv, "getNameValuePair": 0 if lv == "throw" else lv}, log=("findNameValuePair", "getNameValuePair"), mustthrow=mt)
                    for thr, res, lg, env in out:
                        l = [e for e in lg if e[0] == "getNameValuePair"]; p = [e for e in lg if e[0] == "findNameValuePair"]
                        # a local lookup that fails is an error of the caller unless it is never made; what the parent says takes precedence
                        good = all(e[1:] == ("SPEC",) + tuple(par) for e in l) and all(e[1:] == ("PARENT",) + tuple(par[:-1]) + ("KEY",) for e in p) and len(l) <= 1 and len(p) <= 1
                        if lv == "throw": good = good and thr and len(l) == 1
                        elif pv == "PV": good = good and not thr and res == "PV" and len(p) == 1 and len(l) == 1
                        else: good = good and not thr and res == lv and len(l) == 1 and len(p) == (1 if parent else 0)
                        k.c.judge(good, "find|%d|%s|%s|%s" % (n, parent, pv, lv), "%s: %s: parent context %s, local value %s: %s" % (f.loc(), f.q, {"PV": "has a value", 0: "has no value" if parent else "none", "throw": "does not define it"}[pv], {"LV": "present", 0: "absent", "throw": "not defined"}[lv], short((thr, res, lg))), f.u)
    for f in k.fns(AC, "setNameValuePair", want=2):
        grp = len(f.params) == 2; par = ["GRP", "NV"] if grp else ["NV"]
        for parent, pe in ((0, 0), ("PARENT", 0), ("PARENT", 5)):
            for le in (0, 6):
                out = k.go(f, par, fields={"iv_pParentAnC": parent, "iv_pTaeSpecifier": "SPEC"}, answers={"setNameValuePair": lambda s, o, a: pe if o == "PARENT" else le}, log=("setNameValuePair",))
                want = ([("setNameValuePair", "PARENT") + tuple(par)] if parent else []) + ([("setNameValuePair", "SPEC") + tuple(par)] if not parent or pe else [])
                k.exact(f, "%d|%s|%s|%s" % (len(par), parent, pe, le), out, (False, 0 if parent and not pe else le, tuple(want)), "with %s, setting it there %s" % ("a parent context" if parent else "no parent context", "fails" if pe else "succeeds"))
    # the descriptor hands everything on to its metadata; a context asks its own descriptor
    for cls, nm, n in ((AD, "setNameValuePair", None), (AD, "getNameValuePair", None), (AC, "isParameterDefined", None)):
        for f in k.fns(cls, nm):
            par = ["A%d" % i for i in range(len(f.params))]
            out = k.go(f, par, fields={"iv_pAeMetaData": "META"}, answers={nm: "R", "getTaeSpecifier": "SPEC", "getAnalysisEngineMetaData": "META"}, log=(nm,))
            k.exact(f, "forward|%d" % len(par), out, (False, "R", ((nm, "META") + tuple(par) + (('""',) if cls == AC else ()),)), "hands the request on to the metadata of its descriptor")

def groups(sub): return ("map", "groups", tuple(sub))
NG, CO = "NOGROUPS", "COMMON"
GF = {"CONFIG_GROUP_NAME_WHEN_NO_GROUPS": NG, "CONFIG_GROUP_NAME_COMMON_PARMS": CO}

def metadata(k):
    c = k.c
    gf = field(MD, "iv_configurationGroups")
    # setNameValuePair(group, pair)
    for f in k.fns(MD, "setNameValuePair", 2):
        for keys in ((), (CO,), ("G",), ("G", CO), ("H", CO)):
            for inG in (False, True):
                for inC in (False, True):
                    for t, m in ((1, 0), (2, 0), (1, 1), (2, 1)):
                        has = lambda s, o, a: int((o == "v|groups|G" and inG) or (o == "v|groups|COMMON" and inC)) if a and a[0] == "name(NV)" else None
                        get = lambda s, o, a: (o.replace("v|", "p|") if has(s, o, a) else 0)
                        ans = {"getName": lambda s, o, a: "name(%s)" % o, "hasConfigurationParameter": has, "getConfigurationParameter": get,
                               "getType": lambda s, o, a: t if o == "NV" else (1 if o == "p|groups|G" else 2), "isMultiValued": lambda s, o, a: m if o == "NV" else (0 if o == "p|groups|G" else 1)}
                        out = k.go(f, ["G", "NV"], fields=GF, answers=ans, log=("addNameValuePair",), init={gf: groups(keys)})
                        if "G" in keys and inG: ok = (t, m) == (1, 0)
                        elif "G" in keys and CO in keys and inC: ok = (t, m) == (2, 1)
                        else: ok = False
                        for thr, res, lg, env in out:
                            good = not thr and (res == 0) == ok and res is not None and len(lg) == (1 if ok else 0)
                            if ok and good: good = lg[0][1:3] == ("this", "G") and lg[0][3] == "new(NV)"
                            c.judge(good, "set|%s|%s%s|%d%d" % (keys, inG, inC, t, m), "%s: %s: groups %s, defined in the group: %s, as common parameter: %s, type and multiplicity %s: %s" % (f.loc(), f.q, list(keys), inG, inC, "equal" if ok else "different or parameter not defined", short((thr, res, lg))), f.q)
    for f in k.fns(MD, "setNameValuePair", 1):
        for h in (0, 1):
            out = k.go(f, ["NV"], fields=dict(GF, iv_defaultGroup="DEF"), answers={"hasGroups": h, "getDefaultGroupName": "DEF", "setNameValuePair": 9}, log=("setNameValuePair",))
            k.exact(f, "set1|%d" % h, out, (False, 9, (("setNameValuePair", "this", "DEF" if h else NG, "NV"),)), "without a group name, parameters %s" % ("in groups" if h else "not in groups"))
    for f in k.fns(MD, "getGroupNameWhenNotSpec", 0):
        for h in (0, 1):
            for d in (0, 1):
                out = k.go(f, [], fields=dict(GF, iv_defaultGroup="DEF", iv_hasGroups=h, iv_hasDefaultGroup=d))
                k.exact(f, "nogroup|%d%d" % (h, d), out, (bool(h and not d), "DEF" if h else NG, ANY), "has groups: %d, has a default group: %d" % (h, d))
    # lookup with fallback
    def gen(n):
        def eff(s, env, o, ov, a):
            v = env.get(a[2], ("vec",)); env[a[2]] = v + tuple("F%d" % i for i in range(n)); return env
        return eff
    for f in k.fns(MD, "getNameValuePair", 4):
        for n in (0, 1, 2, 3):
            for hit in range(-1, n + 1):                       # -1: nowhere, 0: the group itself, i: the i-th fallback
              for more in (False, True):
                for dfn in (range(-1, n + 1) if hit < 0 else (0,)):
                    at = {"G": 0}; at.update({"F%d" % i: i + 1 for i in range(n)})
                    def val(s, o, a):
                        if a[1:] != ["NAME", "ANC"]: return "wrong arguments"
                        i = at.get(a[0], 99)
                        return "val%d" % i if i == hit or (more and hit >= 0 and hit < i < 90) else 0
                    ans = {"getNameValuePairNoFallback": val, "isParameterDefined": lambda s, o, a: int(dfn >= 0 and at.get(a[0], 99) == dfn and a[1:] == ["NAME", "ANC"]), "hasGroups": 1, "generateFallbackGroups": None}
                    out = k.go(f, ["G", "NAME", "STRAT", "ANC"], answers=ans, effects={"generateFallbackGroups": gen(n)}, log=("generateFallbackGroups",))
                    for thr, res, lg, env in out:
                        good = (thr and dfn < 0 and hit < 0) or (not thr and res == ("val%d" % hit if hit >= 0 else 0) and (hit >= 0 or dfn >= 0))
                        if lg: good = good and lg[0][1:4] == ("this", "G", "STRAT")
                        c.judge(good, "lookup|%d|%d|%d" % (n, hit, dfn), "%s: %s with %d fallback groups, value %s, parameter %s: %s" % (f.loc(), f.q, n, "nowhere" if hit < 0 else "in group %d of the search order" % hit, "defined" if hit >= 0 or dfn >= 0 else "not defined", short((thr, res, lg))), f.q)
    for f in k.fns(MD, "getNameValuePair", 2):
        for thrown in (False, True):
            out = k.go(f, ["NAME", "ANC"], answers={"getGroupNameWhenNotSpec": "DG", "getSearchStrategy": "STRAT", "getNameValuePair": "R"}, log=("getNameValuePair",), mustthrow=("getGroupNameWhenNotSpec",) if thrown else ())
            if thrown: k.exact(f, "lookup1t", out, (True, ANY, ()), "without a default group")
            else: k.exact(f, "lookup1", out, (False, "R", (("getNameValuePair", "this", "DG", "NAME", "STRAT", "ANC"),)), "without a group name")
    # the fallback groups
    S = {n: enumv(k.prog, MD, n) for n in ("NONE", "DEFAULT_FALLBACK", "LANGUAGE_FALLBACK")}
    for f in k.fns(MD, "generateFallbackGroups", 3):
        for st in S:
            for dashes in ((), (2,), (2, 5), (2, 4, 6)):
                def lio(s, o, a):
                    if o != "GRP" or a[0] not in ('"-"', 45): return None
                    lim = a[2] if len(a) == 3 else 99
                    if lim is None or (len(a) > 1 and a[1] not in (0, None)): return None
                    p = [x for x in dashes if x < lim]
                    return p[-1] if p else -1
                def cut(s, env, o, ov, a):
                    x, y = s.val(a[0], env), s.val(a[1], env)
                    if ov == "GRP" and len(a) == 3 and a[2] is not None: env[a[2]] = "pre(%s,%s)" % (x, y)
                    return env
                out = k.go(f, ["GRP", S[st], ("vec",)], answers={"lastIndexOf": lio, "getDefaultGroupName": "DEF", "tempSubString": lambda s, o, a: "pre(%s,%s)" % (a[0], a[1]) if len(a) == 2 else None, "tempSubStringBetween": lambda s, o, a: "pre(%s,%s)" % (a[0], a[1]) if len(a) == 2 else None}, effects={"extract": cut}, init={("param", 2, f.params[2]["n"]): ("vec",)})
                want = () if st == "NONE" else ("DEF",) if st == "DEFAULT_FALLBACK" else tuple("pre(0,%d)" % d for d in reversed(dashes)) + ("DEF",)
                for thr, res, lg, env in out:
                    v = env.get(("param", 2, f.params[2]["n"]))
                    if isinstance(v, tuple): v = tuple("pre(%s,%s)" % x[3:] if isinstance(x, tuple) and x[0] == "made" and x[2] == "GRP" and len(x) == 5 else x for x in v)
                    c.judge(not thr and v == ("vec",) + want, "fallback|%s|%d" % (st, len(dashes)), "%s: %s: strategy %s, a group name with %d dashes: the groups searched are %s, not %s" % (f.loc(), f.q, st, len(dashes), v, list(want)), f.q)
                if not out: c.bad("fallback|%s|%d" % (st, len(dashes)), "%s: %s does not end" % (f.loc(), f.q))
    # definedness
    for f in k.fns(MD, "isParameterDefined", 3):
        for keys in ((), ("G",), (CO,), ("G", CO), ("H",)):
            for inG in (0, 1):
                for inC in (0, 1):
                    for vG, vC in ((1, 0), (0, 1)):
                        ans = {"getConfigurationParameter": lambda s, o, a: None if a != ["NAME"] else ("pG" if o == "v|groups|G" and inG else "pC" if o == "v|groups|COMMON" and inC else 0),
                               "hasConfigurationParameter": lambda s, o, a: None if a != ["NAME"] else int(o == "v|groups|G" and inG or o == "v|groups|COMMON" and inC),
                               "isDefinedForAnnotatorContext": lambda s, o, a: None if a != ["ANC"] else (vG if o == "pG" else vC if o == "pC" else None)}
                        out = k.go(f, ["G", "NAME", "ANC"], fields=GF, answers=ans, init={gf: groups(keys)})
                        w = vG if "G" in keys and inG else vC if CO in keys and inC else 0
                        k.exact(f, "defined|%s|%d%d%d" % (keys, inG, inC, vG), out, (False, w, ANY), "groups %s, the group defines it: %d, common parameter: %d, visible to the caller: %d" % (list(keys), inG, inC, w))
    for f in k.fns(MD, "isParameterDefined", 2):
        out = k.go(f, ["NAME", "ANC"], fields=GF, answers={"isParameterDefined": "R"}, log=("isParameterDefined",))
        k.exact(f, "defined2", out, (False, "R", (("isParameterDefined", "this", NG, "NAME", "ANC"),)), "without a group name")
    for f in k.fns(CP, "isDefinedForAnnotatorContext", 1):
        vf = field(CP, "iv_vecRestrictedToDelegates")
        for v in ((), ("D1",), ("D1", "D2"), ("D1", "D2", "D3")):
            for a in ('""', "D1", "D2", "D3", "X"):
                out = k.go(f, [a], init={vf: ("vec",) + v})
                k.exact(f, "restricted|%d|%s" % (len(v), a), out, (False, int(not v or a == '""' or a in v), ANY), "restricted to %s, asked for %s" % (list(v), a))
    for f in k.fns(MD, "getNameValuePairNoFallback", 3):
        for h in (0, 1):
            for g in ("G", NG):
                for v in (0, "V"):
                    for d in (0, 1):
                        ans = {"hasGroups": h, "getNameValuePairPtr": lambda s, o, a: v if a == [g, "NAME"] else None, "isParameterDefined": lambda s, o, a: d if a == [g, "NAME", "ANC"] else None}
                        out = k.go(f, [g, "NAME", "ANC"], fields=GF, answers=ans)
                        t = (not h and g != NG) or (v == "V" and not d)
                        k.exact(f, "nofallback|%d%s%s%d" % (h, g, v, d), out, (bool(t), ANY if t else v, ANY), "parameters %s, group name %s, value %s, parameter %s" % ("in groups" if h else "not in groups", "given" if g == "G" else "not given", "present" if v else "absent", "visible" if d else "not visible"))
    sf = field(MD, "iv_configurationSettings")
    for f in k.fns(MD, "getNameValuePairPtr", 2):
        for keys in ((), ("H",), ("G", "H")):
            out = k.go(f, ["G", "NAME"], init={sf: ("map", "settings", keys)}, answers={"getNameValuePair": lambda s, o, a: "%s.%s" % (o, a[0])})
            k.exact(f, "ptr|%s" % (keys,), out, (False, "v|settings|G.NAME" if "G" in keys else 0, ANY), "settings of groups %s" % list(keys))
    for f in k.fns(MD, "addNameValuePair", 2):
        for d in (0, 1):
            for h in (0, 1):
                for keys in (("G", "H"), ("H",)):
                    ans = {"getName": lambda s, o, a: "name(%s)" % o, "isParameterDefined": lambda s, o, a: d if a == ["G", "name(NV)", '""'] else None, "hasGroups": h}
                    out = k.go(f, ["G", "NV"], init={sf: ("map", "settings", keys)}, answers=ans, log=(SG + "::addNameValuePair",))
                    for thr, res, lg, env in out:
                        good = thr and not lg and env.get(sf) == ("map", "settings", keys) if not d else not thr and lg == (("addNameValuePair", "v|settings|G", "NV"),) and set(env[sf][2]) == set(keys) | {"G"}
                        c.judge(good, "add|%d%d%s" % (d, h, keys), "%s: %s of a parameter that is %s: %s" % (f.loc(), f.q, "defined" if d else "not defined", short((thr, res, lg))), f.q)
    for f in k.fns(SG, "addNameValuePair", 1):
        mf = field(SG, "iv_nameValuePairs")
        for old in (0, "OLD"):
            out = k.go(f, ["NV"], init={mf: ("map", "nv", ("name(NV)",) if old else ())}, answers={"getName": lambda s, o, a: "name(%s)" % o, "getNameValuePair": lambda s, o, a: old if a == ["name(NV)"] else None})
            for thr, res, lg, env in out:
                st = [v for g, v in env.items() if g[0] == "idx" and g[1] == mf]
                c.judge(not thr and st == ["NV"] and env[mf][2] == ("name(NV)",), "keep|%s" % old, "%s: %s does not keep the new value under its name (%s)" % (f.loc(), f.q, st), f.q)
    for cls, nm, fld in ((SG, "getNameValuePair", "iv_nameValuePairs"), (CG, "getConfigurationParameter", "iv_configParams")):
        for f in k.fns(cls, nm, 1):
            for keys in ((), ("X",), ("NAME", "X")):
                out = k.go(f, ["NAME"], init={field(cls, fld): ("map", "m", keys)})
                k.exact(f, "get|%s" % (keys,), out, (False, "v|m|NAME" if "NAME" in keys else 0, ANY), "entries %s" % list(keys))
    for f in k.fns(CG, "hasConfigurationParameter", 1):
        for keys in ((), ("X",), ("NAME", "X")):
            out = k.go(f, ["NAME"], init={field(CG, "iv_configParams"): ("map", "m", keys)})
            k.exact(f, "has|%s" % (keys,), out, (False, int("NAME" in keys), ANY), "entries %s" % list(keys))
    for f in k.fns(CG, "addConfigurationParameter", 1):
        mf = field(CG, "iv_configParams")
        out = k.go(f, ["P"], answers={"getName": lambda s, o, a: "name(%s)" % o, "isModifiable": 1}, init={mf: ("map", "m", ())})
        for thr, res, lg, env in out:
            st = [v for g, v in env.items() if g[0] == "idx" and g[1] == mf]
            c.judge(not thr and res == 0 and st == ["P"] and env[mf][2] == ("name(P)",), "define|group", "%s: %s does not keep the parameter under its name" % (f.loc(), f.q), f.q)
    # definitions
    for f in k.fns(MD, "addConfigurationParameter", 2):
        for mod in (0, 1):
            for g in ("G", NG):
                for keys in (("G", NG), ()):
                    for d in (0, 1):
                        ans = {"getName": lambda s, o, a: "name(%s)" % o, "isModifiable": mod, "isParameterDefined": lambda s, o, a: d if a[:2] == [g, "name(P)"] else None, CG + "::addConfigurationParameter": 55}
                        out = k.go(f, [g, "P"], fields=GF, answers=ans, log=(CG + "::addConfigurationParameter",), init={gf: groups(keys), field(MD, "iv_hasGroups"): 0})
                        for thr, res, lg, env in out:
                            if not mod: good = not thr and res not in (0, None) and not lg and env[gf] == groups(keys)
                            elif d: good = thr and not lg
                            else: good = not thr and res == 55 and lg == (("addConfigurationParameter", "v|groups|" + g, "P"),) and env.get(field(MD, "iv_hasGroups")) == int(g != NG) and set(env[gf][2]) == set(keys) | {g}
                            c.judge(good, "define|%d%s%d%d" % (mod, g, len(keys), d), "%s: %s, descriptor %s, parameter %s: %s" % (f.loc(), f.q, "modifiable" if mod else "committed", "already defined" if d else "new", short((thr, res, lg))), f.q)
    for f in k.fns(MD, "getConfigurationGroupNames", 0):
        for keys in ((), (CO,), ("A", CO, "B"), (NG,)):
            out = k.go(f, [], fields=GF, init={gf: groups(keys)})
            k.exact(f, "names|%s" % (keys,), out, (False, ("vec",) + tuple(x for x in keys if x != CO), ANY), "of groups %s" % list(keys))
    for f in k.fns(MD, "getConfigurationParameters", 1):
        for g in ("G", CO):
            for keys in ((), ("G",), ("G", CO)):
                for n in (0, 2):
                    ans = {CG + "::getConfigurationParameters": lambda s, o, a: ("vec",) + tuple("%s%d" % (o, i) for i in range(n)), MD + "::getConfigurationParameters": lambda s, o, a: ("vec", "c1", "c2") if a == [CO] and CO in keys else ("vec",)}
                    out = k.go(f, [g], fields=GF, answers=ans, init={gf: groups(keys)})
                    own = tuple("v|groups|%s%d" % (g, i) for i in range(n)) if g in keys else None
                    w = () if own is None else own + (("c1", "c2") if g != CO and CO in keys else ())
                    k.exact(f, "params|%s%s%d" % (g, keys, n), out, (False, ("vec",) + w, ANY), "group %s of %s" % (g, list(keys)))
    # mandatory parameters have values
    for f in k.fns(MD, "validate", 0):
        for ng, np in ((1, 1), (2, 2), (0, 0)):
            gs = ["G%d" % i for i in range(ng)]; ps = ["p%d" % i for i in range(np)]
            for miss in [None] + [(g, p) for g in gs for p in ps]:
                for mand in (1, 0):
                    ans = {"getConfigurationGroupNames": ("vec",) + tuple(gs), "getConfigurationParameters": lambda s, o, a: ("vec",) + tuple("%s.%s" % (a[0], p) for p in ps), "isMandatory": lambda s, o, a: mand if miss and o == "%s.%s" % miss else 1,
                           "getName": lambda s, o, a: "name(%s)" % o, "getSearchStrategy": "STRAT", "getNameValuePair": lambda s, o, a: None if a[2:3] != ["STRAT"] or a[1] is None or not a[1].startswith("name(%s." % a[0]) else (0 if miss and a[1] == "name(%s.%s)" % miss else "V"),
                           "hasGroups": 1, "getTypeSystemDescription": "TSD", "getCapabilites": ("vec",), "getFSIndexDescriptions": ("vec",)}
                    out = k.go(f, [], answers=ans, stop=("uima::TypeSystemDescription::validate",))
                    k.exact(f, "mandatory|%d%d|%s|%d" % (ng, np, miss, mand), out, (bool(miss and mand), ANY, ANY), "%d groups with %d parameters, %s" % (ng, np, "a value missing for a %s parameter" % ("mandatory" if mand else "optional") if miss else "every parameter has a value"))

def run(prog, c):
    k = Check(prog, c)
    c.rule("Abstract execution over symbolic values (no code is run): every accessor of a parameter value touches only the store of its declared type and multiplicity or throws; assignValue/extractValue define and read with the kind of their argument; a parent context's value wins and is set first; lookup tries the group, then the fallback groups in order, and only then reports the parameter as missing or undefined; a value is accepted only for a defined parameter of the same type and multiplicity; mandatory parameters need a value.")
    typed(k); assign(k); extract(k); find(k); metadata(k)
    c.floor("scenarios", 500); c.floor("typed accesses", 100)
