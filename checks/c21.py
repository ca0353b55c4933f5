"""C21: a descriptor's elements and attributes arrive in the description objects, whatever their order and the noise around them"""
from sa import check
from sa.core import *
from sa.scen import Scen, last
from sa import scen
from checks.c14 import enumv

XP = "uima::XMLParser"
AED = "uima::AnalysisEngineDescription"; AEM = "uima::AnalysisEngineMetaData"; TSD = "uima::TypeSystemDescription"; TD = "uima::TypeDescription"
CP = "uima::ConfigurationParameter"; FID = "uima::FSIndexDescription"; FIK = "uima::FSIndexKeyDescription"; CAP = "uima::Capability"

# ---------------------------------------------------------------- documents
class Doc:
    """an XML tree as the DOM shows it: atoms #0, #1 ... with type, name, children, attributes"""
    def __init__(self, tree, noise):
        self.n = []; self.noise = noise; self.root = self.add(tree)
    def add(self, t):
        i = "#%d" % len(self.n)
        if isinstance(t, str): self.n.append((3, "#text", (), {}, t)); return i
        if t[0] == "!": self.n.append((t[1], t[2], (), {}, t[3])); return i
        tag, at, kids = t
        self.n.append(None)
        ks = []
        leaf = len(kids) == 1 and isinstance(kids[0], str)
        if self.noise and not leaf: ks += [self.add(("!", 3, "#text", "\n ")), self.add(("!", 8, "#comment", "c"))]
        for k in kids:
            ks.append(self.add(k))
            if self.noise and not leaf: ks.append(self.add(("!", 3, "#text", "\n ")))
        self.n[int(i[1:])] = (1, tag, tuple(ks), at, None)
        return i
    def text(self, i):
        return "".join(self.n[int(k[1:])][4] or "" for k in self.n[int(i[1:])][2] if self.n[int(k[1:])][0] == 3).strip()

def E(tag, *kids, **at): return (tag, at, list(kids))

# ---------------------------------------------------------------- interpretation of a builder on a document
class Parse(Scen):
    lim = 100
    def __init__(self, prog, g, doc, params, logn, over=None, init=None):
        self.doc = doc
        def node(i): return doc.n[int(i[1:])] if isinstance(i, str) and i[:1] == "#" and i[1:].isdigit() else None
        def q(x): return '"%s"' % x
        def kids(s, o, a): return ("vec",) + node(o)[2] if node(o) else None
        def attr(s, o, a):
            if not node(o) or not isinstance(a[0], str): return None
            return q(node(o)[3].get(a[0].strip('"'), ""))
        def sib(d):
            def f(s, o, a):
                for n in doc.n:
                    if n and o in n[2]:
                        i = n[2].index(o) + d
                        return n[2][i] if 0 <= i < len(n[2]) else 0
                return 0
            return f
        def lastlog(name):
            def f(s, o, a):
                for e in reversed(s.env.get(s.LOG, ())):
                    if e[0] == name and e[1] == o: return e[2]
                return 0
            return f
        A = {"getChildNodes": kids, "hasChildNodes": lambda s, o, a: int(bool(node(o)[2])) if node(o) else None, "getLength": lambda s, o, a: len(o) - 1 if isinstance(o, tuple) and o[0] == "vec" else None,
             "item": lambda s, o, a: o[1 + a[0]] if isinstance(o, tuple) and o[0] == "vec" and isinstance(a[0], int) and 0 <= a[0] < len(o) - 1 else 0 if isinstance(a[0], int) else None,
             "getNodeType": lambda s, o, a: node(o)[0] if node(o) else None, "getNodeName": lambda s, o, a: q(node(o)[1]) if node(o) else None, "getTagName": lambda s, o, a: q(node(o)[1]) if node(o) else None,
             "getLocalName": lambda s, o, a: q(node(o)[1]) if node(o) else None,
             "getFirstChild": lambda s, o, a: (node(o)[2] or (0,))[0] if node(o) else None, "getLastChild": lambda s, o, a: (node(o)[2] or (0,))[-1] if node(o) else None, "getNextSibling": sib(1), "getPreviousSibling": sib(-1),
             "getNodeValue": lambda s, o, a: q(node(o)[4]) if node(o) and node(o)[4] is not None else 0, "getAttribute": attr, "hasAttribute": lambda s, o, a: int(attr(s, o, a) != '""'),
             "getSpannedText": lambda s, o, a: q(doc.text(a[0])) if node(a[0]) else None, "getTextContent": lambda s, o, a: q(doc.text(o)) if node(o) else None,
             "convert": lambda s, o, a: a[0] if a else None, "transcode": lambda s, o, a: a[0] if a else None,
             "compareString": lambda s, o, a: None if None in a[:2] else int(a[0] != a[1]), "equals": lambda s, o, a: None if None in a[:2] else int(a[0] == a[1]),
             "length": lambda s, o, a: len(o) - 2 if isinstance(o, str) and o[:1] == '"' else None, "stringLen": lambda s, o, a: len(a[0]) - 2 if isinstance(a[0], str) and a[0][:1] == '"' else None,
             "isEmpty": lambda s, o, a: int(o == '""') if isinstance(o, str) else None,
             "asUTF8": lambda s, o, a: o, "get": lambda s, o, a: o, "release": lambda s, o, a: o, "operator->": lambda s, o, a: s.at(o) if isinstance(o, tuple) and o and o[0] == "it" else o,
             "getTypeSystemDescription": lastlog("setTypeSystemDescription"), "getAnalysisEngineMetaData": lastlog("setAnalysisEngineMetaData"), "getName": lambda s, o, a: "name(%s)" % (o,), "getAnnotatorName": 0,
             "resolveFilename": lambda s, o, a: "resolved(%s,%s)" % (a[0], a[1]), "getTypeDescriptionConst": 0, "getTypeDescription": 0, "getNameValuePairNoFallback": 0, "getNameValuePair": lambda s, o, a: "OLD" if len(a) > 2 else 0}
        A.update(over or {})
        def own(s, env, o, ov, a):
            if len(a) > 1: env[a[1]] = 1
            return env
        def split(s, env, o, ov, a):
            v = s.val(a[1], env)
            env[a[0]] = ("vec",) + tuple(q(x) for x in v[1:-1].split()) if isinstance(v, str) and v[:1] == '"' else None
            return env
        def cat(s, env, o, ov, a):
            v = s.val(a[-1], env); p = s.val(o, env) if o is not None else s.val(a[0], env)
            if isinstance(v, int): v = '"%s"' % chr(v)
            env[o if o is not None else a[0]] = '"%s%s"' % (p[1:-1], v[1:-1]) if isinstance(p, str) and isinstance(v, str) and p[:1] == v[:1] == '"' else None
            return env
        def trim(s, env, o, ov, a):
            if isinstance(ov, str): env[o] = '"%s"' % ov[1:-1].strip()
            return env
        A = {k_: v_ for k_, v_ in A.items() if v_ is not None}
        Scen.__init__(self, prog, g, params, {}, A, logn, init=init, maxlog=500, effects={"addTypeDescription": own, "addImportDescription": own, "addFeatureDescription": own, "addAllowedValue": own, "delimitedString2Vector": split, "operator+=": cat, "append": cat, "trim": trim})
    def val(self, f, env):
        if f is not None and f not in env:
            if f[0] == "g":
                t = self.prog.strs.get(f[1])
                if t is not None: return '"%s"' % t
            if f[0] == "ctor":
                n = last(f[1])
                if n in ("UnicodeString", "string", "basic_string") or n.startswith("basic_string"):
                    if not f[2]: return '""'
                    return self.norm(self.val(f[2][0], env))
        return Scen.val(self, f, env)
    CNT = ("count",)
    def visit(self, n, env):
        if n.k == "new":
            t = n.ev[1].split("::")[-1]
            k = env.get(self.CNT, 0); env[self.CNT] = k + 1
            env[n.ev[0]] = "%s@%d" % (t, k)
            return env
        if n.k == "set" and n.ev[0] is None: return None
        if n.k == "call" and n.ev[0] and "::DOM" in n.ev[0] and n.ev[2] is not None and self.val(n.ev[2], env) == 0: env[("null",)] = 1
        return Scen.visit(self, n, env)

def tree(root, log):
    """what the objects end up with: {setter: [values]} with objects replaced by their own contents"""
    obs = {}
    for e in log:
        obs.setdefault(e[1], {}).setdefault(e[0], []).append(tuple(e[2:]))
    def t(o, depth=0):
        if isinstance(o, str) and "@" in o or o == root:
            return (o.split("@")[0] if o != root else "ROOT", tuple(sorted((k, tuple(tuple(t(x, depth + 1) if depth < 9 else x for x in a) for a in v)) for k, v in obs.get(o, {}).items())))
        if o is True: return 1
        if o is False: return 0
        return o
    return t(root)

# ---------------------------------------------------------------- what the document means
class Spec:
    def __init__(self, prog):
        e = lambda c, n: enumv(prog, c, n)
        T = lambda x: '"%s"' % x
        B = lambda x: int(x == "true")
        def en(c, d):
            return lambda x: e(c, d[x]) if x in d else None
        def multi(x): return B(x)
        self.obj = {
          "aemd": ("AnalysisEngineMetaData", {"name": ("set", "setName", T), "description": ("set", "setDescription", T), "version": ("set", "setVersion", T), "vendor": ("set", "setVendor", T),
                   "typeSystemDescription": ("into", "setTypeSystemDescription", "tsd"), "flowConstraints": ("flow",), "operationalProperties": ("obj", "setOperationalProperties", "op"),
                   "capabilities": ("each", "addCapability", "cap"), "typePriorities": ("merge", "prios"), "fsIndexes": ("each", "addFSIndexDescription", "index"), "fsIndexCollection": ("merge", "coll"),
                   "configurationParameters": ("merge", "params"), "configurationParameterSettings": ("merge", "settings")}),
          "op": ("OperationalProperties", {"modifiesCas": ("set", "setModifiesCas", B), "multipleDeploymentAllowed": ("set", "setMultipleDeploymentAllowed", B), "outputsNewCASes": ("set", "setOutputsNewCASes", B)}),
          "cap": ("Capability", {"inputs": ("cap", "INPUT"), "outputs": ("cap", "OUTPUT"), "inputSofas": ("cap", "INPUTSOFA"), "outputSofas": ("cap", "OUTPUTSOFA"), "languagesSupported": ("texts", "addSupportedLanguage")}),
          "coll": (None, {"fsIndexes": ("each", "addFSIndexDescription", "index"), "imports": ("imports", "buildFSIndexFromImportLocation")}),
          "prios": (None, {"priorityList": ("obj", "addTypePriority", "prio"), "imports": ("imports", "buildTypePriorityFromImportLocation")}),
          "prio": ("TypePriority", {"type": ("set", "addType", T)}),
          "index": ("FSIndexDescription", {"label": ("set", "setLabel", T), "typeName": ("set", "setTypeName", T), "kind": ("set", "setIndexKind", en(FID, {"sorted": "SORTED", "bag": "BAG", "set": "SET"})), "keys": ("each", "addFSIndexKey", "key")}),
          "key": ("FSIndexKeyDescription", {"featureName": ("set", "setFeatureName", T), "comparator": ("set", "setComparator", en(FIK, {"standard": "STANDARD", "reverse": "REVERSE"})), "typePriority": ("call", "setIsTypePriority")}),
          "tsd": ("TypeSystemDescription", {"types": ("each", "addTypeDescription", "type"), "imports": ("each", "addImportDescription", "import"), "import": ("obj", "addImportDescription", "import")}),
          "import": ("ImportDescription", {}),
          "type": ("TypeDescription", {"name": ("set", "setName", T), "supertypeName": ("set", "setSuperTypeName", T), "description": ("set", "setDescription", T), "features": ("each", "addFeatureDescription", "feat"), "allowedValues": ("each", "addAllowedValue", "allowed")}),
          "feat": ("FeatureDescription", {"name": ("set", "setName", T), "rangeTypeName": ("set", "setRangeTypeName", T), "elementType": ("set", "setElementType", T), "description": ("set", "setDescription", T), "multipleReferencesAllowed": ("settrue", "setMultipleReferencesAllowed")}),
          "allowed": ("AllowedValue", {"string": ("set", "setName", T), "description": ("set", "setDescription", T)}),
          "param": ("ConfigurationParameter", {"name": ("set", "setName", T), "description": ("set", "setDescription", T), "type": ("set", "setType", en(CP, {"Boolean": "BOOLEAN", "Float": "FLOAT", "Integer": "INTEGER", "String": "STRING"})),
                    "mandatory": ("set", "setMandatory", B), "multiValued": ("set", "setMultiValued", multi), "restrictOverrideTo": ("words", "addRestriction")}),
          "nvp": ("NameValuePair", {"name": ("set", "setName", T), "value": ("value",)}),
          "sofamap": ("SofaMapping", {"componentKey": ("set", "setComponentKey", T), "componentSofaName": ("set", "setComponentSofaName", T), "aggregateSofaName": ("set", "setAggregateSofaName", T)}),
          "ae": ("AnalysisEngineDescription", {"primitive": ("set", "setPrimitive", B), "annotatorImplementationName": ("set", "setAnnotatorImpName", T), "implementationName": ("set", "setAnnotatorImpName", T),
                 "analysisEngineMetaData": ("meta",), "processingResourceMetaData": ("meta",), "frameworkImplementation": ("setif", "setFrameworkImplName", en(AED, {"org.apache.uima.cpp": "CPLUSPLUS", "org.apache.uima.java": "JAVA"})),
                 "sofaMappings": ("each", "addSofaMapping", "sofamap"), "delegateAnalysisEngineSpecifiers": ("delegates",), "externalResources": ("none",), "externalResourceDependencies": ("none",), "resourceManagerConfiguration": ("none",)}),
          "params": (None, {"commonParameters": ("each", "addCommonParameter", "param"), "configurationParameter": ("obj", "addConfigurationParameter", "param"), "configurationGroup": ("group", "names", "addConfigurationParameter", "param")}),
          "settings": (None, {"nameValuePair": ("obj", "addNameValuePair", "nvp"), "settingsForGroup": ("group", "name", "addNameValuePair", "nvp")}),
        }
        self.e = e; self.T = T; self.B = B
        self.stdout = []
    def text(self, el): return "".join(k for k in el[2] if isinstance(k, str)).strip()
    def obj_(self, kind, el):
        d = {}
        self.fill(kind, el, d)
        return (self.obj[kind][0], tuple(sorted((k, tuple(v)) for k, v in d.items())))
    def fill(self, kind, el, d):
        """adds to d what the children of el mean for an object of this kind"""
        def put(s, *v): d.setdefault(s, []).append(tuple(v))
        if kind == "import":
            if el[1].get("location"): put("setLocation", self.T(el[1]["location"]))
            else: put("setName", self.T(el[1]["name"]))
            return
        if kind == "params":
            if el[1].get("defaultGroup"): put("setDefaultGroupName", self.T(el[1]["defaultGroup"]))
            s = {"none": "NONE", "default_fallback": "DEFAULT_FALLBACK", "language_fallback": "LANGUAGE_FALLBACK"}.get(el[1].get("searchStrategy"))
            if s: put("setSearchStrategy", self.e(AEM, s))
        tab = self.obj[kind][1]; tsd = None
        for k in el[2]:
            if isinstance(k, str) or k[0] not in tab: continue
            h = tab[k[0]]
            if h[0] == "set": put(h[1], h[2](self.text(k)))
            elif h[0] == "setif":
                if h[2](self.text(k)) is not None: put(h[1], h[2](self.text(k)))
            elif h[0] == "settrue":
                if self.text(k) == "true": put(h[1], 1)
            elif h[0] == "call": put(h[1])
            elif h[0] == "texts":
                for x in k[2]: put(h[1], self.T(self.text(x)))
            elif h[0] == "words":
                for x in self.text(k).split(): put(h[1], self.T(x))
            elif h[0] == "obj":
                own = (("own",),) if h[1] in OWN else ()
                put(h[1], self.obj_(h[2], k))
            elif h[0] == "each":
                for x in k[2]: put(h[1], self.obj_(h[2], x))
            elif h[0] == "group":
                for x in k[2]:
                    for gname in k[1][h[1]].split(): put(h[2], self.T(gname), self.obj_(h[3], x))
            elif h[0] == "merge": self.fill(h[1], k, d)
            elif h[0] == "into":
                if tsd is None: tsd = {}
                self.fill(h[2], k, tsd)
            elif h[0] == "flow":
                r = 0
                for x in k[2]:
                    if x[0] in ("fixedFlow", "capabilityLanguageFlow"):
                        r = ("FixedFlow" if x[0] == "fixedFlow" else "CapabilityLanguageFlow", (("addNode", tuple((self.T(self.text(y)),) for y in x[2])),) if x[2] else ())
                put("setFlowConstraints", r)
            elif h[0] == "cap":
                st = self.e(CAP, h[1])
                for x in k[2]:
                    if x[0] == "type": put("addCapabilityType", self.T(self.text(x)), st)
                    if x[0] == "feature": put("addCapabilityFeature", self.T(self.text(x)), st)
                    if x[0] == "sofaName": put("addCapabilitySofa", self.T(self.text(x)), st)
            elif h[0] == "value":
                for x in k[2]:
                    ty = {"string": "STRING", "integer": "INTEGER", "float": "FLOAT", "boolean": "BOOLEAN"}
                    if x[0] == "array":
                        put("define", self.e(CP, ty[x[2][0][0]]), self.e(CP, "MULTIPLE_VALUES"))
                        for y in x[2]: put("addValue", self.T(self.text(y)))
                    else:
                        put("define", self.e(CP, ty[x[0]]), self.e(CP, "SINGLE_VALUE")); put("setValue", self.T(self.text(x)))
            elif h[0] == "imports":
                for x in k[2]: put(h[1], self.T(x[1]["location"]), "LOC")
            elif h[0] == "meta":
                put("setAnalysisEngineMetaData", self.obj_("aemd", k))
            elif h[0] == "delegates":
                for x in k[2]:
                    inl = [y for y in x[2] if y[0] in ("analysisEngineDescription", "taeDescription", "casConsumerDescription")]
                    if inl: sub = ("buildAnalysisEngineDescription", inl[0][0], "LOC")
                    elif x[2][0][0] == "import": sub = ("parseAnalysisEngineDescription", "resolved(%s,LOC)" % self.T(x[2][0][1]["location"]))
                    else: sub = ("parseAnalysisEngineDescription", "resolved(%s,LOC)" % self.T(self.text(x[2][0])))
                    put("addDelegate", self.T(x[1]["key"]), ("AnalysisEngineDescription", (sub,)))
        if kind == "aemd":
            put("setTypeSystemDescription", (self.obj["tsd"][0], tuple(sorted((a, tuple(b)) for a, b in (tsd or {}).items()))))

OWN = ("addTypeDescription", "addImportDescription", "addFeatureDescription", "addAllowedValue")
SETTERS = ("setName setDescription setVersion setVendor setTypeSystemDescription setFlowConstraints setOperationalProperties addCapability addTypePriority addFSIndexDescription setModifiesCas setMultipleDeploymentAllowed "
  "setOutputsNewCASes addSupportedLanguage addCapabilityType addCapabilityFeature addCapabilitySofa addType setLabel setTypeName setIndexKind addFSIndexKey setFeatureName setComparator setIsTypePriority addTypeDescription addImportDescription "
  "setLocation setSuperTypeName addFeatureDescription addAllowedValue setRangeTypeName setElementType setMultipleReferencesAllowed setType setMandatory setMultiValued addRestriction define setValue addValue setComponentKey setComponentSofaName "
  "setAggregateSofaName setPrimitive setAnnotatorImpName setAnalysisEngineMetaData setFrameworkImplName addSofaMapping addCommonParameter addConfigurationParameter addNameValuePair setDefaultGroupName setSearchStrategy addNode addDelegate "
  "push_back").split()
NESTED = ("parseAnalysisEngineDescription", "buildFSIndexFromImportLocation", "buildTypePriorityFromImportLocation")

def clean(t):
    """drop ownership flags, defaults of no interest"""
    return t

class Run:
    def __init__(self, prog, c):
        self.prog = prog; self.c = c; self.spec = Spec(prog); self.gs = {}
        prog.strs = {}
        for v in prog.raw["vars"]:
            nd = v.get("nodes") or []
            if "init" in v and isinstance(v["init"], int) and nd:
                x = nd[v["init"]]
                while x.get("k") in ("cast", "par", "ctor") and (isinstance(x.get("s"), int) or len(x.get("a", ())) == 1): x = nd[x["s"] if isinstance(x.get("s"), int) else x["a"][0]]
                if x.get("k") == "str": prog.strs[v["q"]] = x["v"]
        if len(prog.strs) < 80: raise AnalysisBroken("the tag names of the descriptor parser not found")
    def fn(self, name, first=None, n=None):
        r = [f for f in self.prog.fns.values() if f.cls == XP and f.name == name and f.blocks and (n is None or len(f.params) == n) and (first is None or first in f.params[0]["t"])]
        if len(r) != 1: raise AnalysisBroken("%s::%s: %d functions" % (XP, name, len(r)))
        return r[0]
    def graph(self, f, stop):
        key = (f.u, stop)
        if key not in self.gs:
            self.c.fn(f)
            def inl(t, fr):
                if t.u == f.u or t.cls not in (XP, "", None) or t.name in stop or t.d.get("kind") not in ("method", "func"): return False
                return t.cls == XP or t.file == f.file
            self.gs[key] = Graph(self.prog, f, inline=inl, depth=7, eh="try", thrown="uima::InvalidXMLException")
        return self.gs[key]
    STOP = ("getSpannedText", "convert") + NESTED
    def run(self, f, tree_, noise, params, over=None, log=SETTERS, stop=STOP):
        d = Doc(tree_, noise)
        p = [d.root if x == "EL" else x for x in params]
        self.c.count("documents")
        g = self.graph(f, stop)
        init = {}
        s = Parse(self.prog, g, d, p, tuple(log) + NESTED + ("buildAnalysisEngineDescription",), over)
        return d, s.go()
    def same(self, f, what, kind, docs, params, root="ROOT", over=None, ret=False, post=None):
        """every document yields exactly the object the specification describes"""
        for key, t in docs:
            want = {}
            self.spec.fill(kind, t, want)
            if post: want = post(want, t)
            want = {k: [tuple(x) for x in v] for k, v in want.items()}
            for noise in (False, True):
                d, out = self.run(f, t, noise, params, over)
                bad = None
                for thr, res, lg, env in out:
                    rt = res if ret else root
                    got = self.norm(tree(rt, self.fix(lg, d)), d)
                    w = (got[0] if isinstance(got, tuple) else None, tuple(sorted((k, tuple(v)) for k, v in want.items())))
                    if thr: bad = "an exception is thrown"
                    elif not isinstance(got, tuple) or got != w: bad = diff(got, w)
                    if bad: break
                if not out: bad = "the interpretation never ends"
                self.c.judge(bad is None, "%s|%s|%s" % (what, key, noise), "%s: %s: %s%s: %s" % (f.loc(), f.q, key, " (with comments and white space between the elements)" if noise else "", bad), "%s %s" % (what, key))
    def fix(self, lg, d):
        """nested calls as (setter-like) events; ownership argument dropped; nodes shown by their tag"""
        out = []
        for e in lg:
            if e[0] in OWN: e = e[:3]
            if e[0] in ("parseAnalysisEngineDescription", "buildAnalysisEngineDescription") and len(e) > 3:
                e = (e[0], e[2]) + tuple(d.n[int(x[1:])][1] if isinstance(x, str) and x[:1] == "#" else x for x in e[3:])
            if e[0] in NESTED[1:]:
                loc = [x for x in e[3:] if isinstance(x, str)]
                e = (e[0], e[2]) + tuple(x for x in loc if x != "ALREADY")[:2]
            out.append(e)
        return tuple(out)
    def norm(self, t, d):
        def n(x):
            if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple) and isinstance(x[0], str) and x[0] == "AnalysisEngineDescription":
                return (x[0], tuple((k,) + v[0] if len(v) == 1 else (k, v) for k, v in x[1]))
            return tuple(n(y) for y in x) if isinstance(x, tuple) else x
        return n(t)

def diff(a, b):
    if not isinstance(a, tuple) or not isinstance(b, tuple): return "the object is %s" % (a,)
    x, y = dict(a[1]), dict(b[1])
    for k in sorted(set(x) | set(y)):
        if x.get(k) != y.get(k): return "%s(...) is called with %s where the document says %s" % (k, str(x.get(k))[:160], str(y.get(k))[:160])
    return "differs"

# ---------------------------------------------------------------- sample documents: every element alone, all in order, all reversed
LEAF = {"primitive": ["true", "false"], "mandatory": ["true", "false"], "multiValued": ["true", "false"], "multipleReferencesAllowed": ["true", "false"], "modifiesCas": ["true", "false"], "multipleDeploymentAllowed": ["true", "false"], "outputsNewCASes": ["true", "false"],
        "kind": ["sorted", "bag", "set"], "comparator": ["standard", "reverse"], "frameworkImplementation": ["org.apache.uima.cpp", "org.apache.uima.java", "other"], "restrictOverrideTo": ["k1", "k1 k2 k3"]}

def variants(spec, kind, depth=0):
    """[(tag, element)] samples of the children of an object of this kind"""
    r = []
    for tag, h in spec.obj[kind][1].items():
        if h[0] in ("set", "setif", "settrue", "words"):
            if tag == "type" and kind == "param": vs = ["Boolean", "Float", "Integer", "String"]
            else: vs = LEAF.get(tag, ["the " + tag])
            r += [(tag + "=" + v, E(tag, v)) for v in vs]
        elif h[0] == "call": r.append((tag, E(tag)))
        elif h[0] == "none": r.append((tag, E(tag, E("x", "y"))))
        elif h[0] == "texts": r += [(tag + "*%d" % n, E(tag, *[E("language", "l%d" % i) for i in range(n)])) for n in (0, 1, 3)]
        elif h[0] in ("each", "obj"):
            sub = full(spec, h[2], depth + 1)
            el = ELN[h[2]]
            if h[0] == "each":
                if h[2] == "import": r += [(tag + "*%d" % n, E(tag, *[imp(i) for i in range(n)])) for n in (1, 2)]
                else: r += [(tag + "*%d" % n, E(tag, *[(el, {}, sub(i)) for i in range(n)])) for n in (0, 1, 3)]
            else: r.append((tag, imp(0) if h[2] == "import" else (tag, {}, sub(0))))
        elif h[0] == "flow":
            r += [(tag + "/fixedFlow", E(tag, E("fixedFlow", E("node", "n0"), E("node", "n1"), E("node", "n2")))), (tag + "/capabilityLanguageFlow", E(tag, E("capabilityLanguageFlow", E("node", "n0"), E("node", "n1")))), (tag + "/none", E(tag))]
        elif h[0] == "cap":
            r.append((tag, E(tag, E("type", "t0"), E("feature", "t0:f"), E("type", "t1"), E("sofaName", "s0"), E("sofaName", "s1"))))
        elif h[0] == "into": r.append((tag, (tag, {}, full(spec, h[2], depth + 1)(0))))
        elif h[0] == "imports": r.append((tag, E(tag, E("import", location="a.xml"), E("import", location="b.xml"))))
        elif h[0] == "value":
            for ty in ("string", "integer", "float", "boolean"):
                r.append((tag + "/" + ty, E(tag, E(ty, "v")))); r.append((tag + "/array of " + ty, E(tag, E("array", E(ty, "v0"), E(ty, "v1"), E(ty, "v2")))))
        elif h[0] == "group":
            sub = full(spec, h[3], depth + 1); el = ELN[h[3]]
            for names in ("g1", "g1 g2 g3"): r.append((tag + " " + names, (tag, {h[1]: names}, [(el, {}, sub(0)), (el, {}, sub(1))])))
        elif h[0] == "merge":
            at = {"defaultGroup": "dg", "searchStrategy": "language_fallback"} if h[1] == "params" else {}
            r.append((tag, (tag, at, full(spec, h[1], depth + 1)(0))))
        elif h[0] == "meta": r.append((tag, (tag, {}, full(spec, "aemd", depth + 1)(0))))
        elif h[0] == "delegates":
            for k, x in (("inline AE", E("analysisEngineDescription")), ("inline TAE", E("taeDescription")), ("inline CAS consumer", E("casConsumerDescription")), ("import", E("import", location="d.xml")), ("include", E("includeFile", "e.xml"))):
                r.append((tag + ": " + k, E(tag, E("delegateAnalysisEngine", x, key="key0"))))
            r.append((tag + "*3", E(tag, E("delegateAnalysisEngine", E("import", location="d.xml"), key="k0"), E("delegateAnalysisEngine", E("analysisEngineDescription"), key="k1"), E("delegateAnalysisEngine", E("import", location="f.xml"), key="k2"))))
    return r

ELN = {"index": "fsIndexDescription", "key": "fsIndexKey", "type": "typeDescription", "feat": "featureDescription", "allowed": "value", "cap": "capability", "param": "configurationParameter", "nvp": "nameValuePair", "sofamap": "sofaMapping", "prio": "priorityList", "import": "import", "op": "operationalProperties"}
def imp(i): return E("import", location="loc%d" % i) if i % 2 == 0 else E("import", name="name%d" % i)

def full(spec, kind, depth):
    """a function i -> children of the i-th sample object of this kind, all its elements once"""
    def f(i):
        seen, r = set(), []
        for key, el in variants(spec, kind, depth) if depth < 5 else []:
            if el[0] in seen and el[0] != "import": continue
            seen.add(el[0])
            r.append((el[0], el[1], [k + str(i) if isinstance(k, str) and k.startswith("the ") else k for k in el[2]]))
        return r
    return f

def docs(spec, kind, tag, at=None, unknown=True):
    r = []
    vs = variants(spec, kind)
    for key, el in vs: r.append((key, (tag, dict(at or {}), [el])))
    one = {}
    for key, el in vs: one.setdefault(el[0], el)
    r.append(("all elements", (tag, dict(at or {}), list(one.values())))); r.append(("all elements in reverse order", (tag, dict(at or {}), list(one.values())[::-1])))
    r.append(("unknown element", (tag, dict(at or {}), [E("unknownTag", "x")] + ([list(one.values())[0]] if one else []))))
    return r if unknown else r[:-1]

def must_throw(k, f, key, t, params, what, over=None, never=()):
    for noise in (False, True):
        d, out = k.run(f, t, noise, params, over)
        bad = [lg for thr, res, lg, env in out if not thr or any(e[0] in never for e in lg)]
        null = any(env.get(("null",)) for thr, res, lg, env in out)
        k.c.judge(bool(out) and not bad and not null, "refused|%s|%s" % (key, noise), "%s: %s: %s is not refused with an exception%s" % (f.loc(), f.q, what, " (a null node is used)" if null else ""), what)

def refuse(k):
    sp = k.spec
    must_throw(k, k.fn("buildImportDesc"), "import", E("import"), ["EL"], "an import without location and name")
    must_throw(k, k.fn("buildFSIndexCollection"), "index import", E("fsIndexCollection", E("imports", E("import", location="a"), E("import", name="n"))), ["ROOT", "EL", "ALREADY", "LOC"], "an index import without location")
    must_throw(k, k.fn("buildTypePriorities", "AnalysisEngineMetaData &"), "priority import", E("typePriorities", E("imports", E("import"))), ["ROOT", "EL", "LOC", "ALREADY"], "a type priority import without location")
    must_throw(k, k.fn("buildAnalysisEngineDescription"), "delegate import", E("analysisEngineDescription", E("delegateAnalysisEngineSpecifiers", E("delegateAnalysisEngine", E("import", name="x"), key="k"))), ["ROOT", "EL", "LOC"], "a delegate import without location", never=("addDelegate",))
    must_throw(k, k.fn("buildCapability"), "capability", E("capability", E("inputz", E("type", "t"))), ["ROOT", "EL"], "a capability element that is neither inputs, outputs, sofas nor languages", never=("addCapability",))
    v = E("nameValuePair", E("name", "n"), E("value", E("string", "v")))
    dup = {"getNameValuePair": lambda s, o, a: "OLD", "getNameValuePairNoFallback": lambda s, o, a: "OLD"}
    must_throw(k, k.fn("buildConfigParamSettings"), "duplicate", E("configurationParameterSettings", v), ["ROOT", "EL"], "a second value of the same parameter", dup, ("addNameValuePair",))
    must_throw(k, k.fn("buildConfigParamSettings"), "duplicate in group", E("configurationParameterSettings", ("settingsForGroup", {"name": "g"}, [v])), ["ROOT", "EL"], "a second value of the same parameter in a group", dup, ("addNameValuePair",))
    for tag in ("text", "array"):
        must_throw(k, k.fn("buildNameValuePair"), "value type " + tag, E("nameValuePair", E("name", "n"), E("value", E("array", E("blob", "x")) if tag == "array" else E("blob", "x"))), ["EL"], "a value that is no string, integer, float or boolean", never=("setValue", "addValue"))
    f = k.fn("buildNameValuePair")
    for key, t in (("empty array", E("nameValuePair", E("name", "n"), E("value", E("array")))),):
        for noise in (False, True):
            d, out = k.run(f, t, noise, ["EL"])
            bad = [1 for thr, res, lg, env in out if env.get(("null",))]
            k.c.judge(bool(out) and not bad, "null|%s|%s" % (key, noise), "%s: %s: an array without elements is read through a null node" % (f.loc(), f.q), "%s does not use a null node" % key)

def text(k):
    """the text of an element: its character data (CDATA too) in order, environment variables replaced, comments skipped, trimmed"""
    f = k.fn("getSpannedText")
    q = lambda x: '"%s"' % x
    T, CD, CM = (lambda x: x), (lambda x: ("!", 4, "#cdata-section", x)), (lambda x: ("!", 8, "#comment", x))
    env = lambda x: E("envVarRef", x)
    over = {"getSpannedText": lambda s, o, a: None}
    cases = [("text", [T(" a b ")], "a b"), ("no text", [], ""), ("text and CDATA", [T("a "), CD("b < c"), T(" d")], "a b < c d"), ("CDATA", [CD("x")], "x"), ("comment", [T("a"), CM("zz"), T("b")], "ab"),
             ("environment variable", [T("dir/"), env("HOME"), T("/x")], "dir/$HOME/x"), ("other element", [T("a"), E("b", "c"), T("d")], "ad"), ("environment variable without name", [T("a"), E("envVarRef"), T("b")], "ab")]
    g = Graph(k.prog, f, inline=lambda t, fr: t.cls == XP and t.name != "convert" and t.u != f.u, depth=4, eh="try"); k.c.fn(f)
    for key, kids, want in cases:
        d = Doc(("value", {}, []), False)
        ks = []
        for x in kids: ks.append(d.add(x))
        d.n[0] = (1, "value", tuple(ks), {}, None)
        s = Parse(k.prog, g, d, [d.root], (), {"getSpannedText": None, "getValue": lambda s, o, a: '"$%s"' % o.strip('"') if isinstance(o, str) else None, "toString": None})
        out = s.go(); k.c.count("documents")
        bad = None
        for thr, res, lg, env_ in out:
            if env_.get(("null",)): bad = "a null node is used"
            elif thr or res != q(want): bad = "yields %s, not %s" % (res, q(want))
        k.c.judge(bool(out) and bad is None, "text|" + key, "%s: %s: an element with %s %s" % (f.loc(), f.q, key, bad), key)

def features(k):
    """allAnnotatorFeatures=true adds every feature of the type, no other value does"""
    f = k.fn("buildCapability"); sp = k.spec
    for val in ("true", "false", ""):
        for n in (0, 1, 3):
            for style, st in (("inputs", "INPUT"), ("outputs", "OUTPUT")):
                t = E("capability", E(style, ("type", {"allAnnotatorFeatures": val} if val else {}, ["t0"])))
                d, out = k.run(f, t, False, ["ROOT", "EL"], {"getTypeSystemDescription": lambda s, o, a: "TSDESC", "getTypeDescriptionConst": lambda s, o, a: "TDESC" if a == ['"t0"'] else 0, "getTypeDescription": lambda s, o, a: "TDESC" if a == ['"t0"'] else 0,
                    "getFeatureDescriptions": lambda s, o, a: ("vec",) + tuple("F%d" % i for i in range(n)), "getName": lambda s, o, a: '"name(%s)"' % (o,)})
                sv = sp.e(CAP, st)
                want = {"addCapabilityType": (('"t0"', sv),)}
                if val == "true" and n: want["addCapabilityFeature"] = tuple(('"t0:name(F%d)"' % i, sv) for i in range(n))
                bad = None
                for thr, res, lg, env in out:
                    got = tree("ROOT", lg)
                    if thr or got != ("ROOT", (("addCapability", ((("Capability", tuple(sorted(want.items()))),),)),)): bad = str(got)
                k.c.judge(bool(out) and bad is None, "all features|%s|%d|%s" % (val, n, style), "%s: %s: a type with allAnnotatorFeatures=%r and %d features gives %s" % (f.loc(), f.q, val, n, bad), "allAnnotatorFeatures=%r, %d features" % (val, n))

PARSE = {"parseAnalysisEngineDescription": "buildAnalysisEngineDescription", "parseTypeSystemDescription": "buildTypeSystemDesc", "parseFSIndexDescription": "buildFSIndexes", "parseTypePriorities": "buildTypePriorities", "parseSofaMappings": "buildSofaMappings"}
def parse(k):
    """each parse function hands the root element of the document it has parsed to the builder of its kind"""
    n = 0
    for name, builder in PARSE.items():
        fs = [f for f in k.prog.fns.values() if f.cls == XP and f.name == name and f.blocks and "InputSource" in f.params[-1]["t"]]
        if len(fs) != 1: raise AnalysisBroken("%s not found" % name)
        f = fs[0]; k.c.fn(f)
        builders = tuple({g.name for g in k.prog.fns.values() if g.cls == XP and g.name.startswith("build")})
        g = Graph(k.prog, f, inline=lambda t, fr: t.cls == XP and t.name not in builders and t.name != "convert" and t.u != f.u, depth=3, eh="try")
        s = Scen(k.prog, g, ["P0", "SRC"], {}, {"getDocument": lambda s, o, a: "DOC", "getDocumentElement": lambda s, o, a: "ELEM" if o == "DOC" else None, "convert": lambda s, o, a: a[0], "getSystemId": lambda s, o, a: "sys(%s)" % (o,)}, builders + ("parse",))
        out = s.go(); n += 1
        good = bool(out)
        for thr, res, lg, env in out:
            if thr: continue
            b = [e for e in lg if e[0] != "parse"]; pa = [e for e in lg if e[0] == "parse"]
            good = good and len(b) == 1 and (b[0][0] == builder or (builder == "buildTypeSystemDesc" and b[0][0] == "buildTypeSystemSpecifier")) and b[0][2:4] == ("P0", "ELEM") and len(pa) == 1 and pa[0][2] == "SRC" and lg.index(pa[0]) < lg.index(b[0])
            if builder == "buildAnalysisEngineDescription": good = good and b[0][4] == "sys(SRC)"
        k.c.judge(good, "parse|" + name, "%s: %s does not hand the root element of the parsed document and its own object to %s: %s" % (f.loc(), f.q, builder, [lg for _, _, lg, _ in out][:2]), name)
    for name, builder, order in (("buildFSIndexFromImportLocation", "buildFSIndexCollection", ("DESC", "FILE", "AL", "LAST")), ("buildTypePriorityFromImportLocation", "buildTypePriorities", ("DESC", "FILE", "LAST", "AL"))):
        f = k.fn(name); k.c.fn(f)
        par = []
        for p in f.params:
            par.append("DESC" if "MetaData" in p["t"] else "AL" if "vector" in p["t"] else None)
        strs = [i for i, x in enumerate(par) if x is None]
        if len(strs) != 2: raise AnalysisBroken("parameters of %s" % name)
        par[strs[0]] = "FILE"; par[strs[1]] = "LAST"; al = par.index("AL")
        for done in ((), ("x",), ("resolved(FILE,LAST)",), ("x", "resolved(FILE,LAST)", "y"), ("x", "y", "z")):
            par[al] = ("vec",) + done
            g = Graph(k.prog, f, inline=lambda t, fr: t.cls == XP and not t.name.startswith("build") and t.name != "convert" and t.u != f.u, depth=3, eh="try")
            s = Scen(k.prog, g, par, {}, {"getDocument": lambda s, o, a: "DOC", "getDocumentElement": lambda s, o, a: "ELEM", "convert": lambda s, o, a: a[0], "resolveFilename": lambda s, o, a: "resolved(%s,%s)" % tuple(a[:2])}, (builder, "push_back", "parse"), init={("param", al, f.params[al]["n"]): par[al]})
            out = s.go(); n += 1
            known = "resolved(FILE,LAST)" in done
            good = bool(out)
            for thr, res, lg, env in out:
                if thr: continue
                b = [e for e in lg if e[0] == builder]; pb = [e for e in lg if e[0] == "push_back"]
                if known: good = good and not b and not pb
                else:
                    good = good and len(b) == 1 and len(pb) == 1 and lg.index(pb[0]) < lg.index(b[0]) and pb[0][2] == "resolved(FILE,LAST)" and b[0][2] == "DESC" and b[0][3] == "ELEM" and "resolved(FILE,LAST)" in b[0] and "LAST" not in b[0] and any(isinstance(x, tuple) and x[:1] == ("vec",) and x[-1] == "resolved(FILE,LAST)" for x in b[0])
            k.c.judge(good, "import|%s|%s" % (name, done), "%s: %s with %s already imported %s: %s" % (f.loc(), f.q, list(done), "reads the file again" if known else "does not note the file and then build from it", [lg for _, _, lg, _ in out][:2]), "%s %s" % (name, done))
    k.c.count("parse functions", n)

def imports(k):
    """the imports of a type system description: each location once, by-name imports kept, all imported types added"""
    prog, c = k.prog, k.c
    fs = [f for f in prog.fns.values() if f.q == TSD + "::resolveImports" and f.blocks]
    if len(fs) != 1: raise AnalysisBroken("resolveImports not found")
    f = fs[0]; c.fn(f)
    IMP = ("f", ("this",), TSD + "::iv_vecpImportDescriptions")
    g = Graph(prog, f, inline=lambda t, fr: t.cls == TSD and t.name not in ("resolveImport", "resolveImports") and t.d.get("kind") == "method", depth=3, eh="try")
    al = [i for i, p in enumerate(f.params) if "vector" in p["t"]][0]
    for imps in ((), ("L0",), ("N0",), ("L0", "L1"), ("L0", "N0", "L1"), ("N0", "L0", "N1"), ("L0", "L1", "L2")):
        for done in ((), ("abs(L0,LOC)",), ("x", "abs(L1,LOC)"), ("x", "y", "abs(L0,LOC)")):
            s = Scen(prog, g, [("vec",) + done], {"iv_xmlFileLoc": "LOC"}, {"getLocation": lambda s, o, a: '"%s"' % o if str(o).startswith("L") else '""', "getName": lambda s, o, a: '"n"' if str(o).startswith("N") else '""', "findAbsoluteUrl": lambda s, o, a: "abs(%s,%s)" % (o, a[0]), "resolveImport": 0},
                     ("resolveImport",), init={IMP: ("vec",) + imps, ("param", al, f.params[al]["n"]): ("vec",) + done}, maxlog=50)
            s.effects = dict(s.effects)
            out = s.go(); c.count("import scenarios")
            want = tuple("abs(%s,LOC)" % i for i in imps if i[0] == "L" and "abs(%s,LOC)" % i not in done)
            names = ("vec",) + tuple(i for i in imps if i[0] == "N")
            bad = None
            for thr, res, lg, env in out:
                got = tuple(e[2] for e in lg)
                if thr or got != want: bad = "resolves %s, not %s" % (got, want)
                elif env.get(IMP) != names: bad = "keeps the import list %s, not the imports by name %s" % (env.get(IMP), names[1:])
            c.judge(bool(out) and bad is None, "resolve|%s|%s" % (imps, done), "%s: %s with imports %s and %s already imported: %s" % (f.loc(), f.q, imps, done, bad), "imports %s done %s" % (imps, done))
    f = [f for f in prog.fns.values() if f.q == TSD + "::resolveImport" and f.blocks][0]; c.fn(f)
    g = Graph(prog, f, inline=lambda t, fr: False, depth=1, eh="try")
    for types in ((), ("T0",), ("T0", "T1", "T2")):
        for there in (1, 0):
            al = [i for i, p in enumerate(f.params) if "UnicodeString" in p["t"] and "vector" in p["t"]][0]; fi = 1 - al if al < 2 else 0
            par = [None] * len(f.params); par[0] = "FILE"; par[1] = ("vec", "x")
            s = Scen(prog, g, par, {}, {"buildTypeSystemSpecifierFromFile": lambda s, o, a: "DESC(%s)" % a[0] if there else 0, "getTypeDescriptions": lambda s, o, a: ("vec",) + types if o == "DESC(FILE)" else None, "resolveImports": 0, "addTypeDescription": 0}, ("resolveImports", "addTypeDescription", "push_back"),
                     init={("param", 1, f.params[1]["n"]): ("vec", "x")}, maxlog=50)
            out = s.go(); c.count("import scenarios")
            bad = None
            for thr, res, lg, env in out:
                if thr: continue
                if not there:
                    if res == 0 or lg: bad = "a file that cannot be read is taken as resolved"
                    continue
                ri = [e for e in lg if e[0] == "resolveImports"]; pb = [e for e in lg if e[0] == "push_back"]; ad = [e for e in lg if e[0] == "addTypeDescription"]
                if len(pb) != 1 or pb[0][2] != "FILE": bad = "the file is not noted as imported"
                elif len(ri) != 1 or ri[0][1] != "DESC(FILE)" or lg.index(pb[0]) > lg.index(ri[0]): bad = "its own imports are not resolved once, after it was noted"
                elif [e[1] for e in ad] != ["this"] * len(types) or [e[2] for e in ad] != ["new(%s)" % t for t in types]: bad = "adds %s, not a copy of each of %s" % ([e[2] for e in ad], types)
                elif ad and lg.index(ri[0]) > lg.index(ad[0]): bad = "adds the types before its imports are resolved"
                elif res != 0: bad = "reports an error"
            c.judge(bool(out) and bad is None, "resolved|%s|%s" % (types, there), "%s: %s of a file with %s: %s" % (f.loc(), f.q, list(types), bad), "types %s" % (types,))

def merge(k):
    """descriptions of the same type are merged: new features added, other supertypes and ranges refused"""
    prog, c = k.prog, k.c
    def one(q):
        r = [f for f in prog.fns.values() if f.q == q and f.blocks]
        if len(r) != 1: raise AnalysisBroken("%s: %d functions" % (q, len(r)))
        c.fn(r[0]); return r[0]
    def go(f, par, over, fields, log, init=None, stop=()):
        names = tuple(over) + tuple(log) + tuple(stop)
        g = Graph(prog, f, inline=lambda t, fr: t.cls in (TSD, TD) and t.name not in names and t.u != f.u and t.d.get("kind") == "method", depth=4, eh="try", thrown="uima::DuplicateConfigElemException")
        c.count("merge scenarios")
        return Scen(prog, g, par, fields, over, log, init=init, maxlog=50).go()
    nm = {"getName": lambda s, o, a: "name" + str(o).rstrip("'") if o else None, "getSuperTypeName": lambda s, o, a: "super" + ("" if "x" not in str(o) else "X"), "getRangeTypeName": lambda s, o, a: "range" + ("" if "x" not in str(o) else "X")}
    base = lambda o: str(o).replace("'", "").replace("x", "")
    nm["getName"] = lambda s, o, a: "name" + base(o) if isinstance(o, str) else None
    TV = ("f", ("this",), TSD + "::iv_vecpTypeDescriptions"); FV = ("f", ("this",), TD + "::iv_vecpFeatureDescriptions")
    # lookup by name
    for q, fld, dup in ((TSD + "::getTypeDescription", TV, None), (TD + "::getFeatureDescription", FV, None)):
        f = one(q)
        for have in ((), ("A",), ("A", "B"), ("B", "C", "A")):
            for w in ("A", "B", "Z"):
                out = go(f, ["name" + w], nm, {}, (), {fld: ("vec",) + have})
                want = w if w in have else 0
                bad = [res for thr, res, lg, env in out if thr or res != want]
                c.judge(bool(out) and not bad, "lookup|%s|%s|%s" % (q, have, w), "%s: %s of %s among %s yields %s" % (f.loc(), f.q, w, have, bad), "%s %s %s" % (q, have, w))
    # adding
    def added(q, fld, isfeat):
        f = one(q)
        for mod in (1, 0):
            for have in ((), ("A",), ("A", "B", "C")):
                for w in ("A'", "C'", "Z'"):
                    o = dict(nm); o["isModifiable"] = mod; o["mergeTypeDescriptions"] = None
                    out = go(f, [w, None], o, {}, ("mergeTypeDescriptions",), {fld: ("vec",) + have})
                    dup = base(w) in have
                    bad = None
                    for thr, res, lg, env in out:
                        v = env.get(fld); own = env.get(("param", 1, f.params[1]["n"]))
                        if not mod:
                            if thr or res in (0, None) or v != ("vec",) + have or own not in (0, None) or lg: bad = "a committed description is changed or ownership taken"
                        elif not dup:
                            if thr or res != 0 or v != ("vec",) + have + (w,) or own != 1: bad = "a new one is not added and owned (%s, ownership %s)" % (v, own)
                        elif isfeat:
                            if not thr: bad = "a second feature of the same name is not refused"
                        elif thr or v != ("vec",) + have or own != 0 or [(e[1], e[2]) for e in lg] != [("this", ("vec", w))]: bad = "a second description of the type is not merged (%s)" % (lg,)
                    c.judge(bool(out) and bad is None, "add|%s|%s|%s|%s" % (q, mod, have, w), "%s: %s of %s to %s: %s" % (f.loc(), f.q, w, have, bad), "%s %s %s %s" % (q, mod, have, w))
    added(TD + "::addFeatureDescription", FV, True); added(TSD + "::addTypeDescription", TV, False)
    f = one(TD + "::mergeFeatureDescriptions")
    for have in ((), ("A",), ("A", "B")):
        for new in ((), ("A'",), ("A'x",), ("Z'",), ("A'", "Z'"), ("Y'", "A'", "Z'"), ("Z'", "A'x")):
            out = go(f, [("vec",) + new], nm, {}, ("addFeatureDescription",), {FV: ("vec",) + have})
            want = ["new(%s)" % n for n in new if base(n) not in have or "x" in n]
            bad = [lg for thr, res, lg, env in out if thr or [e[2] for e in lg if e[1] == "this"] != want]
            c.judge(bool(out) and not bad, "features|%s|%s" % (have, new), "%s: %s of %s into %s: %s" % (f.loc(), f.q, new, have, bad), "merge %s into %s" % (new, have))
    f = one(TSD + "::mergeTypeDescriptions")
    for have in ((), ("A",), ("A", "B")):
        for new in ((), ("A'",), ("A'x",), ("Z'",), ("Y'", "Z'"), ("Z'", "B'", "A'")):
            o = dict(nm); o["getFeatureDescriptions"] = lambda s, ob, a: "features(%s)" % ob; o["getAllowedValues"] = lambda s, ob, a: "allowed(%s)" % ob
            out = go(f, [("vec",) + new], o, {}, ("addTypeDescription", "mergeFeatureDescriptions", "mergeAllowedValues"), {TV: ("vec",) + have})
            want = []; thrown = False
            for n in new:
                if base(n) not in have: want.append(("addTypeDescription", "this", "new(%s)" % n))
                elif "x" in n: thrown = True; break
                else: want += [("mergeFeatureDescriptions", base(n), "features(%s)" % n), ("mergeAllowedValues", base(n), "allowed(%s)" % n)]
            bad = [lg for thr, res, lg, env in out if thr != thrown or (not thr and sorted(e[:3] for e in lg) != sorted(want))]
            c.judge(bool(out) and not bad, "types|%s|%s" % (have, new), "%s: %s of %s into %s: %s, not %s" % (f.loc(), f.q, new, have, bad, want), "merge types %s into %s" % (new, have))

def run(prog, c):
    c.rule("C21: interpreted over the DOM of a sample document, each builder calls on the description object exactly the setters and adders the descriptor's elements and attributes stand for, with their text")
    k = Run(prog, c); sp = k.spec
    k.same(k.fn("buildFeatureDesc"), "feature", "feat", docs(sp, "feat", "featureDescription"), ["EL"], ret=True)
    k.same(k.fn("buildAllowedValue"), "allowed value", "allowed", docs(sp, "allowed", "value"), ["EL"], ret=True)
    k.same(k.fn("buildTypeDesc"), "type", "type", docs(sp, "type", "typeDescription"), ["EL"], ret=True)
    k.same(k.fn("buildTypeSystemDesc"), "type system", "tsd", docs(sp, "tsd", "typeSystemDescription"), ["ROOT", "EL"])
    k.same(k.fn("buildFSIndexKeyDesc"), "index key", "key", docs(sp, "key", "fsIndexKey"), ["EL"], ret=True)
    k.same(k.fn("buildFSIndexDesc"), "index", "index", docs(sp, "index", "fsIndexDescription"), ["EL"], ret=True)
    k.same(k.fn("buildTypePriority"), "priority", "prio", docs(sp, "prio", "priorityList"), ["EL"], ret=True)
    k.same(k.fn("buildOperationalProperties"), "operational properties", "op", docs(sp, "op", "operationalProperties"), ["EL"], ret=True)
    k.same(k.fn("buildSofaMapping"), "sofa mapping", "sofamap", docs(sp, "sofamap", "sofaMapping"), ["EL"], ret=True)
    k.same(k.fn("buildConfigParam"), "parameter", "param", docs(sp, "param", "configurationParameter"), ["EL"], ret=True)
    k.same(k.fn("buildNameValuePair"), "setting", "nvp", docs(sp, "nvp", "nameValuePair"), ["EL"], ret=True)
    sp.obj["vprio"] = (None, {"priorityList": ("obj", "push_back", "prio")}); sp.obj["vindex"] = (None, {"fsIndexDescription": ("obj", "push_back", "index")}); sp.obj["vsofa"] = (None, {"sofaMapping": ("obj", "push_back", "sofamap")})
    sp.obj["aindex"] = (None, {"fsIndexDescription": ("obj", "addFSIndexDescription", "index")}); sp.obj["asofa"] = (None, {"sofaMapping": ("obj", "addSofaMapping", "sofamap")}); sp.obj["caps"] = (None, {"capability": ("obj", "addCapability", "cap")})
    def several(kind, tag, name):
        el = variants(sp, kind)[0][1]
        return [("%d %s" % (n, name), E(tag, *[el] * n)) for n in (0, 1, 2, 3)]
    V = "vector"
    k.same(k.fn("buildTypePriorities", V), "type priorities (list)", "vprio", several("vprio", "typePriorities", "priority lists"), ["ROOT", "EL"])
    k.same(k.fn("buildFSIndexes", V), "indexes (list)", "vindex", several("vindex", "fsIndexes", "indexes"), ["ROOT", "EL"])
    for n in (0, 1, 2):
        ix = [variants(sp, "vindex")[0][1]] * n
        k.same(k.fn("buildFSIndexes", V), "indexes (list in a collection)", "vindex", [("%d indexes in a collection" % n, E("fsIndexCollection", E("fsIndexes", *ix)))], ["ROOT", "EL"], post=lambda w, t: {"push_back": [(sp.obj_("index", x),) for x in t[2][0][2]]} if t[2][0][2] else {})
    k.same(k.fn("buildSofaMappings", V), "sofa mappings (list)", "vsofa", several("vsofa", "sofaMappings", "mappings"), ["ROOT", "EL"])
    k.same(k.fn("buildSofaMappings", "AnalysisEngineDescription &"), "sofa mappings", "asofa", several("asofa", "sofaMappings", "mappings"), ["ROOT", "EL"])
    k.same(k.fn("buildFSIndexes", "AnalysisEngineMetaData &"), "indexes", "aindex", several("aindex", "fsIndexes", "indexes"), ["ROOT", "EL"])
    k.same(k.fn("buildCapabilities"), "capabilities", "caps", several("caps", "capabilities", "capabilities") , ["ROOT", "EL"])
    k.same(k.fn("buildCapability"), "capability", "caps", [(key, E("capability", *t[2])) for key, t in docs(sp, "cap", "capability", unknown=False)], ["ROOT", "EL"], post=lambda w, t: {"addCapability": [(sp.obj_("cap", t),)]})
    for at in ({}, {"defaultGroup": "dg"}, {"searchStrategy": "none"}, {"searchStrategy": "default_fallback"}, {"searchStrategy": "language_fallback"}, {"searchStrategy": "language_fallback", "defaultGroup": "dg"}):
        k.same(k.fn("buildConfigParams"), "parameters " + str(at), "params", docs(sp, "params", "configurationParameters", at), ["ROOT", "EL"])
    k.same(k.fn("buildConfigParamSettings"), "settings", "settings", docs(sp, "settings", "configurationParameterSettings"), ["ROOT", "EL"])
    k.same(k.fn("buildFSIndexCollection"), "index collection", "coll", docs(sp, "coll", "fsIndexCollection"), ["ROOT", "EL", "ALREADY", "LOC"])
    k.same(k.fn("buildTypePriorities", "AnalysisEngineMetaData &"), "type priorities", "prios", docs(sp, "prios", "typePriorities"), ["ROOT", "EL", "LOC", "ALREADY"])
    k.same(k.fn("buildAEMetaData"), "meta data", "aemd", docs(sp, "aemd", "analysisEngineMetaData"), ["EL", "LOC"], ret=True)
    k.same(k.fn("buildAnalysisEngineDescription"), "analysis engine", "ae", docs(sp, "ae", "analysisEngineDescription"), ["ROOT", "EL", "LOC"])
    for kind, tag in (("prios", "typePriorities"), ("coll", "fsIndexCollection")):
        k.same(k.fn("buildAEMetaData"), "meta data with " + tag, "aemd", [(key, E("analysisEngineMetaData", t)) for key, t in docs(sp, kind, tag, unknown=False)], ["EL", "LOC"], ret=True)
    k.same(k.fn("buildAnalysisEngineDescription"), "CAS consumer", "ae", [("no elements", E("casConsumerDescription")), ("a name", E("casConsumerDescription", E("implementationName", "x")))], ["ROOT", "EL", "LOC"], post=lambda w, t: dict(w, setPrimitive=[(1,)]))
    refuse(k); text(k); features(k); parse(k); imports(k); merge(k)
    c.ok()

if __name__ == "__main__": check.main("C21", run)
