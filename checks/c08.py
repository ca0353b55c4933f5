"""C08: sorted indexes follow their key definition: comparator, functors, merge order, registration of keys."""
from .common import *
from sa.loops import *
from sa.absint import AI
from .c09 import Ctx, calls, last, std, values, IN, misses

IC = "uima::lowlevel::IndexComparator"
ID = "uima::lowlevel::IndexDefinition"
KIND = {"INTEGER": "Int", "FLOAT": "Float", "BOOLEAN": "Boolean", "BYTE": "Byte", "SHORT": "Short", "LONG": "Long", "DOUBLE": "Double", "STRING": "String"}
FLIP = {"<": ">", ">": "<", "=": "="}
SIGN = {"<": -1, "=": 0, ">": 1}

def relcmp(op, r):
    """truth of 'a op b' when a r b"""
    return {"==": r == "=", "!=": r != "=", "<": r == "<", ">": r == ">", "<=": r in "<=", ">=": r in ">="}[op]

def run(prog, c):
    c.rule("IndexComparator::compare, interpreted abstractly over {key kind} x {less, equal, greater} x {standard, reverse} for two consecutive keys, returns the sign the key definition prescribes, and reads each key with the accessor of its kind")
    c.rule("addKey registers each built-in range type under its own kind and keeps the key vectors parallel on every path")
    c.rule("every ordering functor over comparators is exactly compare(fs1,fs2) > 0; the merge order is antisymmetric and total")
    c.rule("index definitions: redefinition is rejected unless kind, type, keys and comparison operators agree; kinds map to their factories, factories to index classes of one family with the factory's comparator")
    c.rule("the predefined annotation index is begin ascending, end descending, type priority")
    compare(prog, c); strcmp(prog, c); addkey(prog, c); functors(prog, c); merge(prog, c); sortpass(prog, c); definitions(prog, c); factories(prog, c); spec(prog, c); predefined(prog, c)
    c.floor("scenarios", 200); c.floor("functors", 2)

def enumv(prog, cls, name):
    for k in (cls + "::" + name,):
        if k in prog.enumc: return prog.enumc[k]
        if k in prog.gcv: return prog.gcv[k]
    for k, v in list(prog.enumc.items()) + list(prog.gcv.items()):
        if last(k) == name and k.startswith(cls.rsplit("::", 1)[0]): return v
    raise AnalysisBroken("enumerator %s::%s" % (cls, name))

def intconst(prog, f):
    return num(prog, f) if f is not None and f[0] in ("g", "enum", "int", "cast") else None

def fld(cls, name): return ("f", ("this",), cls + "::" + name)

# ---------------------------------------------------------------- compare
class CmpOracle:
    def __init__(self, prog, f, kinds, rels, ops):
        self.prog = prog; self.f = f; self.kinds = kinds; self.rels = rels; self.ops = ops
        self.p1 = ("param", 1, f.params[1]["n"]); self.p2 = ("param", 2, f.params[2]["n"])
        self.badread = None
        self.inv = enumv(prog, IC, "BUILTIN_TYPE_INVALID")
    def vec(self, o): return last(o[2]) if o is not None and o[0] == "f" and o[1] == ("this",) and o[2].startswith(IC + "::") else None
    def elem(self, name, k):
        if not isinstance(k, int) or not 0 <= k < len(self.kinds): return None
        if name == "iv_offsets": return 0 if self.kinds[k] == "PRIO" else "off:%d" % k
        if name == "iv_features": return "feat:%d" % k
        if name == "iv_appropTypes": return self.inv if self.kinds[k] == "PRIO" else enumv(self.prog, IC, "BUILTIN_TYPE_" + self.kinds[k])
        if name == "iv_comparators": return enumv(self.prog, IC, self.ops[k])
        return None
    def leaf(self, f):
        if f == self.p1: return "fs:1"
        if f == self.p2: return "fs:2"
        if f[0] == "idx":
            return self.elem(self.vec(f[1]), self._ev(f[2])) if self.vec(f[1]) else None
        return intconst(self.prog, f)
    def call(self, f, a, ev):
        self._ev = ev
        m = last(f[1]); o = f[2]
        if m == "size" and self.vec(o): return len(self.kinds)
        if m in ("at", "operator[]") and self.vec(o): return self.elem(self.vec(o), a[0])
        if m == "getType" and len(a) == 1 and a[0] in ("fs:1", "fs:2"): return "type:" + a[0][3]
        if m == "getFeatureWithOffset" and isinstance(a[0], str) and isinstance(a[1], str) and a[0].startswith("fs:") and a[1].startswith("off:"): return "raw:%s:%s" % (a[1][4:], a[0][3])
        if m.startswith("getFSAs") and len(a) == 1 and isinstance(a[0], str) and a[0].startswith("raw:"):
            k = int(a[0].split(":")[1])
            if KIND.get(self.kinds[k]) != m[7:]: self.badread = "key of kind %s is read with %s" % (self.kinds[k], m); return None
            return "val:" + a[0][4:]
        if m.startswith("get") and m.endswith("Value") and False: return None
        if o is not None:
            t = ev(o)
            if isinstance(t, str) and t.startswith("val:"):
                if m in ("getBuffer",): return t
                if m in ("length", "size"): return "len:" + t[4:]
                if m in ("compare", "compareCodePointOrder") and len(a) == 1: return self.three(t, a[0])
                if m in ("operator<", "operator>", "operator==", "operator!=", "operator<=", "operator>=") and len(a) == 1: return self.cmp(m[8:], t, a[0])
        if m.lower().endswith("strcompare") and len(a) == 4 and all(isinstance(x, str) for x in a) and a[1] == "len:" + a[0][4:] and a[3] == "len:" + a[2][4:]: return self.three(a[0], a[2])
        if m == "hasPriorityOver" and len(a) == 2 and all(isinstance(x, str) and x.startswith("type:") for x in a):
            r = self.relof(a[0], a[1]); return None if r is None else int(r == "<")
        return None
    def relof(self, a, b):
        """relation of two symbolic values"""
        if not (isinstance(a, str) and isinstance(b, str)): return None
        ka, kb = a.split(":"), b.split(":")
        if ka[0] != kb[0]: return None
        if a == b: return "="
        if ka[0] == "fs": return "#"
        if ka[0] == "val" and ka[1] == kb[1]: r = self.rels[int(ka[1])]; return r if ka[2] == "1" else FLIP[r]
        if ka[0] == "type":
            ks = [i for i, k in enumerate(self.kinds) if k == "PRIO"]
            if not ks: return None
            r = self.rels[ks[0]]; return r if ka[1] == "1" else FLIP[r]
        return None
    def three(self, a, b):
        r = self.relof(a, b); return None if r is None else SIGN[r]
    def cmp(self, op, a, b):
        if isinstance(a, str) and a.startswith("off:") and isinstance(b, int): return {"==": False, "!=": True, ">": True}.get(op)
        if isinstance(b, str) and b.startswith("off:") and isinstance(a, int): return {"==": False, "!=": True, "<": True}.get(op)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, str) and x.startswith("feat:") and y is not None:
                p = self.kinds[int(x[5:])] == "PRIO"; return {"==": p, "!=": not p}.get(op)
        r = self.relof(a, b)
        if r == "#": return {"==": False, "!=": True}.get(op)
        return None if r is None else relcmp(op, r)

def compare(prog, c):
    f = prog.fn(IC + "::compare"); c.fn(f)
    g = Graph(prog, f, inline=lambda t, fr: t.cls == IC or (t.cls is None and t.file == f.file and "strcompare" not in t.name.lower()), depth=3)
    kinds = list(KIND) + ["PRIO"]
    OPS = {"STANDARD_COMPARE": 1, "REVERSE_STANDARD_COMPARE": -1}
    bad = {}
    def expect(rels, ops):
        for r, o in zip(rels, ops):
            if r != "=": return -SIGN[r] * OPS[o]
        return 0
    for k in kinds:
        for r0 in "<=>":
            for o0 in OPS:
                seconds = [("INTEGER" if k != "INTEGER" else "FLOAT", r1, o1) for r1 in "<=>" for o1 in OPS] if r0 == "=" else [(("INTEGER" if k != "INTEGER" else "STRING"), r1, "STANDARD_COMPARE") for r1 in "<>"]
                for k1, r1, o1 in seconds:
                    c.count("scenarios")
                    orc = CmpOracle(prog, f, [k, k1], [r0, r1], [o0, o1]); orc._ev = lambda x: None
                    ai = AI(g, orc)
                    _ = ai.val
                    # idx leaves need the environment: evaluate through a closure
                    def val(fm, env, ai=ai, orc=orc, base=ai.val):
                        old = orc._ev; orc._ev = lambda x: base(x, env)
                        try: return base(fm, env)
                        finally: orc._ev = old
                    ai.val = val
                    outs = ai.run()
                    want = expect([r0, r1], [o0, o1])
                    got = {e.get(("result",)) for n, e in outs if n.k == "exit"}
                    if orc.badread: bad.setdefault("read|" + k, "%s: %s" % (f.loc(), orc.badread))
                    elif got != {want}:
                        bad.setdefault("sign|%s|%s" % (k if r0 != "=" or len(got) != 1 else k + "-then-" + k1, o0 if r0 != "=" else o1), "%s: compare() returns %s for a %s key with %s whose values are %s (then %s key, %s): expected %s" % (f.loc(), sorted(got, key=str), k, o0, {"<": "less", "=": "equal", ">": "greater"}[r0], k1, {"<": "less", "=": "equal", ">": "greater"}[r1], want))
    for k in kinds:
        b = [(kk, v) for kk, v in bad.items() if k in kk.split("|")[1].split("-")[:1]]
        if not b: c.ok("compare() orders %s keys as defined" % k)
    for kk, v in bad.items(): c.bad(kk, v)
    # the values compared are the stored ones: no lossy conversion between reading a key value and comparing it
    reads = 0
    for t in {fr.fn.u: fr.fn for fr in g.frames}.values():
        ld = t.ldefs()[0]
        def isread(i, d=0):
            i = t.strip(i); n = t.nodes[i]
            if n["k"] == "call": return last(n.get("fn") or "").startswith("getFSAs")
            if n["k"] == "ref" and d < 3: return any(isread(x, d + 1) for _, x in ld.get(n.get("id"), []) if x is not None)
            return False
        reads += sum(1 for n in t.nodes if n["k"] == "call" and last(n.get("fn") or "").startswith("getFSAs"))
        for i, o, a, b in conversions(t):
            if isread(o): c.bad("lossy|%s" % a, "%s: a key value of type %s is converted to %s before it is compared" % (t.loc(i), a, b))
    if reads < 8: raise AnalysisBroken("key reads: %d" % reads)
    c.ok("no key value is narrowed before it is compared")

# ---------------------------------------------------------------- string comparison
def strcmp(prog, c):
    fs = [f for f in prog.fns.values() if f.name.lower().endswith("strcompare") and f.file.endswith("lowlevel_indexcomparator.cpp") and len(f.params) == 4]
    for f in fs:
        c.fn(f); g = Graph(prog, f)
        ptr = lambda t: t.replace("const", "").strip().endswith("*")
        S1, L1, S2, L2 = [("param", i, p["n"]) for i, p in enumerate(f.params)]
        def init():
            e = {}
            for n in g.nodes: pass
            return e
        res = []
        for pre in (0, 1):
            for end in ("limit<", "limit=", "limit>", "diff<", "diff>"):
                c.count("scenarios")
                r = end[-1]
                if end.startswith("limit"): l1, l2 = {"<": (pre, pre + 2), "=": (pre, pre), ">": (pre + 2, pre)}[r]; extra = [None]
                else: extra = [(pre + 1, pre + 1), (pre + 1, pre + 3), (pre + 3, pre + 1)]; l1 = l2 = None
                for ex in extra:
                    a, b = ex if ex else (l1, l2)
                    lim = min(a, b)
                    class O:
                        cur = None
                        def leaf(s, fm):
                            if fm == S1 or (fm[0] == "var" and fm[2:] and fm[-1] == f.params[0]["n"]): return "p1:0"
                            if fm == S2 or (fm[0] == "var" and fm[-1] == f.params[2]["n"]): return "p2:0"
                            if fm == L1 or (fm[0] == "var" and fm[-1] == f.params[1]["n"]): return a
                            if fm == L2 or (fm[0] == "var" and fm[-1] == f.params[3]["n"]): return b
                            return intconst(prog, fm)
                        def call(s, fm, args, ev): return None
                        def op(s, op, vs):
                            if len(vs) != 2: return None
                            x, y = vs
                            if op in ("+",) and isinstance(x, str) and isinstance(y, int): p, k = x.split(":"); return "%s:%d" % (p, int(k) + y) if int(k) + y <= 6 else None
                            if op in ("-", "u-") and isinstance(x, str) and isinstance(y, int): p, k = x.split(":"); return "%s:%d" % (p, int(k) - y)
                            if op in ("-", "u-") and isinstance(x, str) and isinstance(y, str) and x[:2] != y[:2]:
                                rr = s.chars(x, y)
                                return None if rr is None else SIGN[rr]
                            return None
                        def chars(s, x, y):
                            if x.split(":")[1] != y.split(":")[1]: return None
                            k = int(x.split(":")[1])
                            rr = "=" if k < pre else (r if k == pre and end.startswith("diff") else None)
                            if rr is None: s.over = True; return None
                            return rr if x < y else FLIP[rr]
                        over = False
                        def cmp(s, op, x, y):
                            if not (isinstance(x, str) and isinstance(y, str)): return None
                            if s.isptr():
                                if x[:2] == y[:2]: k, m = int(x.split(":")[1]), int(y.split(":")[1]); return {"==": k == m, "!=": k != m, "<": k < m, ">": k > m, "<=": k <= m, ">=": k >= m}[op]
                                if end.startswith("diff"): return {"==": False, "!=": True}.get(op)
                                return None
                            if x[:2] == y[:2]: return None
                            rr = s.chars(x, y)
                            return None if rr is None else relcmp(op, rr)
                        def isptr(s):
                            n = s.cur
                            if n is None or n.nid is None: return False
                            e = n.fr.fn.nodes[n.nid]
                            if e["k"] != "bin": return False
                            t = n.fr.fn.nodes[e["a"][0]].get("t", "")
                            return ptr(t)
                    o = O(); ai = AI(g, o)
                    def visit(n, env): o.cur = n
                    outs = ai.run(visit)
                    got = set()
                    for n, e in outs:
                        v = e.get(("result",)); got.add(None if v is None else (v > 0) - (v < 0) if isinstance(v, int) else None)
                    res.append((end, pre, got, SIGN[r], o.over))
        wrong = [x for x in res if x[2] != {x[3]} or x[4]]
        c.judge(not wrong, "strcmp|%s" % f.name, "%s: %s does not order strings by code unit and then length (case %s after %s equal units: %s%s)" % (f.loc(), f.name, wrong[0][0] if wrong else "", wrong[0][1] if wrong else "", sorted(wrong[0][2], key=str) if wrong else "", ", reads past the shorter string" if wrong and wrong[0][4] else ""), "%s orders strings" % f.name)

# ---------------------------------------------------------------- addKey
def addkey(prog, c):
    f = prog.fn(IC + "::addKey"); c.fn(f)
    g = Graph(prog, f, inline=lambda t, fr: t.cls == IC or (t.cls is None and t.file == f.file), depth=3)
    FE, CO = ("param", 0, f.params[0]["n"]), ("param", 1, f.params[1]["n"])
    vecs = ["iv_features", "iv_offsets", "iv_appropTypes", "iv_comparators"]
    for kind in list(KIND) + ["STRINGSUB", "OTHER", "PRIO"]:
        c.count("scenarios")
        class O:
            def leaf(s, fm):
                if fm == FE: return "feat"
                if fm == CO: return "comp"
                if fm[0] == "g" and "INVALID_FEATURE" in fm[1]: return "nofeat"
                if fm[0] == "g" and last(fm[1]).startswith("TYPE_NAME_"): return "name:" + last(fm[1])[10:]
                if fm[0] == "g" and last(fm[1]).startswith("gs_ty") and fm[1].endswith("Type"): return "ty:" + last(fm[1])[5:-4].upper()
                return intconst(prog, fm)
            def call(s, fm, a, ev):
                m = last(fm[1])
                if m == "getRangeType" and a == ["feat"]: return "range"
                if m == "getTypeByName" and isinstance(a[0], str) and a[0].startswith("name:"): return "ty:" + a[0][5:]
                if m == "getFeatureOffset" and a == ["feat"]: return "off"
                if m == "subsumes" and isinstance(a[0], str) and a[0].startswith("ty:") and a[1] == "range": return int(a[0][3:] == kind or (kind == "STRINGSUB" and a[0] == "ty:STRING"))
                if m == "isStringSubtype" : return int(kind == "STRINGSUB")
                if m == "isValidFeature" and a == ["feat"]: return int(kind != "PRIO")
                if m == "getTypeName": return None
                return None
            def cmp(s, op, x, y):
                for p, q in ((x, y), (y, x)):
                    if p == "feat" and q == "nofeat": e = kind == "PRIO"; return {"==": e, "!=": not e}.get(op)
                    if p == "range" and isinstance(q, str) and q.startswith("ty:"): e = q[3:] == kind; return {"==": e, "!=": not e}.get(op)
                return None
            def op(s, op, vs): return None
        o = O(); ai = AI(g, o)
        def visit(n, env):
            if n.k == "call" and last(n.ev[0]) in ("push_back", "emplace_back") and n.ev[2] is not None and n.ev[2][0] == "f" and last(n.ev[2][2]) in vecs:
                v = ai.val(n.ev[3][0], env)
                env[("pushed", last(n.ev[2][2]))] = env.get(("pushed", last(n.ev[2][2])), ()) + (v,)
            return env
        outs = [e for n, e in ai.run(visit) if n.k == "exit"]
        inv = enumv(prog, IC, "BUILTIN_TYPE_INVALID")
        want = {"PRIO": inv, "OTHER": inv, "STRINGSUB": enumv(prog, IC, "BUILTIN_TYPE_STRING")}.get(kind)
        if want is None: want = enumv(prog, IC, "BUILTIN_TYPE_" + kind)
        ok = bool(outs) or kind == "OTHER"; why = ""
        for e in outs:
            p = {v: e.get(("pushed", v), ()) for v in vecs}
            if any(len(p[v]) != 1 for v in vecs): ok = False; why = "it appends %s entries to %s" % ([len(p[v]) for v in vecs], vecs)
            elif p["iv_appropTypes"][0] != want: ok = False; why = "it registers kind code %s instead of %s" % (p["iv_appropTypes"][0], want)
            elif p["iv_comparators"][0] != "comp": ok = False; why = "it does not record the comparison operator given"
            elif kind == "PRIO" and (p["iv_offsets"][0] != 0 or p["iv_features"][0] not in ("nofeat", "feat")): ok = False; why = "a type-priority key is not marked as such"
            elif kind != "PRIO" and (p["iv_offsets"][0] != "off" or p["iv_features"][0] != "feat"): ok = False; why = "it does not record the feature and its offset"
        c.judge(ok, "addKey|%s" % kind, "%s: addKey for a key of kind %s: %s" % (f.loc(), kind, why or "no result"), "addKey registers %s keys" % kind)

# ---------------------------------------------------------------- functors
class SignOracle:
    """comparison of parameters a,b by some three-way function with a given sign"""
    def __init__(self, prog, A, B, sign, names, addr=None, valid=None):
        self.prog = prog; self.A = A; self.B = B; self.sign = sign; self.names = names; self.addr = addr; self.valid = valid
    def leaf(self, f):
        if f == self.A: return "x:1"
        if f == self.B: return "x:2"
        return intconst(self.prog, f)
    def call(self, f, a, ev):
        m = last(f[1])
        if f[1] in self.names:
            t = [x for x in a if isinstance(x, str) and x.startswith("x:")]
            if t == ["x:1", "x:2"]: return self.sign
            if t == ["x:2", "x:1"]: return -self.sign
            if len(t) == 2: return 0
            return None
        o = ev(f[2]) if f[2] is not None else None
        if self.valid is not None and o in ("x:1", "x:2"):
            if m == "isValid": return int(self.valid[int(o[2]) - 1])
            if m == "get": return o if self.valid[int(o[2]) - 1] else None
        return None
    def cmp(self, op, a, b):
        if self.addr is not None and isinstance(a, str) and isinstance(b, str) and a[:2] == b[:2] == "x:":
            if a == b: return relcmp(op, "=")
            return relcmp(op, self.addr if a == "x:1" else FLIP[self.addr])
        return None

def functors(prog, c):
    """operator() of every class over comparators used for ordering: true exactly when compare(fs1, fs2) > 0"""
    CMP = IC + "::compare"
    found = 0
    for f in prog.fns.values():
        if f.name != "operator()" or len(f.params) != 2 or not any(n["k"] == "call" and n.get("fn") == CMP for n in f.nodes): continue
        if not all(p["t"] in ("unsigned int", "uima::lowlevel::TyFS") or p["t"].endswith("TyFS") for p in f.params): continue
        found += 1; c.fn(f); c.count("functors"); g = Graph(prog, f, inline=lambda t, fr: t.cls == f.cls, depth=2)
        A, B = [("param", i, p["n"]) for i, p in enumerate(f.params)]
        for s in (-1, 0, 1):
            outs = AI(g, SignOracle(prog, A, B, s, (CMP,))).run()
            got = {e.get(("result",)) for n, e in outs}
            c.judge(got == {int(s > 0)}, "functor|%s|%d" % (f.cls, s), "%s: %s is %s when compare() is %d: the index is not kept in key order" % (f.loc(), f.q, sorted(got, key=str), s), "%s follows compare() for sign %d" % (f.q, s))

def merge(prog, c):
    CMP = IC + "::compare"
    fs = [f for f in prog.fns.values() if f.cls is None and f.name != "operator()" and f.q.startswith(IN) and any(n["k"] == "call" and n.get("fn") == CMP for n in f.nodes) and len(f.params) >= 4]
    names = []
    for f in fs:
        c.fn(f); names.append(f.q); g = Graph(prog, f)
        A, B = [("param", i, p["n"]) for i, p in enumerate(f.params)][-2:]
        res = {}
        for s in (-1, 0, 1):
            for ad in "<=>":
                if ad == "=" and s: continue
                c.count("scenarios")
                outs = AI(g, SignOracle(prog, A, B, s, (CMP,), ad)).run()
                got = {e.get(("result",)) for n, e in outs}
                res[(s, ad)] = list(got)[0] if len(got) == 1 else None
        sg = lambda v: None if v is None else (v > 0) - (v < 0)
        for s in (-1, 1):
            for ad in "<>":
                c.judge(sg(res[(s, ad)]) == s, "mergeorder|%s|%d%s" % (f.name, s, ad), "%s: %s does not follow compare()" % (f.loc(), f.q), "%s follows compare()" % f.q)
        c.judge(sg(res[(0, "=")]) == 0 and sg(res[(0, "<")]) in (-1, 1) and sg(res[(0, ">")]) == -sg(res[(0, "<")]), "mergetotal|%s" % f.name, "%s: %s is not a total order on distinct members with equal keys (%s, %s)" % (f.loc(), f.q, res[(0, "<")], res[(0, ">")]), "%s is total" % f.q)
    # comparison of iterators
    for f in prog.fns.values():
        if f.name != "operator()" or len(f.params) != 2 or not all("IndexIterator" in p["t"] for p in f.params): continue
        c.fn(f); c.count("functors"); g = Graph(prog, f, inline=lambda t, fr: t.cls == f.cls, depth=2)
        A, B = [("param", i, p["n"]) for i, p in enumerate(f.params)]
        for v1 in (0, 1):
            for v2 in (0, 1):
                for s in ((-1, 0, 1) if v1 and v2 else (0,)):
                    c.count("scenarios")
                    outs = AI(g, SignOracle(prog, A, B, s, tuple(names) + (CMP,), None, (v1, v2))).run()
                    got = {e.get(("result",)) for n, e in outs}
                    want = int(s > 0) if v1 and v2 else int(bool(v1) and not v2)
                    c.judge(got == {want}, "itercmp|%s|%d%d%d" % (f.cls, v1, v2, s), "%s: %s is %s for validity %d/%d and order %d: the merge does not take the smallest element next" % (f.loc(), f.q, sorted(got, key=str), v1, v2, s), "%s: %d %d %d" % (f.q, v1, v2, s))

def sortpass(prog, c):
    """adjacent-swap sort: leaves only after a full pass without inversion; standard sorts with the functor are accepted"""
    for f in prog.fns.values():
        if not (f.cls is None and f.q.startswith(IN)): continue
        if not any("vector" in p["t"] and "IndexIterator" in p["t"] and p["t"].rstrip().endswith("&") and not p["t"].startswith("const") for p in f.params): continue
        c.fn(f); g = Graph(prog, f); L = Loops(g)
        V = next(("param", i, p["n"]) for i, p in enumerate(f.params) if "vector" in p["t"])
        cmps = calls(g, L, lambda n: last(n.ev[0]) == "operator()" and len(n.ev[3]) == 2 and all(a is not None and contains(a, V) for a in n.ev[3]))
        stds = calls(g, L, lambda n: n.ev[0] in ("std::sort", "std::stable_sort"))
        if stds:
            ok = all(contains(n.ev[3][0], V) and last(n.ev[3][0][1] if n.ev[3][0][0] == "call" else "") == "begin" and len(n.ev[3]) == 3 for n in stds) and not L.path([g.entry.i], [g.exit.i], [n.i for n in stds])
            c.judge(ok, "sort|%s" % f.name, "%s: not all iterators are sorted" % f.loc()); continue
        if not cmps: continue
        for n in cmps:
            a, b = n.ev[3]
            lp = L.innermost(n)
            if lp is None or a[0] != "idx" or b[0] != "idx" or a[1] != V or b[1] != V or len(L.enclosing(n)) < 2:
                c.count("sorts_not_recognised"); continue
            it = L.iteration(lp); ix = it.var
            dec = lambda x: x[0] == "op" and x[1] in ("-", "u-") and x[2] == ix and x[3] == ("int", 1)
            inc = lambda x: x == ("op", "+", ix, ("int", 1))
            up = a[2] == ix and dec(b[2]); upl = inc(a[2]) and b[2] == ix
            c.judge(up or upl, "sort|args|%s" % f.name, "%s: the order test does not ask whether the later iterator precedes its left neighbour" % n.loc(), "%s compares neighbours" % f.name)
            # swap on true
            cf = ("call", n.ev[0], n.ev[2], n.ev[3])
            flag = [k for k in g.nodes if k.k == "set" and k.i in L.live and k.ev[1] == "=" and k.ev[2] == ("int", 1) and k.i in lp.body]
            sa = [k for k in g.nodes if k.k == "set" and k.i in lp.body and k.ev[0] == a and k.ev[2] in (b,) or (k.k == "set" and k.i in lp.body and k.ev[0] == a and b in values(g, k.ev[2]))]
            sb = [k for k in g.nodes if k.k == "set" and k.i in lp.body and k.ev[0] == b and k.ev[2] in (a,) or (k.k == "set" and k.i in lp.body and k.ev[0] == b and a in values(g, k.ev[2]))]
            sw = calls(g, L, lambda k: last(k.ev[0]) in ("swap", "iter_swap") and k.i in lp.body and set(k.ev[3]) == {a, b})
            isn = lambda cnd: cnd == ("not", cf)
            ok = bool(sw) or (bool(sa) and bool(sb))
            for t in ([[k.i for k in sw]] if sw else [[k.i for k in sa], [k.i for k in sb]]) + [[k.i for k in flag]]:
                ok = ok and bool(t) and not misses(g, L, lp, n.i, t, isn)
            ist = lambda cnd: cnd == cf
            for k in sa + sb + sw + flag:
                # only on true
                ok = ok and not reach_without(g, L, lp, k.i, ist)
            c.judge(ok, "sort|swap|%s" % f.name, "%s: an inversion is not swapped and flagged on every path" % n.loc(), "%s swaps inversions" % f.name)
            outer = L.enclosing(n)[1]
            fv = {k.ev[0] for k in flag}
            ok = len(fv) == 1
            if ok:
                fv = list(fv)[0]
                for e, t, l in L.exits(outer):
                    if L.throws(t.i): continue
                    ok = ok and exitcond(l) == ("not", fv)
                clr = [k.i for k in g.nodes if k.k == "set" and k.ev[0] == fv and k.ev[2] == ("int", 0) and k.i in outer.body]
                ok = ok and bool(clr) and not any(k in lp.body for k in clr) and L.dom(lp.head, set(clr) | {i for i in lp.body if i != lp.head})
                ok = ok and it.steps and not it.early and not L.cycle_avoids(lp, [n.i])
                starts = [r[2] for r in [k.ev for k in g.nodes if k.k == "set" and k.ev[0] == ix and k.ev[1] == "=" and k.i not in lp.body]]
                ok = ok and bool(starts) and all(s == (("int", 1) if up else ("int", 0)) for s in starts)
            c.judge(ok, "sort|pass|%s" % f.name, "%s: the sort can end before a full pass without inversions" % n.loc(), "%s ends after a clean pass" % f.name)

def reach_without(g, L, lp, target, ist):
    """target reachable from the loop head inside the loop without crossing an edge on which ist(cond) holds"""
    seen = set(); todo = list(L.succs(lp.head))
    todo = [lp.head]
    while todo:
        i = todo.pop()
        if i in seen or i not in lp.body: continue
        seen.add(i)
        if i == target: return True
        for t, l in g.nodes[i].succ:
            if l is not None and l[0] == "eh": continue
            if l is not None and l[0] == "t" and l[1] is not None and ist(l[1] if l[2] else neg(l[1])): continue
            if t.i == lp.head: continue
            todo.append(t.i)
    return False

# ---------------------------------------------------------------- definitions
def definitions(prog, c):
    f = prog.fn(ID + "::isCompatibleIndexDefinition"); c.fn(f)
    g = Graph(prog, f, inline=lambda t, fr: t.cls is None and t.file == f.file, depth=2)
    ps = {p["n"]: ("param", i, p["n"]) for i, p in enumerate(f.params)}
    P = [("param", i, p["n"]) for i, p in enumerate(f.params)]
    pk = {}
    for i, p in enumerate(f.params):
        t = p["t"]
        if "EnIndexKind" in t: pk[P[i]] = "kind"
        elif "EnKeyFeatureComp" in t: pk[P[i]] = "ops"
        elif "vector" in t: pk[P[i]] = "keys"
        elif t in ("unsigned int", "uima::lowlevel::TyFSType"): pk[P[i]] = "type"
    if set(pk.values()) != {"kind", "ops", "keys", "type"}: raise AnalysisBroken("isCompatibleIndexDefinition parameters: %s" % pk)
    G = {"getIndexKind": "kind", "getTypeForIndex": "type", "getKeyFeatures": "keys", "getComparisonOps": "ops"}
    for comp in (0, 1):
        for diff in (None, "kind", "type", "keys", "ops", "len"):
            if not comp and diff in ("keys", "ops", "len"): continue
            c.count("scenarios")
            class O:
                def leaf(s, fm): return "new:" + pk[fm] if fm in pk else intconst(prog, fm)
                def call(s, fm, a, ev):
                    m = last(fm[1])
                    if m in G: return "old:" + G[m]
                    if m == "getComparator": return "comp" if comp else 0
                    o = ev(fm[2]) if fm[2] is not None else None
                    if m == "size" and isinstance(o, str) and o[4:] in ("keys", "ops"): return 3 if diff == "len" and o.startswith("new") else 2
                    if m in ("operator==", "operator!="):
                        v = ([o] if o is not None else []) + a
                        if len(v) == 2: r = s.cmp(m[8:], v[0], v[1]); return None if r is None else int(r)
                    if m == "equal": return None
                    return None
                def cmp(s, op, x, y):
                    if "comp" in (x, y) and 0 in (x, y): return {"==": False, "!=": True}.get(op)
                    if isinstance(x, str) and isinstance(y, str) and x[:3] != y[:3] and x[4:] == y[4:]:
                        e = not (diff == x[4:] or (diff == "len" and x[4:] in ("keys", "ops")))
                        return {"==": e, "!=": not e}.get(op)
                    return None
                def truth(s, v): return True if v == "comp" else None
            outs = AI(g, O()).run()
            got = {e.get(("result",)) for n, e in outs if n.k == "exit"}
            c.judge(got == {int(diff is None)}, "compatible|%s|%d" % (diff, comp), "%s: an index definition that differs from the registered one in %s is judged %s" % (f.loc(), diff, sorted(got, key=str)), "compatibility: %s %d" % (diff, comp))
    # defineIndex: on an existing id either compatible or exception; keys registered one to one
    f = prog.fn(ID + "::defineIndex"); x = Ctx(prog, f, keep=("isValidIndexId", "isCompatibleIndexDefinition", "createFactory")); c.fn(f); g, L = x.g, x.L
    r = explore(g)
    comps = calls(g, L, lambda n: last(n.ev[0]) == "isCompatibleIndexDefinition")
    vm = [fld(ID, m) for m in ("iv_mapFactories", "iv_mapIndexTypes")]
    ok = True; okreg = True
    isvalid = lambda fm: fm[0] == "call" and last(fm[1]) == "isValidIndexId"
    for facts, us in r.at.get(g.exit.i, ()):
        if has_b(facts, isvalid): ok = ok and has_b(facts, lambda fm: fm[0] == "call" and last(fm[1]) == "isCompatibleIndexDefinition")
    c.judge(ok and bool(comps), "define|conflict", "%s: a conflicting second definition of an index id is accepted silently" % f.loc(), "conflicting definitions are rejected")
    for n in comps:
        want = [("param", i, p["n"]) for i, p in enumerate(f.params)][:5]
        c.judge(list(n.ev[3][:5]) == want, "define|args", "%s: the compatibility test is not made on the definition given" % n.loc())
    ak = calls(g, L, lambda n: n.ev[0] == IC + "::addKey")
    if not ak: raise AnalysisBroken("defineIndex adds no keys")
    KF, CP = ("param", 2, f.params[2]["n"]), ("param", 3, f.params[3]["n"])
    for n in ak:
        lp = L.innermost(n); it = L.iteration(lp) if lp is not None else None
        ok = it is not None and it.full() and it.cont in (KF, CP) and n.ev[3][0] == ("idx", KF, it.var) and n.ev[3][1] == ("idx", CP, it.var) and not L.cycle_avoids(lp, [n.i])
        c.judge(ok, "define|keys", "%s: the comparator does not get every key with its own comparison operator in order" % n.loc(), "all keys registered in order")
    IDp = ("param", 4, f.params[4]["n"])
    TY = ("param", 1, f.params[1]["n"])
    reg = [n for n in g.nodes if n.k == "set" and n.i in L.live and n.ev[0] is not None and n.ev[0][0] == "idx" and n.ev[0][1] in vm]
    got = {last(n.ev[0][1][2]): (n.ev[0][2], n.ev[2]) for n in reg}
    ok = set(got) == {"iv_mapFactories", "iv_mapIndexTypes"} and all(v[0] == IDp for v in got.values()) and got["iv_mapIndexTypes"][1] == TY and all(y is not None and y[0] == "call" and last(y[1]) == "createFactory" for y in values(g, got["iv_mapFactories"][1]))
    for facts, us in r.at.get(reg[0].i, ()) if reg else (): ok = ok and has_b(facts, isvalid, False)
    c.judge(ok, "define|register", "%s: the index is not registered under its id with its type and factory (or replaces an existing one)" % f.loc(), "index registered with type and factory")
    for n in calls(g, L, lambda n: last(n.ev[0]) == "createFactory"):
        a = n.ev[3]
        ok = a[0] == ("param", 0, f.params[0]["n"]) and a[1] == TY and all(y is not None and y[0] in ("new", "call", "ctor") for y in values(g, a[2]))
        c.judge(ok, "define|factory", "%s: the factory is not created for the given kind, type and comparator" % n.loc())

def ctor_of(g, L, form):
    """class constructed by a new-expression form"""
    if form is None or form[0] != "new": return None
    return form[2] if len(form) > 2 and isinstance(form[2], str) else form[1]

def factories(prog, c):
    f = prog.fn(ID + "::createFactory"); c.fn(f); g = Graph(prog, f); L = Loops(g)
    cp = ("param", 2, f.params[2]["n"])
    kinds = {}
    for name in ("enOrdered", "enSet", "enFIFO"):
        v = enumv(prog, ID, name)
        class O:
            def leaf(s, fm): return v if fm == ("param", 0, f.params[0]["n"]) else intconst(prog, fm)
            def call(s, fm, a, ev): return None
            def cmp(s, op, x, y): return None
        made = []
        def visit(n, env):
            if n.k == "new": made.append((n.ev[1], n))
        AI(g, O()).run(visit)
        cls = {m[0].replace("class ", "").strip() for m in made}
        if len(cls) != 1: c.bad("factory|%s" % name, "%s: createFactory makes %s for kind %s" % (f.loc(), sorted(cls), name)); continue
        kinds[name] = (list(cls)[0], v)
    for name, (cls, v) in kinds.items():
        q = cls if "::" in cls else IN + cls
        ms = {m: [k for k in prog.fns.values() if k.cls == q and k.name == m] for m in ("getIndexKind", "createSingleIndex", "createCompositeIndex")}
        if not all(ms.values()): raise AnalysisBroken("factory %s" % q)
        k = ms["getIndexKind"][0]; gk = Graph(prog, k); c.fn(k)
        rv = {intconst(prog, n.ev[0]) for n in gk.nodes if n.k == "ret"}
        c.judge(rv == {v}, "factory|kind|%s" % name, "%s: the factory made for %s reports kind %s" % (k.loc(), name, rv), "%s reports its kind" % q)
        fam = {}
        for m in ("createSingleIndex", "createCompositeIndex"):
            k = ms[m][0]; gk = Graph(prog, k); c.fn(k)
            nn = [n for n in gk.nodes if n.k == "new"]
            fam[m] = {n.ev[1].rsplit("::", 1)[-1] for n in nn}
            cs = [n for n in gk.nodes if n.k == "call" and n.ev[0] and last(n.ev[0]) in fam[m]]
            for n in cs:
                hascmp = name != "enFIFO"
                a = n.ev[3]
                ok = a[0] == ("param", 0, k.params[0]["n"]) and a[1] == ("param", 1, k.params[1]["n"]) and (not hascmp or (len(a) == 3 and a[2] is not None and a[2][0] == "f" and "omparator" in a[2][2]))
                c.judge(ok, "factory|args|%s|%s" % (name, m), "%s: the index is not built for the given repository, type and the definition's comparator" % n.loc(), "%s builds with its comparator" % k.q)
        stem = lambda s, suf: {x[:-len(suf)] for x in s if x.endswith(suf)}
        a, b = stem(fam["createSingleIndex"], "SingleIndex"), stem(fam["createCompositeIndex"], "CompositeIndex")
        want = {"enOrdered": "Ordered", "enSet": "Set", "enFIFO": "FIFO"}[name]
        c.judge(a == b == {want}, "factory|family|%s" % name, "%s: kind %s builds %s and %s" % (ms["createSingleIndex"][0].loc(), name, sorted(fam["createSingleIndex"]), sorted(fam["createCompositeIndex"])), "%s builds one family" % q)
    # constructors keep the comparator
    for f in prog.fns.values():
        if f.d.get("kind") == "ctor" and f.q.startswith(IN) and any("IndexComparator" in p["t"] for p in f.params) and f.cls in prog.subclasses("uima::lowlevel::IndexABase"):
            g = Graph(prog, f); cp = [("param", i, p["n"]) for i, p in enumerate(f.params) if "IndexComparator" in p["t"]][0]
            ok = any((n.k == "set" and n.ev[2] == cp and n.ev[0][0] == "f" and "omparator" in n.ev[0][2]) or (n.k == "call" and n.ev[3] and cp in n.ev[3]) for n in g.nodes)
            c.judge(ok, "ctor|%s" % f.cls, "%s: %s drops its comparator" % (f.loc(), f.q), "%s keeps its comparator" % f.q)

# ---------------------------------------------------------------- from the descriptor
def spec(prog, c):
    f = prog.fn("uima::internal::CASDefinition::createIndexesFromSpecifier"); c.fn(f)
    x = Ctx(prog, f); g, L = x.g, x.L
    D = "uima::FSIndexDescription"; K = "uima::FSIndexKeyDescription"
    di = calls(g, L, lambda n: n.ev[0] == ID + "::defineIndex")
    if not di: raise AnalysisBroken("createIndexesFromSpecifier defines no index")
    n = di[0]
    lp = L.innermost(n); it = L.iteration(lp) if lp else None
    c.judge(it is not None and it.full() and not L.cycle_avoids(lp, [n.i]), "spec|all", "%s: not every index description is defined" % n.loc(), "every description defines an index")
    KV, CV = n.ev[3][2], n.ev[3][3]
    pk = calls(g, L, lambda k: last(k.ev[0]) == "push_back" and k.ev[2] == KV)
    pc = calls(g, L, lambda k: last(k.ev[0]) == "push_back" and k.ev[2] == CV)
    cl = calls(g, L, lambda k: last(k.ev[0]) == "clear" and k.ev[2] in (KV, CV))
    ok = bool(pk) and bool(pc)
    if ok:
        kl = L.innermost(pk[0]); ki = L.iteration(kl)
        ok = ki.full() and all(L.innermost(k) is kl for k in pk + pc) and not L.cycle_avoids(kl, [k.i for k in pk]) and not L.cycle_avoids(kl, [k.i for k in pc])
        for v in (KV, CV):
            cs = [k.i for k in cl if k.ev[2] == v]
            if v[0] == "var" and any(k.k in ("ctor",) for k in g.nodes): pass
            inloop = [k for k in cs if k in lp.body]
            decl = [k.i for k in g.nodes if k.k == "set" and k.ev[0] == v and k.i in lp.body]
            ok = ok and (bool(inloop) and not L.path(L.succs(lp.head), [kl.head], inloop, within=lp.body) or not cs and bool(decl) or bool(decl))
    c.judge(ok, "spec|keys", "%s: the key and operator lists of an index do not get exactly one entry per key of its description" % n.loc(), "one entry per key")
    # values: interpreted per key kind and operator
    def rng(start, stop): return None
    for prio in (0, 1):
        for op in ("STANDARD", "REVERSE"):
            if prio and op == "REVERSE": continue
            c.count("scenarios")
            class O:
                def leaf(s, fm):
                    if fm[0] == "g" and "INVALID_FEATURE" in fm[1]: return "nofeat"
                    return intconst(prog, fm)
                def call(s, fm, a, ev):
                    m = last(fm[1])
                    if m == "isTypePriority": return prio
                    if m == "getComparator": return enumv(prog, K, op)
                    if m == "getFeatureByBaseName": return "feat"
                    if m == "isValidFeature": return 1
                    if m == "isValidType": return 1
                    return None
                def cmp(s, o, x, y): return None
            o = O(); ai = AI(g, o); got = set()
            def visit(k, env):
                if k.i == kl.head: env[("k",)] = (); return env
                if k.k == "call" and k in pk: env[("k",)] = env.get(("k",), ()) + (ai.val(k.ev[3][0], env),)
                if k.k == "call" and k in pc: env[("k",)] = env.get(("k",), ()) + (ai.val(k.ev[3][0], env),)
                if k.i == kl.head: return False
                return env
            def visit2(k, env):
                if k.i == kl.head:
                    if len(env.get(("k",), ())): got.add(env[("k",)])
                    env[("k",)] = ()
                    return env
                return visit(k, env)
            ai.run(visit2)
            want = ("nofeat" if prio else "feat", enumv(prog, IC, "REVERSE_STANDARD_COMPARE" if op == "REVERSE" else "STANDARD_COMPARE"))
            c.judge(got in ({want}, {want[::-1]}), "spec|%d|%s" % (prio, op), "%s: a %s key with %s order is registered as %s" % (pk[0].loc(), "type-priority" if prio else "feature", op.lower(), sorted(got, key=str)), "%s key, %s" % ("priority" if prio else "feature", op))
    for kd, low in (("SORTED", "enOrdered"), ("SET", "enSet"), ("BAG", "enFIFO")):
        class O2:
            def leaf(s, fm): return intconst(prog, fm)
            def call(s, fm, a, ev): return enumv(prog, D, kd) if last(fm[1]) == "getIndexKind" else None
            def cmp(s, o, x, y): return None
        ai = AI(g, O2()); got = set()
        def visit(k, env):
            if k is n: got.add(ai.val(k.ev[3][0], env)); return False
        ai.run(visit)
        c.judge(got == {enumv(prog, ID, low)}, "spec|kind|%s" % kd, "%s: a %s index description becomes kind %s" % (n.loc(), kd, sorted(got, key=str)), "%s -> %s" % (kd, low))
    a = n.ev[3]
    okT = a[1] is not None and a[1][0] == "call" and last(a[1][1]) == "getTypeByName" and any(y[0] == "call" and y[1] == D + "::getTypeName" for y in subforms(a[1]))
    okL = a[4] is not None and any(y[0] == "call" and y[1] == D + "::getLabel" for y in subforms(a[4]))
    c.judge(okT and okL, "spec|id", "%s: the index is not defined for the described type and label" % n.loc(), "type and label from the description")

def predefined(prog, c):
    """the built-in annotation index"""
    f = prog.fn("uima::internal::CASDefinition::createPredefinedCASIndexes"); c.fn(f)
    x = Ctx(prog, f); g, L = x.g, x.L
    STD, REV = enumv(prog, IC, "STANDARD_COMPARE"), enumv(prog, IC, "REVERSE_STANDARD_COMPARE")
    want = {"INDEXID_ANNOTATION": ("enOrdered", "TYPE_NAME_ANNOTATION", [("gs_tyBeginPosFeature", STD), ("gs_tyEndPosFeature", REV), ("INVALID_FEATURE", STD)]),
            "INDEXID_SOFA": ("enSet", "TYPE_NAME_SOFA", [("gs_tySofaNumFeature", STD)])}
    seen = {}
    class O:
        def leaf(s, fm): return last(fm[1]) if fm[0] == "g" and intconst(prog, fm) is None else intconst(prog, fm)
        def call(s, fm, a, ev): return a[0] if last(fm[1]) == "getTypeByName" else None
        def cmp(s, o, x, y): return None
    class O1(O):
        def leaf(s, fm):
            if fm[0] == "g": return last(fm[1]).replace("::", "")
            return intconst(prog, fm)
    ai = AI(g, O1())
    def visit(n, env):
        if n.k == "call" and n.ev[2] is not None and n.ev[2][0] == "var" and last(n.ev[0]) in ("clear", "push_back"):
            k = ("vec", n.ev[2])
            env[k] = () if last(n.ev[0]) == "clear" else env.get(k, ()) + (ai.val(n.ev[3][0], env) if "EnKey" not in n.ev[0] else last(n.ev[3][0][1]),)
            return env
        if n.k == "call" and n.ev[0] == ID + "::defineIndex":
            a = n.ev[3]
            idn = next((last(y[1]) for y in subforms(a[4]) if y[0] == "g"), None)
            ty = next((last(y[1]) for y in subforms(a[1]) if y[0] == "g" and last(y[1]).startswith("TYPE_NAME")), None)
            seen.setdefault(idn, []).append((n, last(a[0][1]) if a[0][0] == "g" else intconst(prog, a[0]), ty, env.get(("vec", a[2]), ()), env.get(("vec", a[3]), ())))
    ai.run(visit)
    for idn, (kind, ty, keys) in want.items():
        got = seen.get(idn, [])
        ops = {STD: "STANDARD_COMPARE", REV: "REVERSE_STANDARD_COMPARE"}
        ok = bool(got)
        for n, k, t, kf, co in got:
            ok = ok and (k == kind or k == enumv(prog, ID, kind)) and t == ty and list(kf) == [a for a, b in keys] and list(co) == [ops[b] for a, b in keys]
        c.judge(ok, "predef|%s" % idn, "%s: the predefined index %s is not %s on %s with keys %s (%s)" % (f.loc(), idn, kind, ty, [a for a, b in keys], [g_[1:] for g_ in got]), "predefined %s" % idn)
