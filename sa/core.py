"""Program model and path engine.

 Program   merged, resolved program (functions, classes, enums, globals)
 Frame     one activation of a function in an inlined graph (parameter forms)
 Graph     flow graph of a root function with repository callees inlined
 explore   disjunctive forward dataflow over a Graph: branch conditions become
           normalised facts, infeasible edges are pruned by the facts held
"""
import sys, re, time
from . import front
from .front import AnalysisBroken

sys.setrecursionlimit(20000)

CMP = {"<", ">", "<=", ">=", "==", "!="}
NEGOP = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}

def split_sig(u):
    """parameter type strings of a function id 'q(params)const@file'"""
    # find matching outermost paren group at the end
    s = u
    if "@src/" in s: s = s[:s.rindex("@src/")]
    end = s.rfind(")")
    depth = 0
    i = end
    while i >= 0:
        c = s[i]
        if c == ")": depth += 1
        elif c == "(":
            depth -= 1
            if depth == 0: break
        i -= 1
    inner = s[i + 1:end]
    out, d, cur = [], 0, ""
    for c in inner:
        if c in "<([": d += 1
        if c in ">)]": d -= 1
        if c == "," and d == 0:
            out.append(cur); cur = ""
        else: cur += c
    if cur or out: out.append(cur)
    return out, s[end + 1:]

def mutable_ref(t):
    t = t.strip()
    if t.endswith("&&"): return False
    if t.endswith("&"):
        return not t.startswith("const ")
    return False

class Fn:
    __slots__ = ("d", "u", "q", "nodes", "blocks", "prog", "_ldefs", "params", "_bt")
    def __init__(self, d, prog):
        self.d = d; self.u = d["u"]; self.q = d["q"]; self.nodes = d["nodes"]; self.prog = prog
        self.blocks = {b["id"]: b for b in d.get("blocks", [])}
        self.params = d["params"]
        self._ldefs = None
    @property
    def cls(self): return self.d.get("cls")
    @property
    def name(self): return self.q.rsplit("::", 1)[-1]
    @property
    def file(self): return self.d["file"]
    @property
    def line(self): return self.d["line"]
    def loc(self, nid=None):
        return "%s:%d" % (self.d["file"], self.nodes[nid]["l"] if nid is not None and "l" in self.nodes[nid] else self.d["line"])
    def strip(self, i):
        while True:
            n = self.nodes[i]
            if n["k"] == "cast": i = n["s"]
            elif n["k"] == "ctor" and n.get("cp") and len(n["a"]) == 1: i = n["a"][0]
            else: return i
    def elems(self):
        for b in self.d.get("blocks", []):
            for e in b["e"]: yield e
    def calls(self):
        for i, n in enumerate(self.nodes):
            if n["k"] in ("call", "ctor"): yield i, n
    def ldefs(self):
        """local/param decl id -> list of defining node ids; second map: decl id -> mutated?"""
        if self._ldefs is not None: return self._ldefs
        defs, mut, types = {}, set(), {}
        for p in self.params: types[p["id"]] = p["t"]
        def root_local(i):
            i = self.strip(i)
            n = self.nodes[i]
            if n["k"] == "ref" and n.get("d") in ("local", "param", "slocal"): return n["id"]
            return None
        for i, n in enumerate(self.nodes):
            k = n["k"]
            if k == "decl":
                for v in n["vars"]:
                    types[v["id"]] = v["t"]
                    defs.setdefault(v["id"], []).append((i, v.get("init")))
            elif k == "asg":
                r = root_local(n["a"][0])
                if r is not None: defs.setdefault(r, []).append((i, n["a"][1] if n["op"] == "=" else None))
                else:
                    # element / field store through a local aggregate
                    b = self.strip(n["a"][0]); bn = self.nodes[b]
                    while bn["k"] in ("mem", "idx"):
                        if bn["k"] == "mem":
                            if bn.get("ar"): bn = None; break
                            b = self.strip(bn["b"])
                        else: b = self.strip(bn["a"][0])
                        bn = self.nodes[b]
                    if bn is not None and bn["k"] == "ref" and "id" in bn and not types.get(bn["id"], "").endswith("*"): mut.add(bn["id"])
            elif k == "un" and n["op"] in ("++", "--"):
                r = root_local(n["s"])
                if r is not None: defs.setdefault(r, []).append((i, None))
            elif k == "un" and n["op"] == "&":
                r = root_local(n["s"])
                if r is not None: mut.add(r)
            elif k in ("call", "ctor"):
                u = n.get("u")
                if u:
                    if n.get("o") is not None and k == "call":
                        r = root_local(n["o"])
                        if r is not None:
                            sig = split_sig(u)[1]
                            if not sig.startswith("const") and not (n.get("fn", "").startswith("std::") and n["fn"].rsplit("::", 1)[-1] in ("operator[]", "at", "begin", "end", "find", "back", "front", "operator*", "operator->", "rbegin", "rend", "lower_bound", "upper_bound")):
                                mut.add(r)
                    pt = split_sig(u)[0]
                    if n.get("fn", "").startswith(("std::pair", "std::make_pair")): pt = []
                    for a, t in zip(n["a"], pt):
                        if mutable_ref(t):
                            r = root_local(a)
                            if r is not None: mut.add(r)
        self._ldefs = (defs, mut, types)
        return self._ldefs

class Program:
    def __init__(self, raw=None):
        raw = raw or front.load_raw()
        self.raw = raw
        self.units = raw["units"]
        self.fns = {}
        self.byq = {}
        for d in raw["functions"]:
            f = Fn(d, self)
            self.fns[f.u] = f
            self.byq.setdefault(f.q, []).append(f)
        self.classes = {c["t"]: c for c in raw["classes"]}
        self.clsq = {}
        for c in raw["classes"]: self.clsq.setdefault(c["q"], []).append(c)
        self.vars = {}
        for v in raw["vars"]: self.vars.setdefault(v["q"], v)
        self.enumc = {}
        for e in raw["enums"]:
            for x in e["e"]: self.enumc[x["n"]] = x["v"]
        # overriding
        self.over = {}
        def add(u, overs):
            for o in overs: self.over.setdefault(o, set()).add(u)
        for c in raw["classes"]:
            for m in c["methods"]: add(m["u"], m["over"])
        for d in raw["functions"]:
            add(d["u"], d.get("over", []))
        self.gcv = {}
        for f in self.fns.values():
            for n in f.nodes:
                if n["k"] == "ref" and n.get("d") == "global" and "cv" in n: self.gcv[n["n"]] = n["cv"]
        self._callers = None
        self.virt_decl = set()
        for c in raw["classes"]:
            for m in c["methods"]:
                if m["virt"]: self.virt_decl.add(m["u"])
    def fn(self, q, nparams=None, sig=None, file=None):
        c = self.byq.get(q, [])
        if nparams is not None: c = [f for f in c if len(f.params) == nparams]
        if sig is not None: c = [f for f in c if sig in f.u]
        if file is not None: c = [f for f in c if f.file.endswith(file)]
        if len(c) != 1:
            raise AnalysisBroken("anchor %s%s resolves to %d functions: %s" % (q, "/%s" % (nparams if nparams is not None else sig or ""), len(c), [f.u for f in c]))
        return c[0]
    def fnall(self, q, minimum=1):
        c = self.byq.get(q, [])
        if len(c) < minimum: raise AnalysisBroken("anchor %s: %d functions" % (q, len(c)))
        return c
    def targets(self, u, virt):
        """functions with bodies a call may reach"""
        r = []
        if u in self.fns: r.append(self.fns[u])
        if virt:
            seen, todo = {u}, [u]
            while todo:
                for o in self.over.get(todo.pop(), ()):
                    if o not in seen:
                        seen.add(o); todo.append(o)
                        if o in self.fns: r.append(self.fns[o])
        return r
    def bases(self, q):
        out, todo = [], [q]
        while todo:
            x = todo.pop()
            for c in self.clsq.get(x, []):
                for b in c["bases"]:
                    if b not in out: out.append(b); todo.append(b)
        return out
    def subclasses(self, q):
        return [c["q"] for c in self.raw["classes"] if q in self.bases(c["q"])]
    def callees(self, f):
        for i, n in f.calls():
            if "u" in n:
                for t in self.targets(n["u"], n.get("v")): yield i, t
        for i, n in enumerate(f.nodes):
            if n["k"] == "adtor" and n.get("u") in self.fns: yield i, self.fns[n["u"]]
    def callers(self):
        if self._callers is None:
            self._callers = {}
            for f in self.fns.values():
                for i, t in self.callees(f):
                    self._callers.setdefault(t.u, []).append((f, i))
        return self._callers
    def reach(self, roots, stop=lambda f: False):
        seen, todo = {}, list(roots)
        for r in roots: seen[r.u] = None
        while todo:
            f = todo.pop()
            if stop(f): continue
            for i, t in self.callees(f):
                if t.u not in seen:
                    seen[t.u] = (f, i); todo.append(t)
        return seen
    def strings(self, q):
        """string constants of a global / static array initialiser"""
        v = self.vars.get(q)
        if v is None or "nodes" not in v: return None
        return [n["v"] for n in v["nodes"] if n and n["k"] == "str"]

# ------------------------------------------------------------------ forms

def I(v): return ("int", v)

def subforms(f):
    yield f
    if isinstance(f, tuple):
        for x in f[1:]:
            if isinstance(x, tuple):
                if x and isinstance(x[0], str): yield from subforms(x)
                else:
                    for y in x:
                        if isinstance(y, tuple): yield from subforms(y)

_cont_cache = {}
def contains(f, sub):
    k = (f, sub)
    r = _cont_cache.get(k)
    if r is None:
        r = any(x == sub for x in subforms(f))
        if len(_cont_cache) > 500000: _cont_cache.clear()
        _cont_cache[k] = r
    return r

def show(f):
    if f is None: return "-"
    if not isinstance(f, tuple): return str(f)
    k = f[0]
    if k == "int": return str(f[1])
    if k == "str": return '"%s"' % f[1]
    if k == "this": return "this"
    if k == "param": return f[2]
    if k == "g": return f[1].rsplit("::", 1)[-1]
    if k == "enum": return f[1].rsplit("::", 1)[-1]
    if k == "f":
        b = show(f[1]); n = f[2].rsplit("::", 1)[-1]
        return n if b == "this" else b + "." + n
    if k == "var": return f[3]
    if k == "idx": return "%s[%s]" % (show(f[1]), show(f[2]))
    if k == "call": return "%s%s(%s)" % (show(f[2]) + "." if f[2] is not None and f[2] != ("this",) else "", f[1].rsplit("::", 1)[-1], ", ".join(show(x) for x in f[3]))
    if k == "op": return "(%s %s %s)" % (show(f[2]), f[1], show(f[3]))
    if k == "not": return "!" + show(f[1])
    if k == "ite": return "(%s ? %s : %s)" % tuple(show(x) for x in f[1:4])
    if k == "ctor": return "%s(%s)" % (f[1].rsplit("::", 1)[-1], ", ".join(show(x) for x in f[2]))
    if k == "new": return "new " + f[1]
    if k == "ret": return "result of " + f[2]
    if k == "cmp": return "%s %s %s" % (show(f[2]), f[1], show(f[3]))
    if k in ("and", "or"): return "(%s %s %s)" % (show(f[1]), k, show(f[2]))
    if k == "tmp": return "<tmp>"
    return k + "(" + ", ".join(show(x) for x in f[1:] if isinstance(x, tuple) and x and isinstance(x[0], str)) + ")"

UNS = ("unsigned", "bool")

class Frame:
    _n = 0
    def __init__(self, fn, bind, thisform, depth, parent=None, callnode=None, tag=None, raw=False, byt=False, thrown=None):
        self.raw = raw
        self.byt = byt            # addresses in bytes: ("mem", address, width) and scaled pointer arithmetic
        self.fn = fn; self.bind = bind; self.this = thisform; self.depth = depth
        self.parent = parent; self.callnode = callnode
        self.tag = tag            # stable identity: path of call nodes
        self.memo = {}
        self.inl = {}             # call node id -> result form
        self.busy = set()
    def chain(self):
        f, r = self, []
        while f: r.append(f); f = f.parent
        return r
    def where(self, nid=None):
        s = self.fn.loc(nid)
        p, c = self.parent, self.callnode
        while p is not None:
            s += " <- " + p.fn.loc(c); c = p.callnode; p = p.parent
        return s
    def form(self, i):
        if i is None or i < 0: return None
        r = self.memo.get(i)
        if r is None:
            r = self._form(i)
            self.memo[i] = r
        return r
    def varform(self, did, name):
        return ("var", self.tag, did, name)
    def _local(self, n):
        did = n["id"]
        defs, mut, types = self.fn.ldefs()
        t = types.get(did, "")
        isparam = any(p["id"] == did for p in self.fn.params)
        if self.raw:
            ref = t.rstrip().endswith("&")
            if isparam: return self.bind[did] if did in self.bind and (ref or (self.parent is None and did not in defs and did not in mut)) else self.varform(did, n["n"])
            ds = sorted(defs.get(did, []), key=lambda d: self.fn.nodes[d[0]]["k"] != "decl")    # a reference is what its declaration binds
            if ref and ds and ds[0][1] is not None and did not in self.busy:
                self.busy.add(did)
                try: return self.form(ds[0][1])
                finally: self.busy.discard(did)
            return self.varform(did, n["n"])
        if isparam:
            if did in self.bind and (did not in defs) and (did not in mut or t.rstrip().endswith("&") or mutable_ok(t)):
                return self.bind[did]
            if did in self.bind and did not in defs and self.parent is None: return self.bind[did]
            if t.rstrip().endswith("&") and did in self.bind: return self.bind[did]
            return self.varform(did, n["n"]) if (did in defs or did in mut) else self.bind.get(did, self.varform(did, n["n"]))
        ds = sorted(defs.get(did, []), key=lambda d: self.fn.nodes[d[0]]["k"] != "decl")
        if t.rstrip().endswith("&") and ds and ds[0][1] is not None:
            if did in self.busy: return self.varform(did, n["n"])
            self.busy.add(did)
            try: return self.form(ds[0][1])
            finally: self.busy.discard(did)
        real = [d for d in ds if self.fn.nodes[d[0]]["k"] != "decl" or d[1] is not None]
        if len(real) == 1 and real[0][1] is not None and did not in mut and did not in self.busy \
           and not (self.fn.nodes[real[0][0]]["k"] == "decl" and any(v.get("st") for v in self.fn.nodes[real[0][0]]["vars"] if v["id"] == did)):
            if self.fn.nodes[real[0][0]]["k"] == "asg" and len(ds) > 1 and not self._dominates(real[0][0], did):
                pass
            init = real[0][1]
            self.busy.add(did)
            try:
                f = self.form(init)
            finally: self.busy.discard(did)
            if f is not None and f[0] not in ("init", "zero") and not (t.rstrip().endswith("*") and self._replaced(init)): return f
        return self.varform(did, n["n"])
    def _replaced(self, i):
        """the local keeps the old value of a pointer member that the function gives a new one"""
        i = self.fn.strip(i); n = self.fn.nodes[i]
        if n["k"] != "mem" or n.get("f") is None: return False
        fa = {self.fn.nodes[b].get("f") for m in self.fn.nodes if m and m.get("k") == "asg" for b in [self.fn.strip(m["a"][0])] if self.fn.nodes[b]["k"] == "mem"}
        return n["f"] in fa
    def _dominates(self, *a): return True
    def _byteform(self, n, k):
        nodes = self.fn.nodes
        def ptr(i): return nodes[i].get("t", "").rstrip().endswith("*")
        if k == "un" and n["op"] == "*" and ptr(n["s"]) and width(n["t"]): return ("mem", self.form(n["s"]), width(n["t"]))
        if k == "un" and n["op"] == "&":
            s = self.form(n["s"])
            if s is not None and s[0] == "mem": return s[1]
            if s is not None and s[0] == "idx" and width(nodes[n["s"]].get("t", "")): return padd(("call", "std::vector::data", s[1], ()), s[2], width(nodes[n["s"]]["t"]))
            return None
        if k == "idx" and width(n["t"]) and (ptr(n["a"][0]) or nodes[n["a"][0]].get("t", "").endswith("]")):
            return ("mem", padd(self.form(n["a"][0]), self.form(n["a"][1]), width(n["t"])), width(n["t"]))
        if k == "bin" and n["op"] in ("+", "-"):
            a, b = n["a"]
            if ptr(a) and ptr(b): return ("op", "/", ("op", "-", self.form(a), self.form(b)), ("int", width(pointee(nodes[a]["t"]))))
            if ptr(a): return padd(self.form(a), self.form(b), width(pointee(nodes[a]["t"])), n["op"])
            if ptr(b): return padd(self.form(b), self.form(a), width(pointee(nodes[b]["t"])))
        if k == "ctor" and "iterator" in (n.get("cls") or n.get("fn") or "") and len(n["a"]) == 1: return self.form(n["a"][0])
        if k == "call" and "fn" in n and "iterator" in n["fn"] and (n["fn"].startswith("std::") or n["fn"].startswith("__gnu_cxx")) and n.get("o") is not None:
            nm = n["fn"].rsplit("::", 1)[-1]
            if nm in ("operator+", "operator-") and len(n["a"]) == 1:
                if "iterator" in nodes[n["a"][0]].get("t", ""): return ("op", "-", self.form(n["o"]), self.form(n["a"][0]))
                return ("op", nm[-1], self.form(n["o"]), self.form(n["a"][0]))
            if nm in ("operator++", "operator--"): return self.form(n["o"]) if not n["a"] else ("op", "-" if nm[-1] == "+" else "+", self.form(n["o"]), ("int", 1))
            if nm in ("operator+=", "operator-="): return self.form(n["o"])
            if nm == "operator*" and not n["a"]: return ("mem", self.form(n["o"]), 0)
            if nm == "operator[]": return ("mem", ("op", "+", self.form(n["o"]), self.form(n["a"][0])), 0)
        if k == "call" and n.get("fn", "").startswith("__gnu_cxx::operator-") and len(n["a"]) == 2: return ("op", "-", self.form(n["a"][0]), self.form(n["a"][1]))
        return None
    def _form(self, i):
        n = self.fn.nodes[i]; k = n["k"]
        if self.byt:
            r = self._byteform(n, k)
            if r is not None: return r
        if k == "int" or k == "bool": return ("int", n["v"])
        if k == "null": return ("int", 0)
        if k == "zero": return ("int", 0)
        if k == "str": return ("str", n["v"])
        if k == "flt": return ("flt", n["v"])
        if k == "this": return self.this
        if k == "ref":
            d = n.get("d")
            if d in ("local", "param"): return self._local(n)
            if d == "slocal": return ("g", self.fn.q + "::" + n["n"])
            if d == "enumc": return ("enum", n["n"], n.get("cv"))
            if d == "global": return ("g", n["n"])
            if d == "fn": return ("fn", n["u"])
            return ("g", n["n"])
        if k == "mem":
            if n.get("d") == "fn": return ("fn", n["u"])
            return ("f", self.form(n["b"]), n["f"])
        if k == "ret" or k == "throw":
            return self.form(n["s"]) if "s" in n else None
        if k == "cast":
            if "cv" in n and self.fn.nodes[self.fn.strip(i)]["k"] not in ("ref",): return ("int", n["cv"])
            if n.get("dyn"): return ("dyn", n["t"], self.form(n["s"]))
            return self.form(n["s"])
        if k == "un":
            if "cv" in n: return ("int", n["cv"])
            op = n["op"]
            s = self.form(n["s"])
            if op in ("&", "*", "+", "++", "--", "__extension__"):
                if op == "&" and s and s[0] == "idx" and s[2] == ("int", 0): return s[1]
                if op == "*" and s and s[0] == "op" and s[1] == "+" : return ("idx", s[2], s[3])
                return s
            if op == "!":
                return neg(s)
            if op == "-": return ("op", "-", ("int", 0), s)
            return ("un", op, s)
        if "cv" in n and k in ("bin", "sizeof", "cond", "call"): return ("int", n["cv"])
        if k == "bin":
            a, b = self.form(n["a"][0]), self.form(n["a"][1])
            op = n["op"]
            if op == ",": return b
            if op == "&&": return ("and", a, b)
            if op == "||": return ("or", a, b)
            if op in CMP: return ("cmp", op, a, b)
            if op == "-" and n["t"].startswith("unsigned"): op = "u-"
            return ("op", op, a, b)
        if k == "asg":
            if n["op"] == "=": return self.form(n["a"][1])
            return ("op", n["op"][:-1], self.form(n["a"][0]), self.form(n["a"][1]))
        if k == "cond":
            return ("ite", self.form(n["a"][0]), self.form(n["a"][1]), self.form(n["a"][2]))
        if k == "idx": return ("idx", self.form(n["a"][0]), self.form(n["a"][1]))
        if k == "new":
            return ("new", n["at"], self.tag, i)
        if k == "ctor":
            if n.get("cp") and len(n["a"]) == 1: return self.form(n["a"][0])
            if i in self.inl and self.inl[i] is not None: return self.inl[i]
            return ("ctor", n.get("cls") or n.get("fn"), tuple(self.form(a) for a in n["a"]))
        if k == "call":
            if i in self.inl: return self.inl[i]
            args = tuple(self.form(a) for a in n["a"])
            if "fn" not in n: return ("icall", self.form(n["ind"]), args)
            o = self.form(n["o"]) if n.get("o") is not None else None
            q = n["fn"]
            nm = q.rsplit("::", 1)[-1]
            if q.startswith("std::") or q.startswith("__gnu_cxx"):
                if nm == "operator[]" or nm == "at": return ("idx", o, args[0])
                if nm in ("operator*", "operator->") and not args and o is not None: return o
                if n.get("op") in CMP and o is None and len(args) == 2: return ("cmp", n["op"], args[0], args[1])
                if nm in ("move", "forward") and o is None and len(args) == 1: return args[0]
            if n.get("op") in CMP:
                if o is not None and len(args) == 1: return ("cmp", n["op"], o, args[0])
                if o is None and len(args) == 2: return ("cmp", n["op"], args[0], args[1])
            return ("call", q, o, args)
        if k == "sizeof": return ("sizeof", n["st"])
        if k == "init": return ("init", tuple(self.form(a) for a in n["a"]))
        if k == "typeid": return ("typeid",)
        if k == "decl":
            return None
        return ("other", self.tag, i)

def mutable_ok(t): return False

_W = {"char": 1, "signed char": 1, "unsigned char": 1, "bool": 1, "short": 2, "unsigned short": 2, "char16_t": 2, "int": 4, "unsigned int": 4, "float": 4, "wchar_t": 4, "char32_t": 4, "long": 8, "unsigned long": 8, "long long": 8, "unsigned long long": 8, "double": 8}
def width(t):
    """size of a scalar type in bytes (0: unknown)"""
    t = t.replace("const ", "").replace("volatile ", "").replace(" const", "").strip()
    if t.endswith("*"): return 8
    return _W.get(t, 0)
def pointee(t):
    t = t.rstrip()
    if t.endswith("const"): t = t[:-5].rstrip()
    return t[:-1].rstrip() if t.endswith("*") else t
def padd(a, b, w, op="+"):
    if b == ("int", 0): return a
    if w == 0: return ("other", "stride", a, b)
    return ("op", op, a, b if w == 1 else ("int", b[1] * w) if b is not None and b[0] == "int" else ("op", "*", ("int", w), b))

def neg(s):
    if s is None: return None
    if s[0] == "not": return s[1]
    if s[0] == "cmp": return ("cmp", NEGOP[s[1]], s[2], s[3])
    if s[0] == "int": return ("int", 0 if s[1] else 1)
    return ("not", s)

# ------------------------------------------------------------------ linear atoms

def lin(f, prog=None):
    """-> (dict form->coef, const)"""
    if f[0] == "int": return {}, f[1]
    if f[0] == "enum" and f[2] is not None: return {}, f[2]
    if f[0] == "g" and prog is not None and f[1] in prog.gcv: return {}, prog.gcv[f[1]]
    if f[0] == "op" and f[1] in ("+", "-"):
        a, ca = lin(f[2], prog); b, cb = lin(f[3], prog)
        s = 1 if f[1] == "+" else -1
        r = dict(a)
        for x, c in b.items():
            r[x] = r.get(x, 0) + s * c
            if not r[x]: del r[x]
        return r, ca + s * cb
    if f[0] == "op" and f[1] == "*":
        a, ca = lin(f[2], prog); b, cb = lin(f[3], prog)
        if not a: return ({x: c * ca for x, c in b.items()} if ca else {}), cb * ca
        if not b: return ({x: c * cb for x, c in a.items()} if cb else {}), ca * cb
    return {f: 1}, 0

_rep = {}
def rep(x):
    """repr, computed once per form"""
    r = _rep.get(x)
    if r is None: r = _rep[x] = repr(x)
    return r
def canon(d): return tuple(sorted(d.items(), key=rep)) if len(d) > 1 else tuple(d.items())

def atom(cond, prog=None):
    """boolean form -> (atom, polarity) or None when it is not atomic.
    atoms: ('le', lin, c)  sum<=c ; ('eq', lin, c) ; ('b', form)"""
    if cond is None: return None
    k = cond[0]
    if k == "not":
        r = atom(cond[1], prog)
        return None if r is None else (r[0], not r[1])
    if k in ("and", "or"): return None
    if k == "cmp":
        op, a, b = cond[1], cond[2], cond[3]
        if a is None or b is None: return None
        if op in ("==", "!="):
            # comparison of a boolean with a literal
            da, ca = lin(a, prog); db, cb = lin(b, prog)
            d = dict(da)
            for x, c in db.items():
                d[x] = d.get(x, 0) - c
                if not d[x]: del d[x]
            c = cb - ca
            if not d: return (("const",), (c == 0) == (op == "=="))
            if len(d) == 1 and c == 0:
                (x, cc), = d.items()
                at = atom(x, prog) if x[0] in ("cmp", "not") else (("b", x), True)
                if at is None: return None
                return (at[0], at[1] == (op == "!="))
            if len(d) == 1 and c == 1 and isboolform(list(d)[0]) and list(d.values())[0] == 1:
                at = atom(list(d)[0], prog)
                if at is not None: return (at[0], at[1] == (op == "=="))
            cl = canon(d)
            if cl[0][1] < 0:
                cl = tuple((x, -y) for x, y in cl); c = -c
            return (("eq", cl, c), op == "==")
        if op in (">", ">="): a, b, op = b, a, {">": "<", ">=": "<="}[op]
        da, ca = lin(a, prog); db, cb = lin(b, prog)
        d = dict(da)
        for x, c in db.items():
            d[x] = d.get(x, 0) - c
            if not d[x]: del d[x]
        c = cb - ca - (1 if op == "<" else 0)
        if not d: return (("const",), 0 <= c)
        return (("le", canon(d), c), True)
    if k == "int": return (("const",), bool(cond[1]))
    if k == "enum" and cond[2] is not None: return (("const",), bool(cond[2]))
    return (("b", cond), True)

def isboolform(f): return f[0] in ("cmp", "not", "and", "or")

def canon_fact(at, pol):
    """positive canonical facts"""
    if at[0] == "le":
        if pol: return at
        return ("le", canon({x: -c for x, c in at[1]}), -at[2] - 1)
    if at[0] == "eq": return at if pol else ("ne", at[1], at[2])
    if at[0] == "b": return at if pol else ("nb", at[1])
    return None

def holds(facts, at, pol):
    """True if the facts imply (at == pol), False if they imply the opposite, None unknown"""
    if at[0] == "const": return pol
    want = canon_fact(at, pol); opp = canon_fact(at, not pol)
    if want in facts: return True
    if opp in facts: return False
    if at[0] == "b":
        # integer facts about the same form
        one = ((at[1], 1),)
        for f in facts:
            if f[0] == "eq" and f[1] == one: return (f[2] != 0) == pol
            if f[0] == "le" and f[1] == one and f[2] < 0: return pol
            if f[0] == "le" and f[1] == ((at[1], -1),) and f[2] < 0: return pol
        return None
    if at[0] in ("le", "eq"):
        r = _num(facts, at)
        if r is None: return None
        return r == pol
    return None

def _bounds(facts, l):
    lo, hi = None, None
    nl = canon({x: -c for x, c in l})
    for f in facts:
        if f[0] == "le":
            if f[1] == l and (hi is None or f[2] < hi): hi = f[2]
            elif f[1] == nl and (lo is None or -f[2] > lo): lo = -f[2]
        elif f[0] == "eq":
            if f[1] == l: lo = hi = f[2]
            elif f[1] == nl: lo = hi = -f[2]
        elif f[0] == "nb" and len(l) == 1 and l[0][0] == f[1]: lo = hi = 0
    return lo, hi

def _num(facts, at):
    lo, hi = _bounds(facts, at[1])
    if at[0] == "le":
        if hi is not None and hi <= at[2]: return True
        if lo is not None and lo > at[2]: return False
        return None
    if lo is not None and lo == hi: return lo == at[2]
    if lo is not None and at[2] < lo: return False
    if hi is not None and at[2] > hi: return False
    if ("ne", at[1], at[2]) in facts: return False
    return None

def evalb(facts, cond, prog=None):
    """three-valued value of a boolean form under facts"""
    if cond is None: return None
    k = cond[0]
    if k == "not":
        r = evalb(facts, cond[1], prog); return None if r is None else not r
    if k == "and":
        a = evalb(facts, cond[1], prog)
        if a is False: return False
        b = evalb(facts, cond[2], prog)
        if b is False: return False
        return True if a and b else None
    if k == "or":
        a = evalb(facts, cond[1], prog)
        if a is True: return True
        b = evalb(facts, cond[2], prog)
        if b is True: return True
        return False if a is False and b is False else None
    if k == "ite":
        c = evalb(facts, cond[1], prog)
        if c is None: return None
        return evalb(facts, cond[2] if c else cond[3], prog)
    at = atom(cond, prog)
    if at is None: return None
    return holds(facts, at[0], at[1])

def assume(facts, cond, pol, prog=None):
    """-> new facts set or None if contradictory"""
    v = evalb(facts, cond, prog)
    if v is not None: return facts if v == pol else None
    k = cond[0]
    if k == "not": return assume(facts, cond[1], not pol, prog)
    if (k == "and" and pol) or (k == "or" and not pol):
        f = assume(facts, cond[1], pol, prog)
        return None if f is None else assume(f, cond[2], pol, prog)
    if k in ("and", "or"):
        a = evalb(facts, cond[1], prog)
        if a is not None: return assume(facts, cond[2], pol, prog)
        b = evalb(facts, cond[2], prog)
        if b is not None: return assume(facts, cond[1], pol, prog)
        return facts
    at = atom(cond, prog)
    if at is None: return facts
    f = canon_fact(at[0], at[1] == pol)
    if f is None: return facts
    return facts | {f}

def kill(facts, lv):
    r = [f for f in facts if not any(contains(x, lv) for x in fact_forms(f))]
    return facts if len(r) == len(facts) else frozenset(r)

def fact_forms(f):
    if f[0] in ("b", "nb"): return [f[1]]
    if f[0] in ("le", "eq", "ne"): return [x for x, c in f[1]]
    return []

def node_kids(n):
    for k in ("b", "o", "ind", "s", "n", "pl", "i", "c"):
        v = n.get(k)
        if isinstance(v, int) and not isinstance(v, bool): yield v
    for v in n.get("a") or ():
        if isinstance(v, int): yield v
    for v in n.get("vars") or ():
        if isinstance(v.get("init"), int): yield v["init"]

def post_ordered(fn, b):
    """elements of a block, with a postfix ++/-- used as an operand moved behind the expression that uses its (old) value"""
    es = b["e"]
    if not any(fn.nodes[e]["k"] == "un" and fn.nodes[e].get("post") and fn.nodes[e]["op"] in ("++", "--") for e in es): return es
    out = list(es)
    for e in es:
        n = fn.nodes[e]
        if n["k"] != "un" or not n.get("post") or n["op"] not in ("++", "--"): continue
        def has(x, d=0):
            return x == e or d < 12 and 0 <= x < len(fn.nodes) and any(has(y, d + 1) for y in node_kids(fn.nodes[x]))
        at = out.index(e); lastu = None
        for j in range(at + 1, len(out)):
            if fn.nodes[out[j]]["k"] != "un" or not fn.nodes[out[j]].get("post"):
                if has(out[j]): lastu = j
        if lastu is None: continue
        out.pop(at); out.insert(lastu, e)
    return out

# ------------------------------------------------------------------ graph

class N:
    __slots__ = ("i", "k", "ev", "fr", "nid", "succ", "cond", "isb")
    def __init__(self, i, k, ev=None, fr=None, nid=None, isb=False):
        self.i = i; self.k = k; self.ev = ev; self.fr = fr; self.nid = nid; self.succ = []; self.cond = None; self.isb = isb
    def loc(self): return self.fr.fn.loc(self.nid) if self.fr else "?"
    def where(self): return self.fr.where(self.nid) if self.fr else "?"

class Graph:
    """inlined flow graph.
    node kinds: call set ret throw del new dtor br entry exit texit nop enter
      call: ev = (qname, usr, objform, argforms, virt)
      set : ev = (lhsform, op, rhsform)
    edges: (target, label) label None | ('t',cond,pol) | ('case',cond,[vals]) | ('dflt',cond,[vals]) | ('eh',)"""
    def __init__(self, prog, root, inline=None, depth=3, eh="none", bind=None, this=("this",), maxnodes=30000, dtors=False, raw=False, byt=False, thrown=None):
        self.byt = byt
        self.prog = prog; self.root = root; self.inline = inline or (lambda f, fr: False)
        self.thrown = thrown; self.depth = depth; self.eh = eh; self.nodes = []; self.maxnodes = maxnodes; self.dtors = dtors
        b = {}
        for ix, p in enumerate(root.params): b[p["id"]] = ("param", ix, p["n"])
        if bind: b.update(bind)
        self.raw = raw
        self.frame = Frame(root, b, this, 0, tag=(), raw=raw, byt=byt)
        self.frames = [self.frame]; self.handlers = []
        self.exit = self.new("exit", fr=self.frame)
        self.texit = self.new("texit", fr=self.frame)
        self.entry = self.build(self.frame, self.exit, lambda: [self.texit])
    def new(self, k, ev=None, fr=None, nid=None):
        n = N(len(self.nodes), k, ev, fr, nid); self.nodes.append(n)
        if len(self.nodes) > self.maxnodes: raise AnalysisBroken("inlined graph of %s too large" % self.root.q)
        return n
    def build(self, fr, exitn, thrown):
        fn = fr.fn
        heads = {}
        tries = fn.d.get("tries", [])
        def handlers(t):
            out = []
            esc = True
            while t is not None and t >= 0:
                for h in tries[t]["h"]:
                    if self.thrown is not None and h["t"] != "..." and not re.search(r"\b%s\b" % self.thrown, h["t"]): continue
                    if self.thrown is not None and not esc: continue
                    if "b" in h: out.append(heads[h["b"]])
                    if h["t"] == "..." or self.thrown is not None: esc = False
                if not esc: break
                t = tries[t]["outer"]
            if esc: out += thrown()
            return out
        for b in fn.blocks.values():
            heads[b["id"]] = self.new("nop", fr=fr)
        if not fn.blocks:
            e = self.new("nop", fr=fr); e.succ.append((exitn, None)); return e
        self.handlers += [(fr, t, h, heads[h["b"]]) for t in tries for h in t["h"] if "b" in h]
        # forms of inlined results must be known before users: build in topological-ish order
        order = sorted(fn.blocks.values(), key=lambda b: -b["id"])
        pend = []
        for b in order:
            cur = heads[b["id"]]
            dead = False
            for e in post_ordered(fn, b):
                n = fn.nodes[e]; k = n["k"]
                if k == "call" or k == "ctor":
                    cur = self.call(fr, e, n, cur, handlers)
                    if cur is None: dead = True; break
                elif k == "asg":
                    r = fr.form(n["a"][1])
                    if self.byt and n["op"] in ("+=", "-=") and n.get("t", "").rstrip().endswith("*"): r = padd(("int", 0), r, width(pointee(n["t"])))[3] if r != ("int", 0) else r
                    x = self.new("set", (fr.form(n["a"][0]), n["op"], r), fr, e); x.isb = n.get("t") == "bool"; cur.succ.append((x, None)); cur = x
                elif k == "un" and n["op"] in ("++", "--"):
                    x = self.new("set", (fr.form(n["s"]), n["op"], ("int", (width(pointee(n["t"])) if self.byt and n.get("t", "").rstrip().endswith("*") else 1))), fr, e); cur.succ.append((x, None)); cur = x
                elif k == "decl":
                    for v in n["vars"]:
                        if "init" in v and not v.get("st"):
                            x = self.new("set", (fr.varform(v["id"], v["n"]), "=", fr.form(v["init"])), fr, e); x.isb = v["t"] in ("bool", "const bool"); cur.succ.append((x, None)); cur = x
                elif k == "minit":
                    if "f" in n:
                        x = self.new("set", (("f", fr.this, n["f"]), "=", fr.form(n["s"])), fr, e); cur.succ.append((x, None)); cur = x
                elif k == "del":
                    x = self.new("del", (fr.form(n["s"]), n.get("arr", 0), n.get("dt", "")), fr, e); cur.succ.append((x, None)); cur = x
                elif k == "new":
                    x = self.new("new", (fr.form(e), n["at"], n.get("arr", 0)), fr, e); cur.succ.append((x, None)); cur = x
                elif k == "adtor":
                    x = self.new("dtor", (n.get("fn"), n.get("w"), ("f", fr.this, n["f"]) if "f" in n else (fr.varform(n["id"], n.get("n")) if "id" in n else None)), fr, e); cur.succ.append((x, None)); cur = x
                elif k == "ret":
                    x = self.new("ret", (fr.form(n["s"]) if "s" in n else None,), fr, e); cur.succ.append((x, None)); cur = x
                    if fr.parent is not None and "s" in n:
                        rv = ("ret", fr.tag, fn.q)
                        x = self.new("set", (rv, "=", fr.form(n["s"])), fr, e); x.isb = fn.d["rett"] == "bool"; cur.succ.append((x, None)); cur = x
                elif k == "throw":
                    x = self.new("throw", (n.get("tt"), fr.form(n["s"]) if "s" in n else None), fr, e); cur.succ.append((x, None)); cur = x
                    for h in handlers(n.get("try")): x.succ.append((h, ("eh",)))
                    dead = True
                    break
            if dead: continue
            tk = b.get("tk")
            succs = b["s"]
            if b["id"] == fn.d["exit"]:
                cur.succ.append((exitn, None)); continue
            if tk == "SwitchStmt":
                c = fr.form(b["c"]) if "c" in b else None
                allc = []
                for s in succs:
                    sid = s if isinstance(s, int) else None
                    if sid is not None and "case" in fn.blocks[sid]: allc += case_vals(fn.blocks[sid])
                br = self.new("br", (c,), fr, b.get("c")); cur.succ.append((br, None)); br.cond = c
                for s in succs:
                    if not isinstance(s, int): continue
                    if "case" in fn.blocks[s]: br.succ.append((heads[s], ("case", c, tuple(case_vals(fn.blocks[s])))))
                    else: br.succ.append((heads[s], ("dflt", c, tuple(allc))))
            elif tk == "CXXTryStmt":
                for s in succs:
                    if isinstance(s, int): cur.succ.append((heads[s], ("eh",)))
            elif len(succs) == 2 and "c2" in b:
                c = fr.form(b["c2"])
                br = self.new("br", (c,), fr, b["c2"]); cur.succ.append((br, None)); br.cond = c
                for s, pol in zip(succs, (True, False)):
                    if isinstance(s, int): br.succ.append((heads[s], ("t", c, pol)))
            else:
                for s in succs:
                    if isinstance(s, int): cur.succ.append((heads[s], None))
        return heads[fn.d["entry"]]
    def call(self, fr, e, n, cur, handlers):
        """emit call event; inline if wanted. returns the continuation node (None: never returns)"""
        q = n.get("fn"); u = n.get("u")
        isctor = n["k"] == "ctor"
        if isctor and n.get("cp") and len(n["a"]) == 1 and not (u in self.prog.fns): 
            return cur
        objn = n.get("o")
        obj = fr.form(objn) if objn is not None else (("tmp", fr.tag, e) if isctor else None)
        args = tuple(fr.form(a) for a in n["a"])
        x = self.new("call", (q, u, obj, args, n.get("v", 0)), fr, e)
        cur.succ.append((x, None))
        tg = self.prog.targets(u, n.get("v")) if u else []
        noexc = self.eh == "none"
        if u and len(tg) == 1 and fr.depth < self.depth and tg[0].blocks and all(f.fn.u != tg[0].u for f in fr.chain()) and not (n.get("v") and u in self.prog.over and tg[0].u not in self.prog.fns) and self.inline(tg[0], fr):
            callee = tg[0]
            bind = {}
            for p, a in zip(callee.params, n["a"]): bind[p["id"]] = fr.form(a)
            sub = Frame(callee, bind, obj if obj is not None else ("none",), fr.depth + 1, fr, e, fr.tag + ((fr.fn.u if fr.parent is None else "", e),), raw=self.raw, byt=self.byt)
            self.frames.append(sub)
            exitn = self.new("nop", fr=sub)
            tn = []
            def thr():
                if not tn:
                    t = self.new("nop", fr=sub); tn.append(t)
                    for h in handlers(n.get("try")): t.succ.append((h, ("eh",)))
                return tn
            rets = [m for m in callee.nodes if m["k"] == "ret" and "s" in m]
            # parameters reassigned in the callee start with the argument's value
            defs, mut, types = callee.ldefs()
            ent = self.new("enter", (callee.u,), sub, None)
            x.succ.append((ent, None)); c2 = ent
            for p, a in zip(callee.params, n["a"]):
                if p["id"] in defs or p["id"] in mut or self.raw:
                    if not types.get(p["id"], "").rstrip().endswith("&"):
                        s = self.new("set", (sub.varform(p["id"], p["n"]), "=", fr.form(a)), sub, None)
                        c2.succ.append((s, None)); c2 = s
            he = self.build(sub, exitn, thr)
            c2.succ.append((he, None))
            lv = self.new("leave", (callee.u,), sub, None)
            exitn.succ.append((lv, None))
            if not isctor:
                reach_rets = [sub.form(m["s"]) for m in rets]
                if reach_rets and not (self.raw and not callee.d["rett"].rstrip().endswith("&")) and all(r == reach_rets[0] for r in reach_rets): fr.inl[e] = reach_rets[0]
                elif reach_rets: fr.inl[e] = ("ret", sub.tag, callee.q)
            out = lv
            return out
        if not noexc and not nothrow(self.prog, q, u):
            if self.eh == "all" or n.get("try") is not None:
                for h in handlers(n.get("try")): x.succ.append((h, ("eh",)))
        return x
    def reachable(self, start=None):
        seen, todo = set(), [start or self.entry]
        while todo:
            n = todo.pop()
            if n.i in seen: continue
            seen.add(n.i)
            for s, l in n.succ: todo.append(s)
        return [n for n in self.nodes if n.i in seen]

def case_vals(b):
    v = [x for x in b["case"]]
    if "caseR" in b and v[0] is not None and b["caseR"] is not None: return list(range(v[0], b["caseR"] + 1))
    return v

NOTHROW = {"size", "empty", "begin", "end", "c_str", "length", "clear"}
def nothrow(prog, q, u):
    if q is None: return False
    if q.startswith("std::") and q.rsplit("::", 1)[-1] in NOTHROW: return True
    return False

# ------------------------------------------------------------------ dataflow

class Res:
    def __init__(self): self.at = {}; self.steps = 0

def default_interest(f): return True

def explore(g, init=frozenset(), ustate=None, step=None, edge=None, facts=True, interest=None, limit=48, maxsteps=400000, start=None, follow_eh=True, keepthis=False):
    """Disjunctive forward dataflow.  A state is (facts, user).  step(node,facts,user)->iterable of
    (facts,user) | None (drop).  Returns {node index: set(states on entry)} and the visited edges' parents."""
    prog = g.prog
    at = {}
    par = {}
    s0 = (init, ustate)
    work = [((start or g.entry).i, s0)]
    at[(start or g.entry).i] = {s0}
    steps = 0
    while work:
        i, st = work.pop()
        if st not in at.get(i, ()): continue
        n = g.nodes[i]
        steps += 1
        if steps > maxsteps: raise AnalysisBroken("state space of %s exceeds %d steps" % (g.root.q, maxsteps))
        f, us = st
        outs = [(f, us)]
        if step is not None:
            r = step(n, f, us)
            if r is None: continue
            if not isinstance(r, (list, tuple)): raise AnalysisBroken("explore: step() gives a list of (facts, state)")
            outs = list(r)
        res = []
        for f2, u2 in outs:
            if facts and n.k == "set":
                lhs, op, rhs = n.ev
                if lhs is not None:
                    val = None
                    if op == "=" and rhs is not None:
                        if rhs[0] == "int": val = rhs
                        elif rhs[0] == "enum" and rhs[2] is not None: val = ("int", rhs[2])
                        elif isboolform(rhs) or rhs[0] in ("b", "ret", "var"):
                            if isboolform(rhs):
                                v = evalb(f2, rhs, prog)
                                if v is not None: val = ("int", 1 if v else 0)
                            else:
                                lo, hi = _bounds(f2, ((rhs, 1),))
                                if lo is not None and lo == hi: val = ("int", lo)
                                elif ("b", rhs) in f2: val = "nz"
                    if op == "=" and rhs is not None and val is None and rhs[0] == "new": val = "nz"
                    if val is None and op == "=" and rhs is not None and n.isb and lhs != rhs and not contains(rhs, lhs):
                        for pol in (True, False):
                            f4 = assume(f2, rhs, pol, prog)
                            if f4 is not None:
                                f4 = kill(f4, lhs)
                                res.append((f4 | {("b", lhs) if pol else ("nb", lhs)}, u2))
                        continue
                    f2 = kill(f2, lhs)
                    if val == "nz": f2 = f2 | {("b", lhs)}
                    elif val is not None:
                        f2 = f2 | {("eq", ((lhs, 1),), val[1])} if val[1] != 0 else f2 | {("nb", lhs)}
            elif facts and n.k == "call" and n.ev[2] is not None and n.ev[0] and not (n.ev[1] and split_sig(n.ev[1])[1].startswith("const")):
                nm = n.ev[0].rsplit("::", 1)[-1]
                if nm in ("operator=", "operator++", "operator--", "operator+=", "operator-=") or n.ev[0].startswith(("std::", "__gnu_cxx::")) and nm in ("push_back", "pop_back", "clear", "resize", "insert", "erase", "assign", "swap", "operator=", "operator++", "operator--", "operator+=", "append", "push", "pop", "reset", "open", "close", "pop_front", "push_front"):
                    if not (keepthis and n.ev[2] == ("this",)): f2 = kill(f2, n.ev[2])
            res.append((f2, u2))
        for f2, u2 in res:
            for tgt, lab in n.succ:
                f3 = f2
                if facts and lab is not None:
                    if lab[0] == "t" and lab[1] is not None:
                        f3 = assume(f2, lab[1], lab[2], prog)
                        if f3 is None: continue
                        if interest is not None and f3 is not f2:
                            new = f3 - f2
                            f3 = f2 | {x for x in new if interest(x)}
                    elif lab[0] == "case" and lab[1] is not None and len(lab[2]) == 1 and lab[2][0] is not None:
                        f3 = assume(f2, ("cmp", "==", lab[1], ("int", lab[2][0])), True, prog)
                        if f3 is None: continue
                    elif lab[0] == "dflt" and lab[1] is not None:
                        ok = True
                        for v in lab[2]:
                            if v is None: continue
                            f3 = assume(f3, ("cmp", "==", lab[1], ("int", v)), False, prog)
                            if f3 is None: ok = False; break
                        if not ok: continue
                if lab is not None and lab[0] == "eh" and not follow_eh: continue
                u3 = u2
                if edge is not None:
                    u3 = edge(n, tgt, lab, f3, u2)
                    if u3 is DROP: continue
                ns = (f3, u3)
                S = at.setdefault(tgt.i, set())
                if ns in S: continue
                # widening: same user state, too many fact sets -> intersect
                same = [x for x in S if x[1] == u3]
                if any(x[0] <= f3 for x in same): continue
                if len(same) >= limit:
                    m = f3
                    for x in same: m = m & x[0]
                    for x in same: S.discard(x)
                    ns = (m, u3)
                S.add(ns)
                par.setdefault((tgt.i, ns), (i, st))
                work.append((tgt.i, ns))
    r = Res(); r.at = at; r.par = par; r.steps = steps
    return r

DROP = object()

def trace(g, res, i, st, maxn=14):
    """branch decisions leading to a state, for reports"""
    out = []
    k = (i, st)
    seen = set()
    while k in res.par and k not in seen:
        seen.add(k)
        p = res.par[k]
        n = g.nodes[p[0]]
        if n.k == "br":
            for tgt, lab in n.succ:
                if tgt.i == k[0] and lab is not None and lab[0] in ("t", "case", "dflt"):
                    out.append("%s: %s %s" % (n.loc(), show(lab[1]), lab[2] if lab[0] == "t" else lab[0] + str(lab[2] if lab[0] == "case" else "")))
                    break
        k = p
    out.reverse()
    return out[-maxn:]

# ------------------------------------------------------------------ arithmetic conversions
_INT = {"bool": (0, 1), "char": (1, 7), "signed char": (1, 7), "unsigned char": (0, 8), "short": (1, 15), "unsigned short": (0, 16), "char16_t": (0, 16), "wchar_t": (1, 31), "char32_t": (0, 32),
        "int": (1, 31), "unsigned int": (0, 32), "long": (1, 63), "unsigned long": (0, 64), "long long": (1, 63), "unsigned long long": (0, 64)}
_FLT = {"float": (24, 128), "double": (53, 1024), "long double": (64, 16384)}

def lossy(src, dst):
    """an arithmetic conversion that does not keep every value of the source type"""
    src = src.replace("const ", "").replace("volatile ", "").strip(); dst = dst.replace("const ", "").replace("volatile ", "").strip()
    if src == dst: return False
    if src in _INT and dst in _INT:
        if dst == "bool": return src != "bool"
        (s1, b1), (s2, b2) = _INT[src], _INT[dst]
        return b1 > b2 or (s1 and not s2)
    if src in _FLT and dst in _FLT: return _FLT[src] > _FLT[dst]
    if src in _INT and dst in _FLT: return _INT[src][1] > _FLT[dst][0]
    if src in _FLT and dst in _INT: return True
    return False

def conversions(f):
    """(node id, operand node id, source type, target type) of the lossy arithmetic conversions of non-constants"""
    for i, n in enumerate(f.nodes):
        if n["k"] == "cast" and n.get("ck") in ("IntegralCast", "FloatingCast", "FloatingToIntegral", "IntegralToFloating", "IntegralToBoolean", "FloatingToBoolean") and "cv" not in n:
            s = f.nodes[n["s"]]
            if "cv" in s or "t" not in s or "t" not in n: continue
            if lossy(s["t"], n["t"]): yield i, n["s"], s["t"], n["t"]
