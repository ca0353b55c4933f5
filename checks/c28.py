"""C28: a buffer the library sizes itself is large enough for everything written into it."""
import re, math
from .common import *
from sa.flow import facts_le, ul
from sa.loops import Loops, effect

STR = ("std::basic_string", "std::__cxx11::basic_string", "std::string")
INF = None
STRPOS = {"strrchr", "strchr", "strstr", "strpbrk"}
ELS = {"char": 1, "signed char": 1, "unsigned char": 1, "bool": 1, "char16_t": 2, "short": 2, "unsigned short": 2, "wchar_t": 4, "char32_t": 4, "int": 4, "unsigned int": 4, "float": 4, "long": 8, "unsigned long": 8, "double": 8}
ARR = re.compile(r"^(?:static |const )*(.+?)\s*\[(\d+)\]$")
ALIAS = {"UChar": "char16_t", "XMLCh": "char16_t", "TCHAR": "char", "CharT": "char", "size_t": "unsigned long", "jchar": "unsigned short"}

def elt(t):
    t = re.sub(r"\b(const|volatile|struct|class)\b", "", t or "").strip()
    return ALIAS.get(t, t)

def isstd(q): return q is not None and q.startswith(STR)

def lenof(x):
    while x is not None:
        if x[0] == "ctor" and len(x[2]) == 1 and (x[1] or "").endswith(("UnicodeStringRef", "UnicodeString")) and x[2][0] is not None and x[2][0][0] != "str": x = x[2][0]
        elif x[0] == "call" and x[2] is not None and last(x[1]) in ("c_str", "data", "getBuffer", "getTerminatedBuffer"): x = x[2]
        else: break
    return ("len", x)

def last(q): return (q or "").rsplit("::", 1)[-1]

def norm(f):
    """lengths under one name"""
    if not isinstance(f, tuple) or not f: return f
    if f[0] == "call":
        n = last(f[1])
        if f[2] is not None and not f[3] and n in ("length", "size") and (isstd(f[1]) or "UnicodeString" in f[1]): return lenof(norm(f[2]))
        if n in ("strlen", "stringLen") and len(f[3]) == 1:
            a = norm(f[3][0])
            if a[0] == "str": return ("int", len(a[1].encode("utf8", "replace")))
            if a[0] == "ite": return ("ite", a[1], norm(("call", f[1], f[2], (a[2],))), norm(("call", f[1], f[2], (a[3],))))
            if a[0] == "call" and a[2] is not None and last(a[1]) in ("c_str", "data"): return lenof(a[2])
            return ("call", "strlen", None, (a,))
        if last(f[1]) == "operator[]" and f[2] is not None and len(f[3]) == 1 and re.search(r"auto_array|unique_ptr", f[1]): return ("idx", norm(f[2]), norm(f[3][0]))
        if last(f[1]) in ("get",) and f[2] is not None and not f[3]: return norm(f[2])
        if f[2] is not None and not f[3] and n.startswith("operator ") and n.endswith("*"): return norm(f[2])
    if f[0] == "ctor" and (f[1] or "").endswith("Char16Ptr") and len(f[2]) == 1: return norm(f[2][0])
    return tuple(norm(x) for x in f)

def entails(fs, d, c):
    """does sum(d) <= c follow from sums of the inequalities? (depth first, each step must cancel a term)"""
    S = {(frozenset(e.items()), ec) for e, ec in fs if e}
    eqs, les = [], []
    for e, ec in S:
        o = (frozenset((x, -v) for x, v in e), -ec)
        if o in S: eqs.append((dict(e), ec))
        else: les.append((dict(e), ec))
    def subst(t, e, x):          # t: (coefs, bound); e: equation, x eliminated (coefficient +-1)
        if x not in t[0]: return t
        k = t[0][x] * e[0][x]
        r = dict(t[0])
        for y, v in e[0].items():
            r[y] = r.get(y, 0) - k * v
            if not r[y]: del r[y]
        return r, t[1] - k * e[1]
    t = (dict(d), c)
    for i in range(len(eqs)):
        e = eqs[i]
        x = next((x for x, v in sorted(e[0].items(), key=repr) if abs(v) == 1), None)
        if x is None: continue
        t = subst(t, e, x); les = [subst(u, e, x) for u in les]; eqs = eqs[:i + 1] + [subst(u, e, x) for u in eqs[i + 1:]]
    d, c = t
    fs = [u for u in les if u[0]]
    seen = {}
    def go(d, c, depth):
        if not d: return 0 <= c
        if depth == 0: return False
        k = frozenset(d.items())
        if k in seen and seen[k][0] >= depth and seen[k][1] >= c: return False
        seen[k] = (depth, c)
        if len(seen) > 4000: return False
        w = sum(abs(x) for x in d.values())
        for e, ec in fs:
            if not any(x in d and d[x] * v > 0 for x, v in e.items()): continue
            r = dict(d)
            for x, v in e.items():
                r[x] = r.get(x, 0) - v
                if not r[x]: del r[x]
            if sum(abs(x) for x in r.values()) > w + 1: continue
            if go(r, c - ec, depth - 1): return True
        return False
    return go(dict(d), c, 8)

HEAPCLS = r"uima::lowlevel::internal::Heap\b"

INTS = ("int", "bool", "unsigned int", "unsigned", "long", "unsigned long", "size_t", "WORD32", "short", "unsigned short", "int32_t", "char")
def scalar(prog, f):
    """a small helper that only computes a number from its arguments and members"""
    memo = prog.__dict__.setdefault("_scalar", {})
    if f.u not in memo:
        memo[f.u] = False
        if f.blocks and len(f.blocks) <= 12 and f.d.get("kind") not in ("ctor", "dtor") and re.sub(r"\bconst\b", "", f.d.get("rett") or "").strip() in INTS:
            g = Graph(prog, f, inline=lambda t, fr: False, depth=1, eh="none")
            memo[f.u] = not any(n.k in ("throw", "del", "new", "dtor") or n.k == "set" and (n.ev[0] is None or n.ev[0][0] != "var") or n.k == "call" and last(n.ev[0]) not in ("strlen", "length", "size", "min", "max", "stringLen") for n in g.nodes)
    return memo[f.u]

class Fun:
    TOP, CELLS = "::iv_topOfHeap", "::iv_uiCellNumber"
    def __init__(self, prog, c, f):
        self.prog, self.c, self.f = prog, c, f
        self.g = Graph(prog, f, inline=lambda t, fr: scalar(prog, t), depth=2, eh="none")
        self.fr = self.g.root if hasattr(self.g.root, "form") else None
        self.decls, self.vals = {}, {}
        for n in f.nodes:
            if n and n.get("k") == "decl":
                for v in n["vars"]: self.decls[v["id"]] = v["t"]
        self.sets = {}
        for n in self.g.nodes:
            if n.k == "set" and n.ev[0] is not None: self.sets.setdefault(n.ev[0], []).append(n)
    # ---------------------------------------------------------------- capacities: (form of number of elements, element size)
    def arrtype(self, t):
        m = ARR.match((t or "").strip())
        if not m: return None
        e = elt(m.group(1))
        return (("int", int(m.group(2))), ELS.get(e), e)
    def newcap(self, x):
        f, node = self.f, None
        i = x[3]
        if isinstance(i, int) and 0 <= i < len(f.nodes): node = f.nodes[i]
        if not node or node.get("k") != "new" or not node.get("arr"): return None
        e = elt(node.get("at"))
        return (self.frame.form(node["n"]), ELS.get(e), e)
    def alloc(self, x):
        """an expression that makes a buffer"""
        if x is None: return None
        if x[0] == "new": return self.newcap(x)
        if x[0] == "call":
            n = last(x[1])
            if n in ("malloc", "alloca", "__builtin_alloca") and len(x[3]) == 1: return (x[3][0], 1, "char")
            if n in ("apr_palloc", "apr_pcalloc") and len(x[3]) == 2: return (x[3][1], 1, "char")
            if n == "calloc": return (("op", "*", x[3][0], x[3][1]), 1, "char")
        if x[0] == "ctor" and len(x[2]) >= 1 and x[2][0] is not None and x[2][0][0] == "new" and re.search(r"auto_array|unique_ptr", x[1] or ""): return self.alloc(x[2][0])
        return None
    def cap(self, d, us):
        """-> (elements, size of one, type) or None"""
        if d is None: return None
        for k, b, v in us:
            if k == "C" and b == d: return v
        if d[0] in ("new", "call", "ctor"):
            r = self.alloc(d)
            if r: return r
        if d[0] == "var": return self.arrtype(self.decls.get(d[2]))
        if d[0] == "f":
            cl, fld = d[2].rsplit("::", 1)
            for cd in self.prog.clsq.get(cl, ()):
                for x in cd.get("fields", ()):
                    if x["n"] == fld: return self.arrtype(x["t"])
            for x in self.f.nodes:
                if x and x.get("k") == "mem" and x.get("f") == d[2]: return self.arrtype(x.get("t"))
            return None
        if d[0] == "g":
            ar = self.prog.raw["arrays"]
            t = ar.get(d[1] + "@" + self.f.file) or next((t for k, t in sorted(ar.items()) if k.startswith(d[1] + "@")), None)
            return self.arrtype(t) if t else self.slocal(d[1])
        if d[0] == "op" and d[1] == "+":
            for a, b in ((d[2], d[3]), (d[3], d[2])):
                r = self.cap(a, us)
                if r: return (("op", "-", r[0], b), r[1], r[2])
        if d[0] == "op" and d[1] == "-":
            r = self.cap(d[2], us)
            if r: return (("op", "+", r[0], d[3]), r[1], r[2])
        return None
    def slocal(self, q):
        nm = last(q)
        for n in self.f.nodes:
            if n and n.get("k") == "decl":
                for v in n["vars"]:
                    if v["n"] == nm: return self.arrtype(v["t"])
        return None
    # ---------------------------------------------------------------- proofs
    def extra(self, forms):
        out, seen = [], set()
        def add(d, c): out.append((d, c))
        def lo(x):
            a, ca = lin(x, self.prog); return a, ca
        todo = list(forms)
        while todo:
            x = todo.pop()
            for s in subforms(x):
                if s in seen or not isinstance(s, tuple) or not s: continue
                seen.add(s)
                if s[0] == "len" or s[0] == "call" and last(s[1]) in ("strlen", "getFileSize"): add({s: -1}, 0)
                if s[0] == "call" and last(s[1]) == "min" and len(s[3]) == 2:
                    for a in s[3]:
                        e, c0 = lo(ul(a)); d = {s: 1}
                        for y, k in e.items(): d[y] = d.get(y, 0) - k
                        add(d, c0)
                if s[0] == "call" and last(s[1]) == "fread" and len(s[3]) == 4 and s[3][1] == ("int", 1):
                    e, c0 = lo(ul(s[3][2])); d = {s: 1}
                    for y, k in e.items(): d[y] = d.get(y, 0) - k
                    add(d, c0)
        return out
    def le(self, facts, a, b):
        """a <= b on this path"""
        a, b = norm(a), norm(b)
        nf = frozenset(norm(x) for x in facts)
        if self._le(nf, ul(a), ul(b), 6): return True
        for i in range(3):                     # with the values variables were given last
            a2, b2 = a, b
            for x, v in self.vals.items(): a2, b2 = repl(a2, x, v), repl(b2, x, v)
            if (a2, b2) == (a, b) or size(a2) + size(b2) > 200: break
            a, b = a2, b2
            if self._le(nf, ul(a), ul(b), 6): return True
        return False
    def _le(self, facts, a, b, depth):
        for s in list(subforms(a)) + list(subforms(b)):
            if isinstance(s, tuple) and s and s[0] == "ite":
                if depth == 0: return False
                for pol, v in ((True, s[2]), (False, s[3])):
                    f2 = assume(facts, s[1], pol, self.prog)
                    if f2 is None: continue
                    if not self._le(f2, repl(a, s, v), repl(b, s, v), depth - 1): return False
                return True
        x = ("op", "-", a, b)
        d, c = lin(x, self.prog)
        if not d: return c <= 0
        k = math.gcd(*d.values())
        if k > 1: d = {x: v // k for x, v in d.items()}; c = -((-c) // k)
        ex = self.extra(list(d) + [f for f in facts if isinstance(f, tuple)])
        # position of a character in a string
        for s in d:
            if s[0] == "call" and last(s[1]) in STRPOS and s[3]:
                base = s[3][0]
                ex.append(({s: 1, base: -1, ("call", "strlen", None, (base,)): -1}, 0))
        # unsigned quantities
        fl = facts_le(facts) + ex
        for s in {x for e, _ in fl for x in e} | set(d):
            if self.unsigned(s): ex.append(({s: -1}, 0))
        return entails(facts_le(facts) + ex, d, -c)
    def unsigned(self, s):
        if s[0] == "var": return elt(self.decls.get(s[2], "")).startswith("unsigned")
        if s[0] == "f":
            cq, _, fd = s[2].rpartition("::")
            return fd.endswith("Length") or any(x["n"] == fd and elt(x.get("t")).startswith("unsigned") for k in self.prog.clsq.get(cq, ()) for x in k["fields"])
        if s[0] == "param" and s[1] < len(self.f.params): return elt(self.f.params[s[1]]["t"]).startswith("unsigned")
        return False
    # ---------------------------------------------------------------- lengths of what is written
    def slen(self, s):
        if s is None: return None
        if s[0] == "str": return ("int", len(s[1].encode("utf8", "replace")))
        if s[0] == "g":
            v = self.prog.strings(s[1]) if hasattr(self.prog, "strings") else None
            if isinstance(v, str): return ("int", len(v))
        return norm(("call", "strlen", None, (s,)))
    def fmt(self, fs, args, nids):
        """longest output of a printf format (form) or None; args: forms after the format"""
        if fs is None or fs[0] != "str": return None
        tot, sym, i, k = 0, None, 0, 0
        s = fs[1]
        for m in re.finditer(r"%(?P<fl>[-+ #0]*)(?P<w>\*|\d+)?(?:\.(?P<p>\*|\d+))?(?P<h>hh|h|ll|l|z|j|t|L)?(?P<c>[diouxXcsfFgGeEp%])|(?P<o>.)", s, re.S):
            if m.group("o"): tot += len(m.group("o").encode("utf8", "replace")); continue
            c = m.group("c")
            if c == "%": tot += 1; continue
            if m.group("w") == "*" or m.group("p") == "*": return None
            if k >= len(args): return None
            a, nid = args[k], nids[k]; k += 1
            w = int(m.group("w") or 0); p = int(m.group("p") or -1)
            big = m.group("h") in ("l", "ll", "z", "j", "t")
            n = None
            if c in "di": n = 20 if big else 11
            elif c == "u": n = 20 if big else 10
            elif c in "xX":
                n = self.hexw(a) or (16 if big else 8)
                if "#" in m.group("fl"): n += 2
            elif c == "o": n = 22 if big else 11
            elif c == "c": n = 1
            elif c == "p": n = 18
            elif c in "fF":
                n = (40 if self.isfloat(nid) else 310) + 1 + (6 if p < 0 else p)
            elif c in "gGeE": n = 8 + (6 if p < 0 else p)
            elif c == "s":
                L = self.slen(a)
                if p >= 0: n = p
                elif L is not None and L[0] == "int": n = L[1]
                else: sym = L if sym is None else ("op", "+", sym, L); n = 0
            if c in "diuoxX" and p > n: n = p + 2
            tot += max(n, w)
        r = ("int", tot)
        return r if sym is None else ("op", "+", r, sym)
    def hexw(self, a):
        if a is not None and a[0] == "op" and a[1] == "&":
            for x in (a[2], a[3]):
                v = num(self.prog, x)
                if v is not None and v >= 0: return max(1, (v.bit_length() + 3) // 4)
        return None
    def isfloat(self, nid):
        i = self.f.strip(nid)
        return elt(self.f.nodes[i].get("t", "")).rstrip("&").strip() == "float"
    # ---------------------------------------------------------------- one call: list of (destination, elements or bytes needed, in bytes?) ; needed None = unbounded
    def writes(self, n):
        q, u, obj, args, *_ = n.ev
        if not q: return []
        nm = last(q)
        a = args
        pt = [t.strip() for t in split_sig(u)[0]] if u else []
        nids = self.f.nodes[n.nid].get("a") or []
        one = ("int", 1)
        plus1 = lambda L: None if L is None else ("op", "+", L, one)
        if "::" not in q or q.startswith("std::") and nm.startswith(("str", "mem", "sprintf", "snprintf", "fread")):
            if nm == "strcpy": return [(a[0], plus1(self.slen(a[1])), False, "strcpy", a[1])]
            if nm in ("stpcpy",): return [(a[0], plus1(self.slen(a[1])), False, nm, a[1])]
            if nm in ("strncpy", "strxfrm"): return [(a[0], a[2], False, nm, a[1])]
            if nm == "strcat": return [(a[0], ("cat", self.slen(a[1])), False, nm, a[1])]
            if nm == "strncat": return [(a[0], ("cat", a[2]), False, nm, a[1])]
            if nm == "sprintf": return [(a[0], plus1(self.fmt(a[1], a[2:], nids[2:])), False, nm, None)]
            if nm in ("snprintf", "strftime", "vsnprintf", "fgets", "gethostname", "getcwd", "apr_snprintf"):
                if nm == "getcwd" and a[0] == ("int", 0): return []
                if a[0] == ("int", 0) and num(self.prog, a[1]) == 0: return []
                return [(a[0], a[1], False, nm, None)]
            if nm == "apr_strftime": return [(a[0], a[2], False, nm, None)]
            if nm == "apr_ctime": return [(a[0], ("int", 25), False, nm, None)]
            if nm == "apr_rfc822_date": return [(a[0], ("int", 30), False, nm, None)]
            if nm in ("memset",): return [(a[0], a[2], True, nm, None)]
            if nm in ("memcpy", "memmove"): return [(a[0], a[2], True, nm, None)]
            if nm in ("gets", "vsprintf"): return [(a[0], None, False, nm, None)]
            if nm == "fread": return [(a[0], ("op", "*", a[1], a[2]), True, nm, None)]
            if nm in ("read", "recv"): return [(a[1], a[2], True, nm, None)]
            if nm.startswith(("u_UCharsToChars", "u_charsToUChars")): return [(a[1], a[2], False, nm, None)]
            if nm.startswith("u_str") and nm.startswith(("u_strcpy", "u_uastrcpy", "u_austrcpy", "u_strcat")): return [(a[0], None, False, nm, None)]
            if nm.startswith(("u_strncpy", "u_memcpy", "u_memmove", "u_memset")): return [(a[0], a[2], False, nm, None)]
            if nm.startswith(("u_strToUTF8", "u_strFromUTF8")): return [] if a[0] == ("int", 0) and num(self.prog, a[1]) == 0 else [(a[0], a[1], False, nm, None)]
            return []
        if nm == "transcode" and "XMLString" in q and len(a) >= 3 and pt and len(pt) >= 3 and ("long" in pt[2] or "int" in pt[2]):
            return [(a[1], plus1(a[2]), False, nm, None)]
        if nm == "copyString" and "XMLString" in q: return [(a[0], None, False, nm, None)]
        if nm == "copyNString" and "XMLString" in q: return [(a[0], plus1(a[2]), False, nm, None)]
        if nm in ("extract", "extractBetween", "extractUTF8", "toUTF8") and "UnicodeString" in q:
            for i, t in enumerate(pt):
                if t in ("char *", "char16_t *", "UChar *") or t.endswith("Char16Ptr"):
                    ch = t == "char *"
                    if i == 0: return [(a[0], a[1], False, nm, None)]           # destination, capacity
                    rest = pt[i + 1:]
                    if ch and rest and rest[0] in ("unsigned int", "int", "uint32_t", "int32_t"): return [(a[i], a[i + 1], False, nm, None)]
                    L = a[1]
                    if nm == "extractBetween": L = ("op", "-", a[1], a[0])
                    if not ch: return [(a[i], L, False, nm, None)]
                    cp = a[i + 1] if len(a) > i + 1 else ("int", 0)
                    if cp not in (("int", 0), None) and not (cp[0] == "str" and cp[1].upper() in ("UTF-8", "UTF8")): return [(a[i], None, False, nm, None)]
                    return [(a[i], plus1(("op", "*", ("int", 3), L)), False, nm, None)]
            return []
        if q == "uima::util::Filename::extractBaseName": return [(a[0], ("either", (plus1(norm(("call", "strlen", None, (("call", "uima::util::Filename::getName", obj, ()),)))), plus1(norm(("call", "strlen", None, (("call", "uima::util::Filename::getAsCString", obj, ()),)))))), False, nm, None)]
        if q == "uima::util::Filename::extractPath": return [(a[0], plus1(norm(("call", "strlen", None, (("call", "uima::util::Filename::getAsCString", obj, ()),)))), False, nm, None)]
        return []
    # ----------------------------------------------------------------
    def run(self):
        g, c = self.g, self.c
        self.frame = next((n.fr for n in g.nodes if n.fr is not None), None)
        if self.frame is None: return
        ws, st = {}, []
        for n in g.nodes:
            if n.fr is not None and n.fr is not g.frame: continue          # checked where it stands
            if n.k == "call" and n.nid is not None:
                w = self.writes(n)
                if w: ws[n.i] = w
            if n.k == "set" and n.ev[0] is not None and norm(n.ev[0])[0] == "idx": st.append(n)
        self.heap = self.f.cls is not None and re.match(HEAPCLS, self.f.cls) and self.f.d.get("kind") != "dtor" and any(n.k == "set" and n.ev[0] is not None and n.ev[0][0] == "f" and n.ev[0][2].endswith((self.TOP, self.CELLS)) for n in g.nodes)
        # local pointers that walk through a buffer of known size
        self.walk = {}
        for v, ns in self.sets.items():
            if v[0] == "var" and self.decls.get(v[2], "").rstrip().endswith("*"):
                bs = {b for m in ns if m.ev[1] == "=" and m.ev[2] is not None and not self.deref(m) for b in subforms(norm(m.ev[2])) if isinstance(b, tuple) and b and b[0] in ("var", "f", "g", "new") and b != v and self.maybe(b)}
                if bs and any(self.deref(m) for m in ns): self.walk[v] = bs
        if not ws and not st and not self.heap and not self.walk: return
        self.bad, self.seen = {}, set()
        L = self._L = Loops(g)
        looped = set()
        for lp in L.loops.values(): looped |= lp.body
        # locals and members the sizes and positions depend on
        rel, todo = set(), []
        def need(x):
            for y in subforms(x):
                if isinstance(y, tuple) and y and y[0] in ("var", "f", "ret") and y not in rel: rel.add(y); todo.append(y)
        for n in st:
            if self.maybe(norm(n.ev[0])[1]): need(n.ev[0])
        for v in self.walk: need(v)
        for i, w in ws.items():
            for d, nd, byt, what, src in w:
                if self.maybe(d):
                    for x in (d, nd, src):
                        if isinstance(x, tuple): need(tuple(y for y in x if y is not None))
        if self.heap:
            for n in g.nodes:
                if n.k == "set" and n.ev[0] is not None and n.ev[0][0] in ("var", "f", "ret"): need(n.ev[0])
        while todo:
            y = todo.pop()
            for n in self.sets.get(y, ()):
                if n.ev[2] is not None:
                    need(n.ev[2])
                    for z in subforms(n.ev[2]):
                        k = self.newcap(z) if isinstance(z, tuple) and z and z[0] == "new" else None
                        if k and k[0] is not None: need(k[0])
        def dest(d):
            d = norm(d) if d is not None else None
            while d is not None and d[0] == "ctor" and (d[1] or "").endswith("Char16Ptr") and len(d[2]) == 1: d = d[2][0]
            while d is not None and d[0] == "call" and last(d[1]) in ("strcat", "strcpy", "strncpy", "memset", "memcpy") and d[3]: d = norm(d[3][0])
            return d
        def kill_us(us, lhs):
            return frozenset(x for x in us if not (x[1] == lhs or (x[0] == "C" and contains(x[2][0], lhs)) or (x[0] in ("L", "E") and contains(x[2], lhs)) or contains(x[1], lhs)))
        def step(n, facts, us):
            if n.k == "set" and n.ev[0] is not None:
                lhs, op, rhs = n.ev
                lhs = norm(lhs)
                if lhs[0] == "idx":
                    b = dest(lhs[1])
                    self.store(n, b, lhs[2], facts, us)
                    if rhs == ("int", 0) and lhs[2] == ("int", 0): us = frozenset(x for x in us if not (x[0] == "L" and x[1] == b)) | {("L", b, ("int", 0))}
                    elif rhs is not None: us = frozenset(x for x in us if not (x[0] == "L" and x[1] == b and num(self.prog, lhs[2]) == 0))
                elif self.deref(n):
                    if lhs in self.walk: self.through(n, lhs, facts, us)
                else:
                    old = next((x[2] for x in us if x[0] == "E" and x[1] == lhs), None)
                    if self.heap:
                        o = ("old", show(lhs), n.i)
                        us = frozenset(x for x in us if repl(x, o, 0) == x)
                        facts = frozenset(x for x in facts if repl(x, o, 0) == x)
                        us = frozenset(("E", x[1], repl(x[2], lhs, o)) if x[0] == "E" and x[1] != lhs else x for x in us)
                        if old is not None: us = us | {("E", o, old)}
                        facts = facts | frozenset(repl(x, lhs, o) for x in facts)
                        if old is None and op != "=": old = o
                        rhs = repl(rhs, lhs, o) if rhs is not None and op == "=" else rhs
                    us = kill_us(us, lhs)
                    v = None
                    if op == "=" and rhs is not None and not contains(rhs, lhs): v = rhs
                    elif op == "=" and rhs is not None and rhs[0] == "op" and rhs[2] == lhs and old is not None and not contains(rhs[3], lhs): v = ("op", rhs[1], old, rhs[3])
                    elif op == "=" and rhs is not None and old is not None and lhs[0] == "var" and n.i not in looped: v = repl(rhs, lhs, old)
                    elif op in ("+=", "-=", "*=") and old is not None and rhs is not None and lhs[0] == "var" and n.i not in looped: v = ("op", op[0], old, repl(rhs, lhs, old))
                    elif op in ("++", "--") and old is not None: v = ("op", op[0], old, ("int", 1))
                    elif op in ("+=", "-=", "*=") and old is not None and rhs is not None and not contains(rhs, lhs): v = ("op", op[0], old, rhs)
                    if v is not None and lhs in rel and size(v) < 40 and not (n.i in looped and (op != "=" or any(contains(v, x[1]) for x in us if x[0] == "E"))): us = us | {("E", lhs, norm(v))}
                    if op == "=" and rhs is not None:
                        r = dest(rhs)
                        k = self.cap(r, us)
                        if k is not None and (r[0] in ("new", "call", "ctor")) and not contains(k[0], lhs): us = us | {("C", lhs, k)}
                        elif k is not None and lhs[0] == "var" and self.decls.get(lhs[2], "").rstrip().endswith("*") and not contains(r, lhs): us = us | {("C", lhs, k)}
            if n.k == "call":
                q, u, obj, args, *_ = n.ev
                if n.i in ws:
                    for d, need, byt, what, src in ws[n.i]:
                        us = self.write(n, dest(d), need, byt, what, src, facts, us)
                for a, t in zip(args, split_sig(u)[0] if u else ()):     # what a call may change
                    if a is not None and a[0] in ("var", "f") and (mutable_ref(t) or t.rstrip().endswith("*") and not t.strip().startswith("const") and self.isaddr(n, args.index(a))):
                        us = kill_us(us, a); facts = kill(facts, a)
                if n.i in ws: pass
                elif obj is not None and q and isstd(q):
                    nm = last(q)
                    if nm in ("assign", "resize") and args and len(args) <= 2 and u and split_sig(u)[0] and split_sig(u)[0][0].strip() in ("unsigned long", "size_type", "std::size_t", "size_t"):
                        us = frozenset(x for x in us if x[1] != obj) | {("C", obj, (args[0], 1, "char"))}
                    elif not (u and split_sig(u)[1].startswith("const")) and nm not in ("operator[]", "begin", "end", "data", "c_str"): us = kill_us(us, obj)
            return [(facts, us)]
        init = frozenset()
        if self.heap:
            fq = next(n.ev[0][2] for n in g.nodes if n.k == "set" and n.ev[0] is not None and n.ev[0][0] == "f" and n.ev[0][2].endswith((self.TOP, self.CELLS))).rsplit("::", 1)[0]
            self.top, self.cells = ("f", ("this",), fq + self.TOP), ("f", ("this",), fq + self.CELLS)
            init = frozenset({("le", ((self.top, 1), (self.cells, -1)), 0), ("le", ((self.top, -1),), -1)}) if self.f.d.get("kind") != "ctor" else frozenset()
        r = explore(g, init=init, ustate=frozenset(), step=step, limit=24)
        if self.heap:
            k = "%s|used cells" % self.f.q; self.seen.add(k)
            for facts, us in r.at.get(g.exit.i, ()):
                facts = self.withvals(facts, us)
                if not (self.le(facts, self.top, self.cells) and self.le(facts, ("int", 1), self.top)):
                    self.bad.setdefault(k, "%s: %s: may end with more cells in use than allocated" % (self.f.loc(), self.f.q))
        for k, m in self.bad.items(): c.bad(k, m)
        for k in self.seen - set(self.bad): c.ok(k)
        c.fn(self.f)
    def isaddr(self, n, ix):
        if n.fr is not self.g.frame: return False
        a = self.f.nodes[n.nid].get("a") or []
        if ix >= len(a): return False
        x = self.f.nodes[self.f.strip(a[ix])]
        return x.get("k") == "un" and x.get("op") == "&"
    def maybe(self, d):
        """may the size of this destination be known?"""
        if d is None: return False
        d = norm(d)
        if self.cap(d, frozenset()) is not None: return True
        for y in subforms(d):
            for n in self.sets.get(y, ()) if isinstance(y, tuple) else ():
                if n.ev[2] is not None and any(isinstance(z, tuple) and z and (z[0] == "new" or self.alloc(z) is not None) for z in subforms(n.ev[2])): return True
        return d[0] == "var" and isstd(self.decls.get(d[2], ""))
    def counters(self, n, i):
        """i counts the rounds of a loop over a whole container: i + 1 <= its size at this store"""
        if i is None or i[0] != "var": return None
        if not hasattr(self, "_L"): self._L = Loops(self.g)
        L = self._L
        for lp in L.enclosing(n):
            it = L.iteration(lp)
            if it.kind not in ("it", "ix") or not it.starts or not it.steps: continue
            ins, outs = [], []
            for m in self.g.nodes:
                if m.i in L.live and effect(m, i) is not None: (ins if m.i in lp.body else outs).append(m)
            if any(effect(m, i) != "step" for m in ins) or any(effect(m, i) != ("int", 0) for m in outs): return None
            if not outs or not L.dom(lp.head, {m.i for m in outs} | (lp.body - {lp.head})): return None
            st = [m.i for m in ins]
            if any(L.path(L.succs(s), st, [lp.head], within=lp.body) for s in st): return None      # twice in a round
            if i != it.var and L.path([x for s in st for x in L.succs(s)], [n.i], [lp.head], within=lp.body): return None     # counted before the store
            return it.cont
        return None
    def deref(self, n):
        i = n.nid
        x = self.f.nodes[i] if i is not None and i < len(self.f.nodes) else None
        if not x or x.get("k") != "asg": return False
        l = self.f.nodes[self.f.strip(x["a"][0])]
        return l.get("k") == "un" and l.get("op") == "*"
    def through(self, n, p, facts, us):
        key = self.key(n, "store *%s" % show(p)); self.seen.add(key); self.c.sites.add((self.f.u, n.i))
        f2 = self.withvals(facts, us)
        for b in self.walk[p]:
            k = self.cap(b, us)
            if k is not None and k[0] is not None and self.le(f2, ("op", "+", p, ("int", 1)), ("op", "+", b, k[0])): return
        self.fail(n, key, "writes through %s, which walks through %s without being compared with its end" % (show(p), ", ".join(sorted(show(b)[:40] for b in self.walk[p]))))
    def key(self, n, what):
        return "%s|%s" % (self.f.q, what)
    def fail(self, n, k, msg): self.bad.setdefault(k, "%s: %s: %s" % (n.loc(), self.f.q, msg))
    def store(self, n, b, i, facts, us):
        k = self.cap(b, us)
        if k is None: self.c.elsewhere.add((self.f.u, n.i)); return
        key = self.key(n, "store %s[%s]" % (show(b)[:60], show(i)[:40]))
        self.seen.add(key); self.c.sites.add((self.f.u, n.i))
        capn = k[0]
        cont = self.counters(n, i)
        if cont is not None and capn is not None and any(isinstance(x, tuple) and x and x[0] == "call" and last(x[1]) in ("size", "length") and x[2] == cont for x in (capn,)): return
        facts = self.withvals(facts, us)
        if capn is None or not self.le(facts, ("op", "+", i, ("int", 1)), capn):
            self.fail(n, key, "writes element %s of %s, which has %s" % (show(i)[:80], show(b)[:60], show(capn)[:80] if capn else "?")); return
        if not (self.nonneg(i) or self.le(facts, ("int", 0), i)):
            self.fail(n, key, "writes element %s of %s, which may lie before its first" % (show(i)[:80], show(b)[:60]))
    def nonneg(self, i):
        i = norm(i)
        if i[0] == "ite": return self.nonneg(i[2]) and self.nonneg(i[3])
        d, c = lin(norm(i), self.prog)
        return c >= 0 and all(k > 0 and (x[0] == "len" or x[0] in ("var", "f") and self.unsigned(x) or x[0] == "call" and last(x[1]) in ("strlen", "fread", "min", "length", "size")) for x, k in d.items())
    def withvals(self, facts, us):
        ex = []
        for x in us:
            if x[0] == "E":
                d, c = lin(ul(("op", "-", x[1], x[2])), self.prog)
                if d: ex.append(("eq", tuple(d.items()), -c))
        self.vals = {x[1]: x[2] for x in us if x[0] == "E"}
        return frozenset(facts) | frozenset(ex)
    def write(self, n, d, need, byt, what, src, facts, us):
        facts = self.withvals(facts, us)
        k = self.cap(d, us)
        if k is None:
            if what in ("memset", "memcpy", "memmove", "fread", "read", "recv"): self.c.elsewhere.add((self.f.u, n.i)); return us
            if d is not None and (d[0] == "param" or d[0] == "var" and any(p["id"] == d[2] for p in self.f.params)): self.c.wrappers.add((self.f.u, n.i)); return us
            if what in ("extract", "extractBetween", "extractUTF8", "toUTF8") and self.f.cls and self.f.cls.endswith("UnicodeStringRef"): self.c.wrappers.add((self.f.u, n.i)); return us
            key = self.key(n, "%s into %s" % (what, show(d)[:60])); self.seen.add(key); self.c.sites.add((self.f.u, n.i))
            # written over a string that is at least as long
            if what in ("strcpy",) and self.le(facts, self.slen(src), self.slen(d)): return us
            self.fail(n, key, "%s writes into %s, whose size is not known and not compared with what is written" % (what, show(d)[:80])); return us
        key = self.key(n, "%s into %s" % (what, show(d)[:60])); self.seen.add(key); self.c.sites.add((self.f.u, n.i))
        capn, sz, e = k
        cur = next((x[2] for x in us if x[0] == "L" and x[1] == d), None)
        if need is not None and need[0] == "cat":
            L = None if need[1] is None or cur is None else ("op", "+", cur, need[1])
            need = None if L is None else ("op", "+", L, ("int", 1))
            us = frozenset(x for x in us if not (x[0] == "L" and x[1] == d))
            if L is not None: us = us | {("L", d, norm(L))}
        elif what in ("strcpy", "sprintf") and need is not None:
            us = frozenset(x for x in us if not (x[0] == "L" and x[1] == d)) | {("L", d, norm(("op", "-", need, ("int", 1))))}
        else: us = frozenset(x for x in us if not (x[0] == "L" and x[1] == d))
        if capn is None: self.fail(n, key, "%s writes into %s, whose size is not known" % (what, show(d)[:80])); return us
        lim = capn
        if byt:
            if sz is None:
                if not (d[0] == "new" or True): return us
                lim = ("op", "*", capn, ("sizeof", e))
            else: lim = ("op", "*", capn, ("int", sz))
        alts = need[1] if need is not None and need[0] == "either" else (need,)
        if need is None or not any(self.le(facts, x, lim) for x in alts):
            self.fail(n, key, "%s writes up to %s into %s, which has room for %s" % (what, "an unknown number" if need is None else show(alts[0])[:100], show(d)[:60], show(lim)[:100]))
        return us

def size(f): return 1 + sum(size(x) for x in f if isinstance(x, tuple)) if isinstance(f, tuple) else 0

def repl(f, a, b):
    if f == a: return b
    if not isinstance(f, tuple): return f
    return tuple(repl(x, a, b) for x in f)

def run(prog, c):
    c.rule("every raw write (string and memory functions, formatted output, text extraction, element stores) into a buffer whose size the library fixes or computes itself is bounded by that size on every path")
    c.elsewhere, c.sites, c.wrappers = set(), set(), set()
    done = 0
    for f in sorted(prog.fns.values(), key=lambda f: (f.file, f.u)):
        if not f.blocks: continue
        done += 1
        Fun(prog, c, f).run()
    c.count("functions_scanned", done); c.count("write_sites", len(c.sites)); c.count("through_parameters", len(c.wrappers)); c.count("sized_elsewhere", len(c.elsewhere))
    c.floor("write_sites", 30)
