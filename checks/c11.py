"""C11: every string value reaches XML output escaped, and escaping is an injective, complete, character-wise translation."""
import re
from .common import *
from sa.loops import *
from sa.absint import AI
from .c09 import last
from .c12 import streamed, split_params, counted

XF = re.compile(r"(xmiwriter|xmlwriter)\.cpp$")
SPECIAL = {38: "amp", 60: "lt", 62: "gt", 34: "quot", 39: "apos", 13: None, 10: None, 9: None}
ENT = {"&amp;": 38, "&lt;": 60, "&gt;": 62, "&quot;": 34, "&apos;": 39}

def decode(s):
    """the characters an XML parser makes of the text s; None if it is not well-formed content"""
    out = []; i = 0
    while i < len(s):
        if s[i] == "&":
            m = re.match(r"&#(\d+);|&#x([0-9a-fA-F]+);|&(amp|lt|gt|quot|apos);", s[i:])
            if not m: return None
            out.append(int(m.group(1)) if m.group(1) else int(m.group(2), 16) if m.group(2) else ENT[m.group(0)]); i += len(m.group(0))
        elif s[i] in "<>\"'\r\n\t": return None
        else: out.append(ord(s[i])); i += 1
    return out

# ------------------------------------------------------------------ the translation
class O:
    def __init__(self, ch, consts): self.ch = ch; self.consts = consts
    def cmp(self, op, a, b):
        if op in ("==", "!=") and any(isinstance(x, tuple) and x and x[0] == "lit" for x in (a, b)) and any(x == 0 and not isinstance(x, tuple) for x in (a, b)): return op == "!="
        return None
    def leaf(self, f):
        if f[0] == "g" and f[1] in self.consts: return self.consts[f[1]]
        return None
    def call(self, f, args, rec):
        n = last(f[1] or "")
        o = rec(f[2]) if f[2] is not None else None
        if n in ("getBuffer", "data", "getTerminatedBuffer") and f[2] is not None and f[2][0] == "param": return self.ch
        if n in ("charAt", "operator[]", "char32At") and f[2] is not None and f[2][0] == "param": return self.ch
        if n in ("operator*",) and isinstance(o, int): return o
        return None
    def throws(self, n): return False

class T(AI):
    def val(self, f, env):
        if f is None: return None
        if f in env: return env[f]
        if f[0] == "str": return ("lit", f[1])
        if f[0] == "ctor" and f[2] and len(f[2]) >= 1: return self.val(f[2][0], env)
        if f[0] == "idx":
            v = self.val(f[1], env)
            if isinstance(v, int): return v
        if f[0] in ("deref", "tmp") and len(f) > 1 and isinstance(f[1], tuple) and f[1]: return self.val(f[1], env)
        return AI.val(self, f, env)

def statics(f):
    """values of the static and global constants of a function: characters and literals"""
    out = {}
    for n in f.nodes:
        if n["k"] != "decl": continue
        for v in n["vars"]:
            i = v.get("init")
            for _ in range(8):
                if i is None: break
                m = f.nodes[i]
                if m["k"] == "cast": i = m["s"]; continue
                if m["k"] == "ctor" and len(m["a"]) >= 1: i = m["a"][0]; continue
                if m["k"] == "str": out[f.q + "::" + v["n"]] = ("lit", m["v"])
                elif "cv" in m or m["k"] == "int": out[f.q + "::" + v["n"]] = m.get("cv", m.get("v"))
                break
    return out

def translation(prog, c):
    fs = [f for f in prog.byq.get("uima::XMLWriterABase::normalize", []) if f.blocks]
    if len(fs) != 1: raise AnalysisBroken("what escapes strings for XML?")
    f = fs[0]; c.fn(f)
    g = Graph(prog, f, inline=lambda t, fr: XF.search(t.file), depth=2); L = Loops(g)
    consts = statics(f)
    for t in prog.fns.values():
        if XF.search(t.file) and t.blocks and t.cls is None: consts.update(statics(t))
    out = ("param", 1, f.params[1]["n"])
    app = [n for n in g.nodes if n.k == "call" and n.i in L.live and n.ev[0] and last(n.ev[0]) in ("append", "operator+=") and n.ev[2] == out]
    if not app: raise AnalysisBroken("%s: nothing is written" % f.q)
    lps = {L.innermost(n).head for n in app if L.innermost(n) is not None}
    if len(lps) != 1 or any(L.innermost(n) is None for n in app): raise AnalysisBroken("%s: no single loop" % f.q)
    lp = next(l for l in L.loops.values() if l.head in lps)
    # the loop goes through all characters, one at a time
    ptrs = {n.ev[0] for n in g.nodes if n.k == "set" and n.i in L.live and n.ev[0] is not None and n.ev[0][0] == "var" and n.ev[2] is not None and n.ev[2][0] == "call" and last(n.ev[2][1]) in ("getBuffer", "data", "getTerminatedBuffer")}
    def length(b): return any(isinstance(y, tuple) and y and y[0] == "call" and last(y[1]) in ("length", "size") and y[2] is not None and y[2][0] == "param" for y in subforms(b))
    lens = {n.ev[0] for n in g.nodes if n.k == "set" and n.ev[0] is not None and n.ev[0][0] == "var" and n.ev[2] is not None and length(n.ev[2])}
    isend = lambda b: length(b) or b in lens
    ok = counted(prog, L, lp, lambda op, b: op == ">=" and isend(b))
    def stepped(p):
        st = [n for n in g.nodes if n.i in lp.body and n.k == "set" and n.ev[0] == p]
        inc = [n.i for n in st if effect(n, p) == "step"]
        return bool(inc) and len(inc) == len(st) and not L.cycle_avoids(lp, inc) and not any(L.path(L.succs(s), inc, [lp.head], within=lp.body) for s in inc)
    moving = [p for p in ptrs if any(n.i in lp.body and n.k == "set" and n.ev[0] == p for n in g.nodes)]
    if not ok and moving:          # while (p != end)
        ex = [exitcond(l) for n, t, l in L.exits(lp) if not L.throws(t.i)]
        ok = len(ex) == 1 and ex[0] is not None and ex[0][0] == "cmp" and any(x in moving for x in ex[0][2:]) and any(isend(x) for x in ex[0][2:]) and ex[0][1] in (">=", "==", "<=")
    used = [p for p in moving]
    ok = ok and all(stepped(p) for p in used)
    c.judge(ok, "translation|all characters", "%s: not every character is translated, once and in order" % app[0].loc(), "%s: one pass per character" % f.loc())
    # what becomes of each character
    late = {n.i for n in app}
    for ch in sorted(set(SPECIAL) | {32, 65, 0x7f, 0xe9, 0x4e2d, 0xd83d, 0xde00, 35, 59, 0x5d}):
        o = O(ch, consts); ai = T(g, o); seqs = set()
        def visit(n, env):
            if n.k == "set" and n.ev[0] in ptrs and n.ev[1] != "=": return env
            if n.i == lp.head:
                if env.get(("in",)): seqs.add(env.get(("out",), ())); return False
                e = dict(env); e[("in",)] = 1; return e
            if n.i in late:
                v = ai.val(n.ev[3][0], env) if n.ev[3] else None
                e = dict(env); e[("out",)] = e.get(("out",), ()) + (v,); return e
            return None
        class Keep(T): pass
        ai.run(visit)
        c.count("characters")
        good = bool(seqs)
        for s in seqs:
            txt = []
            for v in s:
                if isinstance(v, int): txt += [v] if v not in SPECIAL else [None]
                elif isinstance(v, tuple) and v and v[0] == "lit":
                    d = decode(v[1])
                    txt += d if d is not None else [None]
                else: txt.append(None)
            if txt != [ch]: good = False
        c.judge(good, "translation|%d" % ch, "%s: the character %s is written as %s, which is not read back as that character" % (f.loc(), repr(chr(ch)) if ch < 0xd800 else hex(ch), sorted(map(str, seqs)) or "nothing"), "%s -> %s" % (hex(ch), sorted(map(str, seqs))))
    c.floor("characters", 12)

# ------------------------------------------------------------------ the values
SRC = re.compile(r"(getStringValue|getFSAsString|getCoveredText|getDocumentText|getFeatureValueAsString|getLocalStringData|getSofaID|getSofaMime|getSofaURI|getStringFSValue|getSofaId|getUnicodeStringRef)$")
FIELDS = ("uima::XmlAttribute::value",)

def source(prog, y):
    if not isinstance(y, tuple) or not y: return None
    if y[0] == "call":
        q = y[1] or ""
        if SRC.search(q): return q
        if last(q) in ("get", "getHead", "operator[]") and re.search(r"UnicodeStringRef|StringArrayFS|StringListFS", q) and "vector" not in q and "map" not in q: return q
    if y[0] == "f" and y[2] in FIELDS: return y[2]
    if y[0] == "idx" and y[1][0] == "f" and re.search(r"pair<.*vector<std::basic_string<char>.*::second$", y[1][2]): return "OotsElementData::childElements"
    return None

def mut(t): return "&" in t and not t.strip().startswith("const ") or t.strip().endswith("*") and not t.strip().startswith("const ")

def run(prog, c):
    c.rule("the escaping function goes through every UTF-16 unit once, in order, and appends for it a text that an XML parser reads as exactly that unit (the eight special characters as entities, the rest unchanged)")
    c.rule("no string value (string feature, element of string array or list, covered text, document text, Sofa data, preserved out-of-type-system value) reaches an output stream of the XML writers other than through the escaping function, on any path; a CDATA section only after its end mark has been searched for")
    c.rule("a descriptor turned into XML appends only literals, numbers, escaped text and XML made by the same functions")
    c.rule("strings are streamed in UTF-8, the encoding the documents declare")
    translation(prog, c)
    encoding(prog, c)
    values(prog, c)
    descriptors(prog, c)

def encoding(prog, c):
    f = prog.fn("uima::UnicodeStringRef::toSingleByteStream"); c.fn(f)
    g = Graph(prog, f, inline=lambda t, fr: t.cls == f.cls and t.name not in ("extract",) and t.file == f.file, depth=2)
    r = explore(g, ustate=None, step=lambda n, facts, us: [(facts, us)])
    ex = [n for n in g.nodes if n.k == "call" and n.ev[0] and last(n.ev[0]) in ("extract", "extractUTF8", "toUTF8String", "asUTF8")]
    if not ex: raise AnalysisBroken("%s: how is text encoded?" % f.q)
    class E(O):
        def call(s, fm, args, rec): return None
        def cmp(s, op, a, b): return None
    got = set()
    ai = T(g, E(0, {}))
    def visit(n, env):
        if n.k == "br" and any(isinstance(y, tuple) and y and y[0] == "g" and re.search(r"std::(cout|cerr|clog)", y[1]) for y in subforms(n.ev[0])):
            pass
        if n in ex: got.add((n.i, ai.val(n.ev[3][-1], env) if last(n.ev[0]) == "extract" and len(n.ev[3]) > 1 else ("lit", "utf-8")))
        return None
    # the path that is taken for streams other than the console
    class Q(E):
        def cmp(s, op, a, b): return None
        def truth(s, f): return None
    class N(T):
        def truth(self, fm, env):
            if fm is not None and any(isinstance(y, tuple) and y and y[0] == "g" and re.search(r"std::(cout|cerr|clog)", y[1]) for y in subforms(fm)):
                neg_ = fm[0] == "not" or fm[0] == "cmp" and fm[1] == "!="
                return neg_
            return T.truth(self, fm, env)
    ai = N(g, Q(0, {})); got.clear(); ai.run(visit)
    c.count("encodings")
    ok = bool(got) and all(isinstance(v, tuple) and v[0] == "lit" and v[1].strip('"').lower() in ("utf-8", "utf8") for i, v in got)
    c.judge(ok, "encoding|stream", "%s: text goes to a stream other than the console as %s, documents declare UTF-8" % (ex[0].loc(), sorted(str(v) for i, v in got)), "%s: UTF-8 for all streams but the console" % ex[0].loc())

    # text converted on its way into a document
    for f in sorted((f for f in prog.fns.values() if XF.search(f.file) and f.blocks), key=lambda f: f.u):
        for n in Graph(prog, f).nodes:
            if n.k != "call" or not n.ev[0] or last(n.ev[0]) != "extract" or "UnicodeString" not in n.ev[0] or not n.ev[3]: continue
            if not re.search(r"char \*\)(const)?$", n.ev[1]): continue
            v = n.ev[3][-1]
            c.count("encodings")
            nm = v[1] if v is not None and v[0] == "str" else None
            if v is not None and v[0] == "call":
                rs = [m.ev[0] for t in prog.byq.get(v[1], []) if t.blocks for m in Graph(prog, t).nodes if m.k == "ret"]
                if rs and all(x is not None and x[0] == "str" for x in rs) and len(set(rs)) == 1: nm = rs[0][1]
            c.judge(nm is not None and nm.strip('"').lower() in ("utf-8", "utf8"), "encoding|%s" % f.name, "%s: %s converts text of the document to %s, documents declare UTF-8" % (n.loc(), f.q, show(v) if v else "?"), "%s: UTF-8" % n.loc())

def values(prog, c):
    seen = set(); sinks = 0; srcs = set()
    for f in sorted((f for f in prog.fns.values() if XF.search(f.file) and f.blocks and f.name != "normalize"), key=lambda f: f.u):
        helpers = lambda t, fr: XF.search(t.file) and t.name != "normalize" and any("UnicodeStringRef" in p["t"] or "UnicodeString" in p["t"] or "basic_string" in p["t"] for p in t.params)
        g = Graph(prog, f, inline=helpers, depth=2); L = Loops(g)
        if not any(streamed(n) is not None for n in g.nodes): continue
        c.fn(f)
        childvec = {n.ev[0] for n in g.nodes if n.k == "set" and n.ev[0] is not None and n.ev[0][0] == "var" and n.ev[2] is not None and n.ev[2][0] == "f" and re.search(r"pair<.*vector<std::basic_string<char>.*::second$", n.ev[2][2])}
        def raw(fm, dirty):
            """a string value in fm that has not been escaped"""
            if fm is None: return None
            if fm[0] == "call" and last(fm[1] or "") == "normalize": return None
            if fm[0] == "call" and last(fm[1] or "") in ("length", "size", "isEmpty", "empty", "compare", "operator==", "operator!=", "isValid", "getBuffer") and last(fm[1]) != "getBuffer": return None
            if fm[0] == "cmp": return None
            s = source(prog, fm)
            if s: srcs.add(s); return s
            if fm in dirty: return show(fm)
            if fm[0] == "idx" and fm[1] in childvec: return show(fm)
            for x in fm[1:]:
                for z in (x if isinstance(x, tuple) and x and isinstance(x[0], tuple) else (x,)):
                    if isinstance(z, tuple) and z and isinstance(z[0], str):
                        r = raw(z, dirty)
                        if r: return r
            return None
        hits = {}
        def step(n, facts, us):
            d = us
            if n.k == "set" and n.ev[0] is not None and n.ev[0][0] in ("var", "param"):
                r = raw(n.ev[2], d) if n.ev[2] is not None else None
                if r: d = d | {n.ev[0]}
                elif n.ev[1] == "=": d = d - {n.ev[0]}
            elif n.k == "call" and n.ev[0]:
                nm = last(n.ev[0]); o = n.ev[2]; a = n.ev[3]
                s = streamed(n)
                if s is not None:
                    r = raw(s[0], d)
                    if r and "stringstream" in n.ev[0]: r = r
                    hits.setdefault(n.i, set()).add((r, cdata(g, n, s[0], facts)) if r else None)
                elif nm == "normalize": pass
                elif nm in ("setTo", "operator=", "append", "operator+=", "assign", "insert", "replace", "push_back") and o is not None and o[0] in ("var", "param"):
                    r = next((x for x in (raw(y, d) for y in a) if x), None)
                    if r: d = d | {o}
                    elif nm in ("setTo", "operator=", "assign"): d = d - {o}
                elif nm == "normalize": pass
                else:
                    u = n.ev[1] or ""
                    ps = split_params(u[u.index(nm + "("):]) if nm + "(" in u else []
                    sig = u[u.index(nm + "("):] if nm + "(" in u else ""
                    r = raw(o, d) if o is not None else None
                    r = r or next((x for x in (raw(y, d) for y in a) if x), None)
                    if r and n.ev[0].startswith(("icu_", "std::", "uima::UnicodeStringRef", "u_", "uima::util")):
                        for y, t in zip(a, raws(sig)):
                            if mut(t) and y is not None and y[0] in ("var", "param"): d = d | {y}
            return [(facts, d)]
        explore(g, ustate=frozenset(), step=step)
        for i in sorted(hits):
            n = g.nodes[i]; sinks += 1; c.count("streamed_values")
            bad = sorted({x[0] for x in hits[i] if x and not x[1]})
            c.judge(not bad, "unescaped|%s|%s" % (f.name, bad[0] if bad else ""), "%s: %s goes into the document without being escaped" % (n.loc(), ", ".join(bad)))
    c.count("string_sources", len(srcs))
    c.floor("streamed_values", 250)
    c.floor("string_sources", 4)

def raws(sig):
    i = sig.find("("); d = 0; out = []; cur = ""
    for ch in sig[i + 1:]:
        if ch in "(<": d += 1
        if ch in ")>":
            if d == 0: break
            d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

def cdata(g, n, v, facts):
    """the value is written into a CDATA section and its end mark does not occur in it any more"""
    for fa in facts:
        for x in fact_forms(fa):
            for y in subforms(x):
                if isinstance(y, tuple) and y and y[0] == "call" and last(y[1]) in ("find", "indexOf") and y[2] == v and any(z[0] == "str" and "]]>" in z[1] for z in y[3] if isinstance(z, tuple) and z): return True
    # a loop that ends when find() does not find the mark any more
    L = Loops(g)
    for lp in L.loops.values():
        ex = [(m, exitcond(l)) for m, t, l in L.exits(lp) if not L.throws(t.i)]
        if len(ex) != 1 or ex[0][1] is None or not L.dom(n.i, [ex[0][0].i]): continue
        x = ex[0][1]
        vs = [y for y in subforms(x) if isinstance(y, tuple) and y and y[0] == "var"]
        defs = [m for m in g.nodes if m.k == "set" and m.ev[0] in vs and m.ev[1] == "=" and m.ev[2] is not None and m.ev[2][0] == "call" and last(m.ev[2][1]) in ("find", "indexOf") and m.ev[2][2] == v and any(z[0] == "str" and "]]>" in z[1] for z in m.ev[2][3])]
        if any(m.i in lp.body for m in defs) and any(m.i not in lp.body for m in defs) and not [m for m in g.nodes if m.k == "call" and m.i not in lp.body and m.ev[2] == v and last(m.ev[0] or "") in ("append", "operator+=", "operator=") and L.path(L.succs(ex[0][0].i), [m.i], [n.i])]: return True
    return False

# ------------------------------------------------------------------ descriptors
def literal_fn(prog, q):
    fs = [f for f in prog.byq.get(q, []) if f.blocks]
    if not fs: return False
    for f in fs:
        for n in Graph(prog, f).nodes:
            if n.k == "ret" and not lit(prog, n.ev[0]): return False
    return True

def lit(prog, x):
    while x is not None and x[0] == "ctor" and len(x[2]) >= 1: x = x[2][0]
    return x is not None and (x[0] in ("str", "int") or x[0] == "g")

def descriptors(prog, c):
    rx = re.compile(r"framework/taespecifier\.cpp$")
    roots = [f for f in prog.fns.values() if f.blocks and rx.search(f.file) and re.search("XMLBuffer", f.name)]
    if not roots: raise AnalysisBroken("what turns a descriptor into XML?")
    fam = set(); todo = list(roots)
    isout = lambda t: re.match(r"icu_\d+::UnicodeString &$|UnicodeString &$", t.strip()) is not None
    while todo:
        f = todo.pop()
        if f.u in fam: continue
        fam.add(f.u)
        for i, n in f.calls():
            for t in prog.targets(n["u"], False) if n.get("u") else ():
                if t.blocks and rx.search(t.file) and any(isout(p["t"]) for p in t.params) and t.name != "normalize": todo.append(t)
    fns = sorted((prog.fns[u] for u in fam), key=lambda f: f.u)
    for f in fns:
        c.fn(f); g = Graph(prog, f)
        outs = {("param", ix, p["n"]) for ix, p in enumerate(f.params) if isout(p["t"])}
        def clean(fm, ok):
            if fm is None: return False
            if fm[0] in ("str", "int", "g", "enum"): return True
            if fm[0] == "ctor": return all(clean(x, ok) for x in fm[2])
            if fm[0] == "param":
                if fm in ok: return True
                p = f.params[fm[1]]
                if re.match(r"const char \*", p["t"]): return args_literal(prog, f, fm[1])
                return False
            if fm[0] == "call":
                return literal_fn(prog, fm[1]) or last(fm[1]) == "getXmlRootTag" or last(fm[1]) in ("to_string",)
            if fm[0] == "op": return False
            return fm in ok
        hits = {}
        arrs = {n.ev[3][0] for n in g.nodes if n.k == "call" and n.ev[0] and last(n.ev[0]) in ("sprintf", "snprintf") and n.ev[3] and not any(isinstance(z, tuple) and z and z[0] == "str" and "%s" in z[1] for z in n.ev[3])}
        def step(n, facts, us):
            ok = us
            if n.k == "set" and n.ev[0] is not None and n.ev[0][0] == "var":
                ok = ok | {n.ev[0]} if n.ev[2] is not None and clean(n.ev[2], ok) else ok - {n.ev[0]}
            elif n.k == "call" and n.ev[0]:
                nm = last(n.ev[0]); o = n.ev[2]; a = n.ev[3]
                if o is not None and (o in outs or o[0] == "var") and nm in ("append", "operator+=", "insert", "setTo", "operator=", "replace"):
                    vals = [x for x in a if x is not None]
                    good = all(clean(x, ok) for x in vals)
                    if o in outs: hits.setdefault(n.i, set()).add(good)
                    elif not good: ok = ok - {o}
                    elif nm in ("setTo", "operator="): ok = ok | {o}
                elif nm in ("remove", "removeBetween", "truncate"): pass
                elif nm in ("sprintf", "snprintf") and a and a[0] in arrs: ok = ok | {a[0]}
                elif nm == "normalize" or n.ev[1] in fam: pass
                else:
                    sig = n.ev[1][n.ev[1].index(nm + "("):] if n.ev[1] and nm + "(" in n.ev[1] else ""
                    for y, t in zip(a, raws(sig)):
                        if mut(t) and y is not None and y in ok: ok = ok - {y}
            return [(facts, ok)]
        explore(g, ustate=frozenset(outs), step=step)
        for i in sorted(hits):
            c.count("appended_parts")
            n = g.nodes[i]
            c.judge(all(hits[i]), "descriptor|%s|%s" % (f.name, show(n.ev[3][0])[:60] if n.ev[3] else ""), "%s: %s becomes part of a descriptor's XML without being escaped" % (n.loc(), show(n.ev[3][0]) if n.ev[3] else "?"))
    c.floor("appended_parts", 150)

def args_literal(prog, f, ix):
    cs = prog.callers().get(f.u, [])
    n0 = 0
    for h, i in cs:
        n = h.nodes[i]
        a = n.get("a") or []
        if ix >= len(a): return False
        n0 += 1
        if h.nodes[h.strip(a[ix])]["k"] != "str": return False
    return n0 > 0
