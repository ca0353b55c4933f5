"""C12: the XMI and XCAS writers and readers agree, for every range kind and array kind, on what is written, how, and how it is read back."""
import re
from .common import *
from sa.flow import ul
from sa.loops import *
from .c10 import Kinds, KAI, typecodes, OTHER, STRSUB, RES, XC, XM, SD
from .c09 import last, values

FMT = {"XMI": ("uima::XmiWriter", XM), "XCAS": ("uima::XCASWriter", XC)}
FILES = re.compile(r"(xmiwriter|xmlwriter|xcasdeserializer|xmideserializer|xmishareddata)\w*\.[ch]pp$")
WIDTH = {"bool": 1, "char": 8, "signed char": 8, "unsigned char": 8, "short": 16, "unsigned short": 16, "int": 32, "unsigned int": 32, "long": 64, "unsigned long": 64, "long long": 64, "unsigned long long": 64,
         "float": 24, "double": 53, "long double": 64}
NEED = {"Byte": 8, "Short": 16, "Int": 32, "Long": 64, "Float": 24, "Double": 53}
ELEMENT = {"8": "Int"}
TEXT = ("txt",)

def camel(s):
    n = "".join(x.capitalize() for x in s.split("_"))
    n = re.sub("^Fs", "FS", n)
    return {"IntegerArray": "IntArray"}.get(n, n)

def kindof(prog, cls):
    """element kind of an array class, from the type its get() returns"""
    m = re.match(r"uima::BasicArrayFS<([^,]+), *(\d+)>", cls)
    if m:
        code = int(m.group(2))
        for n, v in typecodes(prog).items():
            if v == code: return re.sub(r"ArrayType$", "", n[5:])
    m = re.match(r"uima::BasicListFS<([^,]+),", cls)
    if m: return {"int": "Int", "float": "Float", "uima::FeatureStructure": "FS"}.get(m.group(1), "String" if "String" in m.group(1) else None)
    m = re.match(r"uima::(\w*)ArrayFS$", cls)
    if m: return m.group(1) or "FS"
    m = re.match(r"uima::(\w*)ListFS$", cls)
    if m: return m.group(1) or "FS"
    return None

class Tok:
    """('v', shape, kind, how): a value of the CAS on its way into the text"""

class W(KAI):
    """writer side: values are tokens of what they came from"""
    def truth(self, f, env):
        v = self.val(f, env) if f is not None else None
        if isinstance(v, tuple) and v and v[0] == "v" and v[2] == "Boolean": return bool(self.o.b)
        return KAI.truth(self, f, env)
    def val(self, f, env):
        if f is None: return None
        if f in env: return env[f]
        if f[0] == "str": return ("lit", f[1])
        if f[0] == "conv":
            v = self.val(f[-1], env)
            return v
        if f[0] == "ctor" and f[2]:
            v = self.val(f[2][0], env)
            if v is not None: return v
        if f[0] == "op" and f[1] == "&":
            vs = [self.val(x, env) for x in f[2:]]
            if 255 in vs:
                t = [x for x in vs if isinstance(x, tuple) and x and x[0] == "v"]
                if t: return t[0]
        return KAI.val(self, f, env)

class WO:
    b = 1; found = True
    def __init__(self, prog, kinds, own, rng, multi, fields): self.prog = prog; self.kinds = kinds; self.own = own; self.rng = rng; self.multi = multi; self.fields = fields
    def cmp(self, op, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and x and x[0] in ("v", "id") and y == 0 and op in ("==", "!="): return op == "!="       # there is a value
        return None
    def leaf(self, f):
        if f[0] in ("g", "enum"):
            v = self.prog.gcv.get(f[1]) if f[0] == "g" else f[2]
            if f[0] == "g" and f[1].endswith("::INVALID_FS"): return 0
            return v if isinstance(v, int) else None
        if f[0] == "f" and f[1] == ("this",): return self.fields.get(f[2].rsplit("::", 1)[-1])
        return None
    def call(self, f, args, rec):
        q = f[1] or ""; nm = last(q); cls = q.rsplit("::", 1)[0]
        o = rec(f[2]) if f[2] is not None else None
        if nm == "operator==" and len(args) + (f[2] is not None) == 2:
            a, b = (o, args[0]) if f[2] is not None else args
            if isinstance(a, int) and isinstance(b, int): return int(a == b)
            return None
        if nm == "operator!=" and f[2] is not None and isinstance(o, int) and isinstance(args[0], int): return int(o != args[0])
        m = re.match(r"get(\w+?)(ArrayFS|ListFS)?Value$", nm)
        if m and cls == "uima::FeatureStructure":
            if m.group(2): return ("v", "S", "FS", "")
            return ("v", "S", m.group(1), "")
        if nm in ("get", "operator[]", "getHead") and kindof(self.prog, cls): return ("v", "E", kindof(self.prog, cls), "")
        if nm == "toText" and args and isinstance(args[0], tuple) and args[0][0] == "v": return args[0][:3] + ("text",)
        if nm in ("demoteFS",) and args: return args[0]
        if nm in ("getXmiId", "getUniqueID") and args and isinstance(args[0], tuple) and args[0][0] == "v": return args[0][:3] + (("id " + nm) if nm == "getXmiId" or not self.identity else "",)
        if nm in ("isValid", "getBuffer"): return 1
        if nm == "isUntouchedFSValue": return 0
        if nm == "isMultipleReferencesAllowed": return self.multi
        if nm == "getType" and f[2] is not None and "FeatureStructure" in q or nm == "getType" and kindof(self.prog, cls):
            if isinstance(o, tuple) and o[0] == "v" and o[1:3] == ("S", "FS"): return self.runtime()
            return self.own if o is None or o == ("self",) else None
        if nm in ("demoteType", "promoteType", "Type") and args: return args[0]
        if nm == "getType" and args and isinstance(args[0], str): return None
        if nm == "subsumes" and f[2] is not None and isinstance(o, int) and len(args) == 1 and isinstance(args[0], int): return int(o == args[0] or (o == self.fields.get("iv_arrayType") and self.kinds.ask("uima::TypeSystem::isArrayType", args[0]) == 1))
        if nm == "isStringSubType" and isinstance(o, int): return int(o == STRSUB)
        if nm == "isPrimitive" and args and isinstance(args[0], int) and args[0] == STRSUB: return 1
        if nm.startswith("is") and len(args) == 1 and isinstance(args[0], int) and q in self.prog.byq: return self.kinds.ask(q, args[0])
        if nm in ("getTail",): return None
        if nm == "getType" and args: return None
        if nm in ("c_str", "str", "data", "asUTF8", "UnicodeStringRef", "basic_string") : return o if f[2] is not None and f[2][0] != "tmp" else (args[0] if args else None)
        return None
    def throws(self, n): return False
    identity = True
    def runtime(self):
        """type of a list that has elements"""
        codes = typecodes(self.prog)
        for n, v in codes.items():
            if v == self.rng:
                m = re.match(r"gs_ty(Int|Float|String|FS)?ListType$", n)
                if m: return codes["gs_tyNE%sListType" % (m.group(1) if m.group(1) != "FS" else "")]
        return self.rng

def streamed(n):
    """the value a << puts into a stream, and the static type it is put there with"""
    if n.k != "call" or not n.ev[0] or last(n.ev[0]) != "operator<<": return None
    a = n.ev[3]
    sig = n.ev[1][n.ev[1].rindex("operator<<"):] if n.ev[1] and "operator<<" in n.ev[1] else ""
    ps = split_params(sig)
    if n.ev[2] is not None: return a[0], ps[0] if ps else ""
    if len(a) == 2: return a[1], ps[1] if len(ps) > 1 else ""
    return None

def split_params(sig):
    i = sig.find("("); d = 0; out = []; cur = ""
    for ch in sig[i + 1:]:
        if ch in "(<": d += 1
        if ch in ")>":
            if d == 0: break
            d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return [re.sub(r"\bconst\b|&", "", x).strip() for x in out]

def typefields(prog, c, cls):
    """this class' fields that hold a built-in type -> its code, from the constructors"""
    codes = typecodes(prog); out = {}; seen = 0
    for f in prog.fns.values():
        if f.cls != cls or f.d.get("kind") != "ctor" or not f.blocks: continue
        for n in Graph(prog, f).nodes:
            if n.k != "set" or n.ev[0] is None or n.ev[0][0] != "f" or n.ev[2] is None: continue
            for y in subforms(n.ev[2]):
                if isinstance(y, tuple) and y and y[0] == "g" and "TYPE_NAME_" in y[1]:
                    code = codes.get("gs_ty%sType" % camel(y[1].split("TYPE_NAME_")[1]))
                    fld = last(n.ev[0][2])
                    seen += 1
                    if code is None or out.get(fld, code) != code: c.bad("type fields|%s|%s" % (cls, fld), "%s: %s is initialised with %s" % (n.loc(), fld, y[1]))
                    out[fld] = code
    return out

def run(prog, c):
    c.rule("for every range kind, array kind and multipleReferencesAllowed setting, the text the writer produces for a present value (value, typed elements, or ID; which accessor; which literals) is what the reader of that format stores again, by the same kind's accessor")
    c.rule("a number is put into the text by a type and precision that holds every value of the kind, and read by a conversion that does too; a byte is not written as a character; text is normalized")
    c.rule("what the writer refers to by ID is itself enqueued for writing, under the same conditions; all views, indexes, enqueued FSs, appropriate features and array elements are gone through completely")
    c.rule("one function makes the IDs of FSs, references and view members; the reader enters the FS under the ID attribute's value")
    codes = typecodes(prog)
    if len(codes) < 25: raise AnalysisBroken("built-in type codes: %d" % len(codes))
    K = Kinds(prog)
    kinds = {n[5:-4]: v for n, v in codes.items() if not re.search(r"ArrayBase|ListBase|^gs_ty(Top|AnnotationBase|SofaBase|Invalid)Type|gs_ty(Sofa|Annotation|Document)", n)}
    kinds["(user type)"] = OTHER; kinds["(string subtype)"] = STRSUB
    precision(prog, c)
    for fmt in FMT: one(prog, c, fmt, K, codes, kinds)

def precision(prog, c):
    need = {"float": 9, "double": 17}
    for f in prog.byq.get("uima::XMLWriterABase::toText", []):
        ty = f.params[0]["t"]; c.fn(f)
        g = Graph(prog, f); L = Loops(g)
        pr = [n for n in g.nodes if n.k == "call" and n.i in L.live and n.ev[0] and last(n.ev[0]) in ("precision", "setprecision") and n.ev[3]]
        out = [n for n in g.nodes if n.i in L.live and streamed(n) and any(isinstance(y, tuple) and y and y[0] == "param" for y in subforms(streamed(n)[0]))]
        rets = [n for n in g.nodes if n.k == "ret" and n.i in L.live]
        c.count("precisions")
        ok = bool(out) and all(L.dom(o.i, [p.i for p in pr if (lambda v: v is not None and v >= need[ty])(num(prog, p.ev[3][0]))]) and WIDTH.get(streamed(o)[1], 0) >= WIDTH[ty] for o in out)
        fixed = any(n.k == "call" and n.ev[0] and last(n.ev[0]) in ("setf", "unsetf", "flags") for n in g.nodes) or any(isinstance(y, tuple) and y and str(y[-1]).endswith(("::fixed",)) for n in g.nodes for e in (n.ev or ()) if isinstance(e, tuple) for y in subforms(e))
        c.judge(ok and not fixed, "precision|%s" % ty, "%s: not every %s is written with enough digits (%d significant) to be read back" % (f.loc(), ty, need.get(ty, 0)), "%s: %s with at least %d significant digits" % (f.loc(), ty, need.get(ty, 0)))
    c.floor("precisions", 2)

def one(prog, c, fmt, K, codes, kinds):
    wcls, rcls = FMT[fmt]
    fields = typefields(prog, c, wcls)
    if len(fields) < 10: raise AnalysisBroken("%s: type fields %s" % (wcls, fields))
    NOTIN = ("normalize", "toText", "getXmiId", "uimaTypeName2XmiElementName")
    def winl(t, fr): return bool(FILES.search(t.file)) and t.name not in NOTIN and t.cls in (wcls, None) and "operator" not in t.name
    wf = [f for f in prog.fns.values() if f.cls == wcls and f.blocks and f.name == "writeFSFlat"]
    if len(wf) != 1: raise AnalysisBroken("%s: what writes an FS?" % wcls)
    wf = wf[0]; c.fn(wf)
    wg = Graph(prog, wf, inline=winl, depth=4); wL = Loops(wg)
    nogot = [n for n in wg.nodes if n.k == "call" and n.i in wL.live and n.ev[0] and last(n.ev[0]) == "getRangeType"]
    if not nogot: raise AnalysisBroken("%s: no features" % wf.q)
    heads = {wL.innermost(n).head for n in nogot if wL.innermost(n) is not None and n.fr.fn.u == wf.u} or {wL.innermost(n).head for n in nogot if wL.innermost(n) is not None}
    if len(heads) != 1: raise AnalysisBroken("%s: loop over the features" % wf.q)
    floop = next(lp for lp in wL.loops.values() if lp.head in heads)
    it = wL.iteration(floop)
    c.judge(it is not None and it.full(), "all features|%s" % fmt, "%s: not every feature of an FS is written (%s)" % (nogot[0].loc(), it.why() if it is not None else "no counter"), "%s: every appropriate feature" % nogot[0].loc())
    ap = [n for n in wg.nodes if n.k == "call" and n.i in wL.live and n.ev[0] and last(n.ev[0]) == "getAppropriateFeatures"]
    c.judge(bool(ap) and it is not None and all(unconv(n.ev[3][0]) == unconv(it.cont) for n in ap), "appropriate|%s" % fmt, "%s: the features written are not the appropriate ones" % nogot[0].loc())
    ident = uniqueid(prog)
    # ---------------------------------------------------------------- what is written
    def written(own, rng, multi, b, feature):
        """set of the token sequences a present value leads to"""
        o = WO(prog, K, own, rng, multi, fields); o.b = b; o.identity = ident
        outs = {}
        ai = W(wg, o)
        def narrow(n, v, args):
            if v[2] in NEED and v[0] == "v":
                for a in args:
                    w = narrowed(n, a, NEED[v[2]])
                    if w: c.bad("conversion|%s|%s|%s narrowed" % (fmt, v[2], v[1]), "%s: a %s goes through %s, which cannot hold every value, on its way into the text" % (n.loc(), v[2], w))
        def visit(n, env):
            e = None
            if n.k == "call" and n.ev[0]:
                nm = last(n.ev[0])
                if nm == "toText" and n.ev[3]:
                    v = ai.val(n.ev[3][0], env)
                    if isinstance(v, tuple) and v and v[0] == "v": narrow(n, v, (0,))
                    return None
                if nm == "getRangeType" and n.ev[3]:
                    e = dict(env); e[n.ev[3][0]] = rng; e[("in",)] = 1; return e
                if nm == "normalize" and len(n.ev[3]) == 2:
                    v = ai.val(n.ev[3][0], env); e = dict(env)
                    e[n.ev[3][1]] = v[:3] + ("norm",) if isinstance(v, tuple) and v and v[0] == "v" else None
                    return e
                if nm == "setTo" and n.ev[2] is not None:
                    e = dict(env); e.pop(n.ev[2], None); return e
                if nm in ("sprintf", "snprintf"):
                    a = [ai.val(x, env) for x in n.ev[3]]
                    t = [x for x in a if isinstance(x, tuple) and x and x[0] == "v"]
                    fm = [x[1] for x in a if isinstance(x, tuple) and x and x[0] == "lit"]
                    if t and fm: return emit(n, env, t[0][:3] + ("printf " + fm[0].strip('"'),), "", None)
                s = streamed(n)
                if s is not None:
                    v = ai.val(s[0], env)
                    if isinstance(v, tuple) and v and v[0] == "lit":
                        lit = v[1]
                        if lit in ("true", "false", "1", "0"): return emit(n, env, ("v", None, "Boolean", "lit " + lit), "", None)
                        e = dict(env); e[("prev",)] = lit[-2:]; return e
                    if isinstance(v, tuple) and v and v[0] == "v": return emit(n, env, v, s[1], env.get(("prev",)))
                    if isinstance(v, int) and s[1] == "bool": return emit(n, env, ("v", None, "Boolean", "lit %d" % v), "", None)
                    if s[1] and not s[1].startswith(("const char", "char *", "std::basic_ostream", "fn")): 
                        e = dict(env); e[("prev",)] = "?"; return e
            if feature and n.i == floop.head:
                if env.get(("in",)):
                    t = env.get(("tok",), ()); outs.setdefault(t, env.get(("at",)))
                e = dict(env); e.pop(("in",), None); e[("tok",)] = (); return e
            return None
        def emit(n, env, v, ty, prev):
            e = dict(env); t = e.get(("tok",), ())
            narrow(n, v, (len(n.ev[3]) - 1,) if not v[3].startswith("printf") else range(len(n.ev[3])))
            if v[2] == "Boolean" and v[3] == "": v = v[:3] + ("lit %d" % o.b,) if ty == "bool" else v[:3] + ("as " + ty,)
            x = (v[1], v[2], v[3], ty, prev)
            outs.setdefault(("at", x), n)
            if x not in t or not any(lp for lp in [wL.innermost(n)] if lp is not None and lp is not floop and lp.head != floop.head):
                e[("tok",)] = t + (x,) if len(t) < 4 else t
            e[("at",)] = n.loc(); e[("prev",)] = "="
            return e
        init = {}
        for ix, p in enumerate(wf.params):
            if "FeatureStructure" in p["t"]: init[("param", ix, p["n"])] = ("self",)
        ai.init.update(init)
        ends = ai.run(visit)
        if not feature:
            for n, e in ends:
                if n.k == "exit": outs.setdefault(e.get(("tok",), ()), None)
        return outs
    def shape(tok): return {(x[0], x[1]) for x in tok}
    # ---------------------------------------------------------------- what is read
    R = Reader(prog, c, fmt, rcls, K, codes)
    idfns = {}
    refs = Refs(prog, c, fmt, wcls, K, codes, fields)
    for kn, k in sorted(kinds.items()):
        islist = "List" in kn; isarr = "Array" in kn; container = (islist or isarr) and fmt == "XMI"
        for multi in (0, 1):
            base = re.sub(r"Array$|List$", "", re.sub(r"^(E|NE)(?=(Int|Float|String)?List)", "", kn)) if islist or isarr else kn
            base = {"Integer": "Int", "": "FS"}.get(base, base)
            c.count("kind_cases")
            toks = {}; bad = None
            for b in (1, 0) if base == "Boolean" else (1,):
                w = written(OTHER, k, multi, b, True)
                seqs = [t for t in w if not (t and t[0] == "at")]
                at = lambda x: w[("at", x)].loc() if ("at", x) in w else wf.loc()
                if not seqs: raise AnalysisBroken("%s: a feature of kind %s is not followed" % (wf.q, kn))
                for t in seqs:
                    if not t and not container: bad = "a value of range %s is not written on some path" % kn
                    if len(t) > 1 and not container: bad = "a value of range %s is written more than once" % kn
                    for x in t:
                        toks.setdefault(x[:3], (x, at(x)))
                        form(prog, c, fmt, kn, base, x, at(x), b)
                if container and not any(seqs) and not re.match("E(Int|Float|String)?List$", kn): bad = "a value of range %s is not written" % kn
            case = "%s|%s|multi %d" % (fmt, kn, multi)
            where = sorted(a for x, a in toks.values())[0] if toks else wf.loc()
            c.judge(bad is None, "written|" + case, "%s: %s" % (where, bad), "%s: %s, multi %d: written on every path" % (fmt, kn, multi))
            ws = {(x[0] or ("E" if container and not multi else "S"), x[1]) for x in toks}
            rs, rat = R.read(kn, k, multi, element=container and base == "String" and not multi)
            if re.match("E(Int|Float|String)?List$", kn) and not multi and container: ws = rs        # a list without elements
            c.judge(ws == rs, "representation|" + case, "%s: a feature of range %s (multipleReferencesAllowed %s) is written as %s, but read as %s at %s" % (where, kn, bool(multi), fmtset(ws), fmtset(rs), rat),
                    "%s: %s, multi %d: %s both ways" % (fmt, kn, multi, fmtset(ws)))
            for x in toks:
                if x[1] == "FS": idfns.setdefault(x[2], toks[x][1])
            refs.feature(kn, k, multi, ws, where)
        # literals of booleans
    R.booleans(written)
    for kn, k in sorted(kinds.items()):
        if not kn.endswith("Array"): continue
        base = {"": "FS"}.get(kn[:-5], kn[:-5])
        c.count("array_cases")
        allx = {}
        for b in (1, 0) if base == "Boolean" else (1,):
            w = written(k, None, 0, b, False)
            for t in w:
                if t and t[0] == "at": allx[t[1]] = w[t]
            for x, n in [(x, n) for x, n in allx.items() if n is not None]:
                if x[1] == "FS" and x[0] is None: continue
                form(prog, c, fmt, kn, base, x, n.loc(), b)
        ws = {(x[0] or "E", x[1]) for x in allx}
        rs, rat = R.array(kn, k, base)
        where = sorted(n.loc() for n in allx.values())[0] if allx else wf.loc()
        c.judge(ws == rs and bool(ws), "array|%s|%s" % (fmt, kn), "%s: the elements of a %s are written as %s, but read as %s at %s" % (where, kn, fmtset(ws), fmtset(rs), rat), "%s: %s: %s both ways" % (fmt, kn, fmtset(ws)))
        for x in allx:
            if x[1] == "FS": idfns.setdefault(x[2], where)
    loops(prog, c, fmt, wcls, rcls, wg, wL, floop)
    refs.arrays()
    idents(prog, c, fmt, wcls, rcls, idfns, ident, wg, wL)
    traversal(prog, c, fmt, wcls)
    R.routing(kinds)
    if fmt == "XMI": prefixes(prog, c, wcls)
    c.floor("kind_cases", 80)

def fmtset(s):
    return ", ".join(sorted({"S": "value of kind ", "E": "elements of kind "}.get(a, "") + str(b) for a, b in s)).replace("value of kind FS", "ID").replace("elements of kind FS", "IDs of elements").replace("value of kind id", "ID") or "nothing"

def form(prog, c, fmt, kn, base, x, loc, b):
    """how a number or string gets into the text"""
    sh, kind, how, ty, prev = x
    c.count("conversions")
    if kind in NEED and sh is not None:
        if how == "text": ok = "basic_string" in ty or "string" in ty
        elif how.startswith("printf "): ok = kind == "Byte" and bool(re.match(r"printf %0?2h*[xX]$", how)) and fmt == "XMI" and sh == "E"
        elif kind in ("Float", "Double"): ok = False
        else: ok = ty not in ("char", "signed char", "unsigned char", "bool") and WIDTH.get(ty, 0) >= NEED[kind] and ty not in ("float", "double") and not ty.startswith("unsigned")
        if kind == "Byte" and sh == "E" and fmt == "XMI": ok = ok and how.startswith("printf ")
        c.judge(ok, "conversion|%s|%s|%s%s" % (fmt, kn, kind, sh), "%s: a %s goes into the text as %s, which does not tell all its values apart" % (loc, kind, how or ty or "?"))
    elif kind == "String" and sh is not None:
        ok = how == "norm" and (sh == "S" or fmt == "XCAS" or (prev or "").endswith(">"))
        c.judge(ok, "string form|%s|%s|%s" % (fmt, kn, sh), "%s: a string %s" % (loc, "is put into the text without normalize()" if how != "norm" else "element is not an XML element of its own"))

def widths(f, i, seen=None):
    """the arithmetic types a value has had on its way to node i (conversions and local variables), and the calls it comes from"""
    seen = set() if seen is None else seen
    out = []
    while True:
        if i in seen: return out
        seen.add(i)
        n = f.nodes[i]
        t = n.get("t", "").replace("const ", "").strip()
        if n["k"] == "cast":
            if t in WIDTH: out.append((t, i))
            i = n["s"]; continue
        if n["k"] == "ref" and n.get("d") in ("local",):
            if t in WIDTH: out.append((t, i))
            for at, d in f.ldefs()[0].get(n.get("id"), ()):
                if d is not None: out += widths(f, d, seen)
            return out
        return out

def narrowed(n, arg, need):
    """a conversion between the value's origin and argument number arg of the call n that cannot hold `need` bits"""
    f = n.fr.fn
    if n.nid is None: return None
    a = f.nodes[n.nid].get("a") or []
    if arg >= len(a): return None
    for t, i in widths(f, a[arg]):
        if t != "bool" and WIDTH[t] < need: return "%s at %s" % (t, f.loc(i))
    return None

def uniqueid(prog):
    f = prog.fn("uima::lowlevel::FSHeap::getUniqueID")
    g = Graph(prog, f)
    rets = [n.ev[0] for n in g.nodes if n.k == "ret"]
    return bool(rets) and all(unconv(r)[0] == "param" for r in rets)

# ------------------------------------------------------------------ the reader
class RI(KAI):
    _l = None
    def lists(self):
        """vectors of strings: what the text was split into"""
        if self._l is None:
            self._l = {n.ev[2] for n in self.g.nodes if n.k == "call" and n.ev[0] and re.match(r"std::vector<(std::basic_string<char>|icu_\d+::UnicodeString)", n.ev[0]) and n.ev[2] is not None}
        return self._l
    _c = None
    def cursors(self):
        """iterators over such vectors"""
        if self._c is None:
            self._c = set()
            for n in self.g.nodes:
                if n.k == "set" and n.ev[0] is not None and n.ev[0][0] == "var" and n.ev[2] is not None:
                    v = unconv(n.ev[2])
                    if v is not None and v[0] == "call" and last(v[1] or "") in ("begin", "cbegin") and v[2] in self.lists(): self._c.add(n.ev[0])
        return self._c
    def val(self, f, env):
        if f is None: return None
        if f[0] == "var" and f in self.cursors(): return TEXT
        if f in env: return env[f]
        if f[0] == "str": return ("lit", f[1])
        if f[0] == "conv": return self.val(f[-1], env)
        if f[0] == "ctor" and f[2]:
            v = self.val(f[2][0], env)
            if v is not None: return v
        if f[0] == "idx":
            v = env.get(("idx", f[1], ("int", 0)))
            if v is not None and f[2] == ("int", 0): return v
            if f[1] in self.lists(): return TEXT
        return KAI.val(self, f, env)

class RO:
    """reader side: the text is TEXT (or a literal), what is parsed from it ('n', width, signed, how)"""
    found = True
    def __init__(self, prog, kinds, rng, multi, text=TEXT): self.prog = prog; self.kinds = kinds; self.rng = rng; self.multi = multi; self.text = text
    def cmp(self, op, a, b):
        if "FEAT" in (a, b) and op in ("==", "!="): return op == "!="
        return None
    def leaf(self, f):
        if f[0] in ("g", "enum"):
            v = self.prog.gcv.get(f[1]) if f[0] == "g" else f[2]
            return v if isinstance(v, int) else None
        return None
    def istext(self, v): return v == TEXT or isinstance(v, tuple) and v and v[0] == "lit"
    def call(self, f, args, rec):
        q = f[1] or ""; nm = last(q)
        o = rec(f[2]) if f[2] is not None else None
        if nm in PARSE:
            if args and self.istext(args[0]): return ("n",) + PARSE[nm]
            if nm.startswith("strto") and args: return ("n",) + PARSE[nm][:1] + (("hex",) if len(args) > 2 and args[2] == 16 else PARSE[nm][1:])
            return None
        if nm in ("compare", "operator==", "operator!=", "strcmp", "caseCompare"):
            xs = ([o] if f[2] is not None else []) + args
            xs = [x for x in xs if x is not None]
            if len(xs) == 2 and all(isinstance(x, tuple) and x[0] == "lit" for x in xs):
                eq = xs[0][1].strip('"') == xs[1][1].strip('"')
                return {"operator==": int(eq), "operator!=": int(not eq)}.get(nm, 0 if eq else 1)
            return None
        if nm in ("length", "size") and self.istext(o): return 4 if o == TEXT else len(o[1])
        if nm in ("isEmpty", "empty") and self.istext(o): return 0 if o == TEXT else int(not o[1])
        if nm in ("addString", "getStringAsFS") and args and self.istext(args[0]): return args[0]
        if nm in ("c_str", "asUTF8", "data", "getBuffer", "str", "fromUTF8", "at", "operator[]", "substr", "UnicodeStringRef", "basic_string", "UnicodeString", "trim", "operator*", "operator->", "getTerminatedBuffer"):
            if f[2] is not None and self.istext(o): return o
            for x in args:
                if self.istext(x): return x
            if nm in ("at", "operator[]", "operator*") and "std::vector<std::basic_string<char>" in q: return TEXT
            return None
        if nm in ("demoteType", "promoteType", "Type", "demoteFeature", "promoteFeature") and args: return args[0]
        if nm in ("getFeatureByBaseName", "getFeature"): return "FEAT"
        if nm in ("isValid",): return 1
        if nm == "isMultipleReferencesAllowed": return self.multi
        if nm == "isStringSubType" and isinstance(o, int): return int(o == STRSUB)
        if nm == "subsumes": return 0
        if nm == "isPrimitive" and args and args[0] == STRSUB: return 1
        if nm == "FeatureStructure" and args: return args[0]
        if nm.startswith("is") and len(args) == 1 and isinstance(args[0], int) and q in self.prog.byq: return self.kinds.ask(q, args[0])
        return None
    def throws(self, n): return False

PARSE = {"atoi": (32, ""), "atol": (64, ""), "atoll": (64, ""), "atof": (53, "fp"), "strtol": (64, ""), "strtoul": (64, ""), "strtoll": (64, ""), "strtod": (53, "fp"), "strtof": (24, "fp"),
         "stoi": (32, ""), "stol": (64, ""), "stoll": (64, ""), "stod": (53, "fp"), "stof": (24, "fp")}

class Reader:
    def __init__(self, prog, c, fmt, cls, K, codes):
        self.prog, self.c, self.fmt, self.cls, self.K, self.codes = prog, c, fmt, cls, K, codes
        fs = [f for f in prog.fns.values() if f.cls == cls and f.blocks and f.name == "handleFeature"]
        self.attr = [f for f in fs if any("UnicodeString" in p["t"] for p in f.params) and not any("vector" in p["t"] for p in f.params) and any(re.search(r"uima::Type &|Type &$", p["t"]) for p in f.params)]
        self.elem = [f for f in fs if any("vector" in p["t"] for p in f.params) and any(re.search(r"TyFSType$", p.get("ts", "")) for p in f.params)]
        if len(self.attr) != 1 or (fmt == "XMI" and len(self.elem) != 1): raise AnalysisBroken("%s: feature readers" % cls)
        def inl(t, fr): return FILES.search(t.file) and t.cls in (cls, None) and "throw" not in t.name
        self.ga = Graph(prog, self.attr[0], inline=inl, depth=5)
        self.ge = Graph(prog, self.elem[0], inline=inl, depth=5) if self.elem else None
        ar = [f for f in prog.fns.values() if f.cls == cls and f.blocks and f.name == "addArrayElement"]
        if len(ar) != 1: raise AnalysisBroken("%s: array reader" % cls)
        self.gr = Graph(prog, ar[0], inline=inl, depth=3)
        self.hex = None
        if fmt == "XMI":
            f = prog.fn(cls + "::createByteArray"); self.hex = Graph(prog, f, inline=inl, depth=3); c.fn(f)
        for f in [self.attr[0], ar[0]] + self.elem: c.fn(f)
    def run(self, g, k, multi, text=TEXT, case=None):
        """-> {(shape, kind): loc}, all paths store?, {value a boolean gets}"""
        prog = self.prog
        o = RO(prog, self.K, k, multi, text)
        init = {}
        for ix, p in enumerate(g.root.params):
            t, ts = p["t"], p.get("ts", p["t"])
            if "vector" in t: continue
            if "UnicodeString" in t and p["n"] != "featName" or "basic_string" in t or "std::string" in t: init[("param", ix, p["n"])] = text
            elif re.search(r"TyFSFeature", ts): init[("param", ix, p["n"])] = "FEAT"
            elif re.search(r"TyFSType", ts): init[("param", ix, p["n"])] = k
        if case is not None: init[case] = k
        ai = RI(g, o, init); out = {}; bools = set()
        def visit(n, env):
            if n.k == "set":
                if n.ev[1] == "=" and n.ev[0] is not None and n.ev[0][0] in ("idx", "deref") and n.ev[2] is not None:
                    v = ai.val(n.ev[2], env)
                    if v is not None and o.istext(v) and any(isinstance(y, tuple) and y and y[0] == "call" and last(y[1]) == "getCArrayFromFS" for y in subforms(n.ev[0])):
                        out.setdefault(("E", "String"), n.loc()); e = dict(env); e[("stored",)] = 1; return e
                return None
            if n.k != "call" or not n.ev[0]: return None
            q = n.ev[0]; nm = last(q); cls = q.rsplit("::", 1)[0]; a = n.ev[3]
            def store(sh, kind, v):
                out.setdefault((sh, kind), n.loc())
                self.parsed(g, n, sh, kind, v, k)
                if kind == "Boolean": bools.add(v)
                e = dict(env); e[("stored",)] = 1; return e
            if nm == "getRangeType" and a:
                e = dict(env); e[a[0]] = k; return e
            if nm == "operator>>" :
                ps = split_params(n.ev[1][n.ev[1].rindex("operator>>"):])
                tgt = a[0] if n.ev[2] is not None else a[1] if len(a) == 2 else None
                ty = ps[-1] if ps else ""
                e = dict(env)
                if tgt is not None: e[tgt] = ("n", WIDTH.get(ty, 0), "fp" if ty in ("float", "double") else "char" if "char" in ty else "")
                return e
            if nm in ("sprintf", "snprintf"):
                vs = [ai.val(x, env) for x in a]
                if ("lit", "%c") in vs or ("lit", '"%c"') in vs:
                    e = dict(env); v = [x for x in vs if isinstance(x, tuple) and x and x[0] == "n"]
                    e[("idx", a[0], ("int", 0))] = v[0] if v else None; return e
                return None
            m = re.match(r"set(\w+)Value$", nm)
            if m and cls == "uima::FeatureStructure" and len(a) == 2:
                return store("S", m.group(1), ai.val(a[1], env))
            if nm == "setFeatureInternal" and len(a) == 3:
                fc = ai.val(a[1], env); v = ai.val(a[2], env)
                if fc == "FEAT": return store("S", "FS", v)
                if fc == prog.gcv.get("uima::internal::gs_tyHeadFeature"): return store("E", "FS", v)
                return None
            if nm in ("setArrayElement", "setHeapValue", "setElement") and a and ai.val(a[-1], env) is not None and o.istext(ai.val(a[-1], env)): return store("E", "String", ai.val(a[-1], env))
            if nm == "set" and len(a) == 2 and kindof(prog, cls): return store("E", kindof(prog, cls), ai.val(a[1], env))
            if nm in ("addLast", "addFirst") and kindof(prog, cls) and a: return store("E", kindof(prog, cls), ai.val(a[-1], env))
            return None
        ends = ai.run(visit)
        allst = all(e.get(("stored",)) for n, e in ends if n.k == "exit")
        return out, allst, bools
    def parsed(self, g, n, sh, kind, v, k):
        c = self.c
        if kind in NEED or kind == "FS":
            need = NEED.get(kind, 32)
            for a in range(len(n.ev[3])):
                w = narrowed(n, a, need) if a == len(n.ev[3]) - 1 else None
                if w: c.bad("parse|%s|%s|%s narrowed" % (self.fmt, kind, sh), "%s: a %s goes through %s, which cannot hold every value, before it is stored" % (n.loc(), kind, w))
            ok = isinstance(v, tuple) and v and v[0] == "n" and v[1] >= need and (v[2] == "fp") == (kind in ("Float", "Double")) and v[2] != "char"
            c.count("conversions")
            c.judge(ok, "parse|%s|%s|%s" % (self.fmt, kind, sh), "%s: a %s is read by a conversion that does not give every value back%s" % (n.loc(), "reference's ID" if kind == "FS" else kind, "" if v is None else " (%s)" % (v,)))
        elif kind == "String":
            c.count("conversions")
            c.judge(v is not None and v[0] in ("txt", "lit"), "parse|%s|String|%s" % (self.fmt, sh), "%s: a string feature does not get the text" % n.loc())
    def read(self, kn, k, multi, element=False):
        g = self.ge if element else self.ga
        out, allst, bools = self.run(g, k, multi)
        if kn in ("Integer",) : allst = allst or bool(out)
        if kn in ("String", "(string subtype)"):
            o2, all2, b2 = self.run(g, k, multi, ("lit", ""))
            self.c.judge(all2 and bool(o2), "empty string|%s|%s|%d" % (self.fmt, kn, multi), "%s: an empty string is not stored: it comes back as null" % (sorted(out.values())[0] if out else g.root.loc()), "%s reader: %s, empty text stored" % (self.fmt, kn))
        if not re.search("Array|List", kn) or multi or self.fmt == "XCAS":
            self.c.judge(allst and bool(out), "stored|%s|%s|%d" % (self.fmt, kn, multi), "%s: a feature of range %s is not stored on some path of the reader" % (sorted(out.values())[0] if out else g.root.loc(), kn),
                     "%s reader: %s stored on every path" % (self.fmt, kn))
        return {(s, x) for s, x in out}, (sorted(out.values()) or [g.root.loc()])[0]
    def array(self, kn, k, base):
        if base == "Byte" and self.hex is not None: out, allst, bools = self.run(self.hex, k, 0)
        else:
            case = None
            for n in self.gr.nodes:
                for t, l in n.succ:
                    if l is not None and l[0] == "case" and any(x in self.codes.values() for x in l[2]): case = l[1]
            out, allst, bools = self.run(self.gr, k, 0, case=case)
        return {(s, x) for s, x in out}, (sorted(out.values()) or [self.gr.root.loc()])[0]
    def booleans(self, written):
        """the literal of each truth value is read as that value"""
        c, codes = self.c, self.codes
        for what, feature in (("Boolean", True), ("BooleanArray", False)):
            for b in (1, 0):
                w = written(OTHER if feature else codes["gs_tyBooleanArrayType"], codes["gs_tyBooleanType"] if feature else None, 0, b, feature)
                lits = {t[1][2]: n for t, n in w.items() if t and t[0] == "at" and t[1][1] == "Boolean"}
                if not lits: raise AnalysisBroken("%s: how is a boolean written?" % self.fmt)
                for l, n in sorted(lits.items()):
                    c.count("booleans")
                    loc = n.loc() if n is not None else "?"
                    if not l.startswith("lit "): c.bad("boolean|%s|%s|%d" % (self.fmt, what, b), "%s: a boolean is written as %s" % (loc, l)); continue
                    if feature: out, allst, bools = self.run(self.ga, codes["gs_tyBooleanType"], 0, ("lit", l[4:]))
                    else:
                        case = [x[1] for m in self.gr.nodes for t, x in m.succ if x is not None and x[0] == "case" and any(y in codes.values() for y in x[2])]
                        out, allst, bools = self.run(self.gr, codes["gs_tyBooleanArrayType"], 0, ("lit", l[4:]), case[0] if case else None)
                    c.judge(bools == {b}, "boolean|%s|%s|%d" % (self.fmt, what, b), "%s: %s is written as '%s', which the reader takes for %s" % (loc, bool(b), l[4:], sorted(bools, key=str)), "%s %s: %s is '%s' both ways" % (self.fmt, what, bool(b), l[4:]))
        c.floor("booleans", 4)
    def routing(self, kinds):
        """every array type of the document is made by exactly one of the array creators, the one its text form asks for"""
        if self.fmt != "XMI": return
        prog, c = self.prog, self.c
        made = {}
        for q in ("readFS", "endElement"):
            for f in prog.byq.get(self.cls + "::" + q, []):
                if not f.blocks or (q == "readFS" and len(f.params) != 4): continue
                c.fn(f)
                g = Graph(prog, f)
                names = [n for n in g.nodes if n.k == "call" and n.ev[0] in (self.cls + "::createArray", self.cls + "::createByteArray")]
                if not names: continue
                for kn, k in kinds.items():
                    if not kn.endswith("Array"): continue
                    me = self
                    class O(RO):
                        def leaf(s, fm):
                            if fm[0] == "f" and "Type" in str(fm[2]).rsplit("::", 1)[-1] and "current" in str(fm[2]): return k
                            return RO.leaf(s, fm)
                        def call(s, fm, args, rec):
                            if last(fm[1] or "") == "getType" and args: return k
                            return RO.call(s, fm, args, rec)
                    ai = RI(g, O(prog, self.K, k, 0))
                    ai.o.text = None
                    def visit(n, env):
                        if n in names: made.setdefault(kn, {}).setdefault(last(n.ev[0]), n.loc())
                    ai.run(visit)
        if not made: raise AnalysisBroken("%s: nothing creates arrays" % self.cls)
        for kn in sorted(k for k in kinds if k.endswith("Array")):
            want = "createByteArray" if kn == "ByteArray" else "createArray"
            c.count("array_routes")
            c.judge(set(made.get(kn, ())) == {want}, "route|XMI|%s" % kn, "%s: a %s element is made by %s, its text form is that of %s" % (sorted(made.get(kn, {"": "?"}).values())[0], kn, sorted(made.get(kn, ())), want), "XMI: %s made by %s" % (kn, want))

# ------------------------------------------------------------------ what is referred to is written
class Refs:
    def __init__(self, prog, c, fmt, cls, K, codes, fields):
        self.prog, self.c, self.fmt, self.cls, self.K, self.codes, self.fields = prog, c, fmt, cls, K, codes, fields
        fs = [f for f in prog.fns.values() if f.cls == cls and f.blocks and f.name == "findReferencedFSs"]
        if len(fs) != 1: raise AnalysisBroken("%s: what finds references?" % cls)
        self.f = fs[0]; c.fn(self.f)
        self.g = Graph(prog, self.f, inline=lambda t, fr: t.cls == cls and t.name not in ("findReferencedFSs", "enqueueUnindexed", "enqueueIndexed", "normalize"), depth=3)
        self.L = Loops(self.g)
        self.loop = None
        rng = [n for n in self.g.nodes if n.k == "call" and n.i in self.L.live and n.ev[0] and last(n.ev[0]) == "getRangeType"]
        for n in rng:
            if n.fr.fn.u == self.f.u: self.loop = self.L.innermost(n)
        if self.loop is None: raise AnalysisBroken("%s: loop over the features" % self.f.q)
        it = self.L.iteration(self.loop)
        c.judge(it.full(), "all features followed|%s" % fmt, "%s: not every feature is followed (%s)" % (rng[0].loc(), it.why()), "%s: references of every feature" % rng[0].loc())
        self.memo = {}
    def found(self, own, rng, multi):
        key = (own, rng, multi)
        if key in self.memo: return self.memo[key]
        o = WO(self.prog, self.K, own, rng, multi, self.fields)
        class O(WO):
            def call(s, f, args, rec):
                if last(f[1] or "") == "enqueueUnindexed": return 1          # seen for the first time
                return WO.call(s, f, args, rec)
            def leaf(s, f):
                if f[0] == "param" and f[2] == "check": return None
                return WO.leaf(s, f)
        o.__class__ = O
        ai = W(self.g, o, {("param", ix, p["n"]): ("self",) for ix, p in enumerate(self.f.params) if "FeatureStructure" in p["t"]})
        out, any_ = [], set()
        inloops = {i for lp in self.L.loops.values() if lp.head != self.loop.head for i in lp.body if lp.body < self.loop.body or self.loop.head not in lp.body}
        def visit(n, env):
            if n.k == "call" and n.ev[0]:
                nm = last(n.ev[0])
                if nm == "getRangeType" and n.ev[3]:
                    e = dict(env); e[n.ev[3][0]] = rng; e[("in",)] = 1; return e
                if n.ev[0] == self.cls + "::findReferencedFSs" and n.ev[3]:
                    v = ai.val(n.ev[3][0], env)
                    chk = ai.val(n.ev[3][1], env) if len(n.ev[3]) > 1 else None
                    dflt = len(n.ev[3]) > 1 and n.ev[3][1][0] in ("dflt", "defarg")
                    if isinstance(v, tuple) and v and v[0] == "v" and chk != 0:
                        any_.add(v[1:3])
                        e = dict(env); e[("got",)] = frozenset(e.get(("got",), frozenset()) | {v[1:3]}); return e
            if n.i == self.loop.head:
                if env.get(("in",)): out.append(env.get(("got",), frozenset()))
                e = dict(env); e.pop(("in",), None); e.pop(("got",), None); return e
        ai.run(visit)
        self.memo[key] = (out, any_)
        return self.memo[key]
    def feature(self, kn, k, multi, ws, where):
        if not any(x[1] == "FS" for x in ws): return
        out, any_ = self.found(OTHER, k, multi)
        if not out: raise AnalysisBroken("%s: a feature of kind %s is not followed" % (self.f.q, kn))
        self.c.count("reference_cases")
        if ("S", "FS") in ws: ok = all(("S", "FS") in s for s in out)
        else: ok = all(("S", "FS") in s for s in out) or ("E", "FS") in any_          # the elements of a list: as long as there are any
        self.c.judge(ok, "enqueued|%s|%s|%d" % (self.fmt, kn, multi), "%s: what a feature of range %s (multipleReferencesAllowed %s) refers to is written as ID at %s, but not itself enqueued" % (self.f.loc(), kn, bool(multi), where),
                     "%s: %s, multi %d: what the ID stands for is written" % (self.fmt, kn, multi))
    def arrays(self):
        out, any_ = self.found(self.codes["gs_tyFSArrayType"], None, 0)
        self.c.judge(("E", "FS") in any_, "enqueued|%s|FSArray elements" % self.fmt, "%s: the elements of an FSArray are not enqueued" % self.f.loc(), "%s: elements of an FSArray are followed" % self.fmt)
        for lp in self.L.loops.values():
            el = [n for n in self.g.nodes if n.i in lp.body and n.i in self.L.live and n.k == "call" and n.ev[0] and last(n.ev[0]) == "get" and kindof(self.prog, n.ev[0].rsplit("::", 1)[0]) and self.L.innermost(n) is lp]
            if not el: continue
            self.c.judge(elements(self.prog, self.L, lp, el), "every element followed|%s" % self.fmt, "%s: not every element of an array is followed" % el[0].loc())
        self.c.floor("reference_cases", 10)
        enq(self.prog, self.c, self.fmt, self.cls)

def enq(prog, c, fmt, cls):
    """enqueueing: an FS not in the queue before is there afterwards, and only then 'new' is reported; the index an FS is in is noted"""
    for nm in ("enqueueUnindexed", "enqueueIndexed"):
        for f in prog.byq.get("%s::%s" % (cls, nm), []):
            if not f.blocks: continue
            c.fn(f); g = Graph(prog, f); L = Loops(g); c.count("enqueuers")
            sets = [n for n in g.nodes if n.k == "set" and n.i in L.live and n.ev[0] is not None and n.ev[0][0] == "idx" and n.ev[0][1][0] == "f"]
            key = {n.ev[0] for n in sets}
            def known(facts): return any(holds_eq(facts, k, ("int", 0), prog, False) for k in key) or any(holds_eq(facts, y, ("int", 0), prog, False) for fa in facts for y in fact_forms(fa) if isinstance(y, tuple) and y)
            r = explore(g, ustate=0, step=lambda n, facts, us: [(facts, us | (1 if n in sets else 0) | (2 if n.k == "call" and n.ev[0] and last(n.ev[0]) == "push_back" else 0) | (4 if n.k == "call" and n.ev[0] and last(n.ev[0]) == "findReferencedFSs" else 0) | (8 if known(facts) else 0))])
            ok = bool(sets); why = "nothing is entered"
            for n in g.nodes:
                if n.k != "ret" or n.ev[0] is None: continue
                v = num(prog, n.ev[0])
                for facts, us in r.at.get(n.i, ()):
                    present = any(fa[0] in ("nb", "ne", "le", "eq") for fa in facts)
                    old = us & 8 or known(facts)
                    if v == 1 and not us & 1: ok = False; why = "an FS is reported as new without being entered"
                    if v == 0 and not us & 1 and not old: ok = False; why = "an FS that is not in the queue is taken for known"
                    if nm == "enqueueIndexed":
                        noted = us & 2
                        same = any(fa[0] == "eq" or any(isinstance(y, tuple) and y and y[0] == "call" and (last(y[1]) in ("back", "rbegin") or any(contains(a, ("param", 1, f.params[1]["n"])) for a in y[3])) for x in fact_forms(fa) if isinstance(x, tuple) and x for y in subforms(x)) for fa in facts)
                        if not noted and not same: ok = False; why = "the index is not noted"
                        if v == 1 and not us & 4: ok = False; why = "the references of a new FS are not followed"
            c.judge(ok, "enqueue|%s|%s" % (cls, f.u[-30:]), "%s: %s" % (f.loc(), why), "%s: entered when new" % f.loc())
    c.floor("enqueuers", 2)

def elements(prog, L, lp, el):
    """for (i = 0; i < size; i++) with get(i), in order, no early end"""
    it = L.iteration(lp)
    return it is not None and it.var is not None and it.full() and all(unconv(n.ev[3][0]) == unconv(it.var) for n in el if n.ev[3])

def loops(prog, c, fmt, wcls, rcls, wg, wL, floop):
    """every element of an array or list goes into the text, and every piece of text into the array or list"""
    for lp in wL.loops.values():
        el = [n for n in wg.nodes if n.i in lp.body and n.i in wL.live and n.k == "call" and n.ev[0] and wL.innermost(n) is lp]
        got = [n for n in el if last(n.ev[0]) in ("get", "getHead") and kindof(prog, n.ev[0].rsplit("::", 1)[0])]
        if not got: continue
        c.count("element_loops")
        puts = [n.i for n in wg.nodes if n.i in lp.body and (streamed(n) and (streamed(n)[0][0] != "str" or streamed(n)[0][1].strip('"') in ("true", "false", "1", "0")) and streamed(n)[0][0] != "param" or n.k == "call" and n.ev[0] and last(n.ev[0]) in ("sprintf",))]
        c.judge(bool(puts) and not wL.cycle_avoids(lp, puts), "element written|%s|%s" % (fmt, got[0].ev[0][:60]), "%s: an element can be left out of the text" % got[0].loc(), "%s: every pass writes" % got[0].loc())
        if last(got[0].ev[0]) == "get":
            c.judge(elements(prog, wL, lp, got), "all elements written|%s|%s" % (fmt, got[0].ev[0][:60]), "%s: not every element of the array is written, in order (%s)" % (got[0].loc(), wL.iteration(lp).why()), "%s: all elements in order" % got[0].loc())
        else:
            lst = got[0].ev[2]
            nxt = [n.i for n in wg.nodes if n.i in lp.body and n.k in ("set", "call") and any(isinstance(y, tuple) and y and y[0] == "call" and last(y[1]) == "getTail" and y[2] == lst for e in n.ev if isinstance(e, (tuple, list)) for y in (subforms(e) if isinstance(e, tuple) and e and isinstance(e[0], str) else [z for w in e if isinstance(w, tuple) for z in subforms(w)]))]
            ok = bool(nxt) and not wL.cycle_avoids(lp, nxt)
            for n, t, l in wL.exits(lp):
                if wL.throws(t.i): continue
                x = exitcond(l)
                if x is None: ok = False; continue
                empty = any(isinstance(y, tuple) and y and y[0] == "call" and last(y[1]) in ("isEmpty", "isValid") for y in subforms(x))
                seen = any(isinstance(y, tuple) and y and y[0] in ("idx",) for y in subforms(x)) or any(isinstance(y, tuple) and y and y[0] == "call" and last(y[1]) in ("find", "count", "operator[]", "insert") for y in subforms(x))
                ok = ok and (empty or seen)
            c.judge(ok, "all elements written|%s|list %s" % (fmt, kindof(prog, got[0].ev[0].rsplit("::", 1)[0])), "%s: the list is not written to its end" % got[0].loc(), "%s: from head to the empty tail, or to the first node seen before" % got[0].loc())
    c.floor("element_loops", 8)
    # reader: the strings an array or list is made of
    for f in sorted((f for f in prog.fns.values() if f.cls == rcls and f.blocks and re.match(r"create(Array|ByteArray|\w*List)$", f.name)), key=lambda f: f.u):
        g = Graph(prog, f); L = Loops(g); c.fn(f)
        for lp in L.loops.values():
            puts = [n for n in g.nodes if n.i in lp.body and n.k == "call" and n.ev[0] and last(n.ev[0]) in ("addArrayElement", "addLast", "addFirst", "set", "setFeatureInternal") and L.innermost(n) is lp]
            if not puts: continue
            c.count("reader_loops")
            it = L.iteration(lp)
            made = [y[3][0] for n in g.nodes if n.k == "call" and n.i in L.live and n.ev[0] and re.match("create\\w*ArrayFS$", last(n.ev[0])) for y in [("call", n.ev[0], n.ev[2], n.ev[3])] if y[3]]
            ok = it.full() or descending(prog, L, lp) or counted(prog, L, lp, lambda op, b: op == ">=" and any(unconv(m) == b for m in made))
            why = it.why()
            if it.full():
                for n in puts:
                    if last(n.ev[0]) == "addFirst": ok = False; why = "in reverse order"
                    if last(n.ev[0]) in ("addArrayElement", "set"):
                        ix = n.ev[3][2] if last(n.ev[0]) == "addArrayElement" else n.ev[3][0]
                        if unconv(ix) != unconv(it.var): ok = False; why = "not at the same position"
            if last(puts[0].ev[0]) != "set" and L.cycle_avoids(lp, [n.i for n in puts]): ok = False; why = "an element may be skipped"
            c.judge(ok, "all elements read|%s" % f.q, "%s: not every element of the text becomes an element, in order (%s)" % (puts[0].loc(), why), "%s: all elements of the text" % puts[0].loc())

def descending(prog, L, lp):
    """for (i = size; i > 0; i--) ... at(i - 1)"""
    g = L.g
    ex = [(n, exitcond(l)) for n, t, l in L.exits(lp) if not L.throws(t.i)]
    if len(ex) != 1 or ex[0][1] is None or ex[0][1][0] != "cmp": return False
    x = ex[0][1]; a, b = unconv(x[2]), unconv(x[3])
    if b != ("int", 0) or a[0] != "var" or x[1] not in ("<=", "=="): return False
    ins = [m for m in g.nodes if m.k == "set" and m.ev[0] == a and m.i in L.live]
    steps = [m.i for m in ins if m.i in lp.body]
    if any(m.ev[1] not in ("--",) and not (m.ev[1] == "-=" and m.ev[2] == ("int", 1)) for m in ins if m.i in lp.body) or not steps or L.cycle_avoids(lp, steps): return False
    starts = [m for m in ins if m.i not in lp.body]
    if not starts or any(unconv(m.ev[2])[0] != "call" or last(unconv(m.ev[2])[1]) != "size" for m in starts): return False
    for n in g.nodes:
        if n.i in lp.body:
            for e in n.ev or ():
                for y in (subforms(e) if isinstance(e, tuple) and e and isinstance(e[0], str) else [z for w in e if isinstance(w, tuple) for z in subforms(w)] if isinstance(e, (tuple, list)) else ()):
                    if isinstance(y, tuple) and y and y[0] == "idx" and contains(y[2], a):
                        before = L.path(L.succs(lp.head), [n.i], steps, within=lp.body) or n.i == lp.head
                        after = any(L.path(L.succs(s), [n.i], [lp.head], within=lp.body) for s in steps)
                        if before and after or lin(ul(("op", "-", y[2], a))) != ({}, -1 if before else 0): return False
    return True

def idents(prog, c, fmt, wcls, rcls, idfns, ident, wg, wL):
    """the own ID of an FS, references to it and view members come from the same function of its address"""
    c.judge(len(idfns) == 1, "one id|%s" % fmt, "%s: references are written as different kinds of ID: %s" % (sorted(idfns.values())[0], sorted(idfns)), "%s: one kind of ID for all references" % fmt)
    o = WO(prog, None, None, None, 0, {}); o.identity = ident
    how = {k if k else "address" for k in idfns}
    for g, what in [(wg, "own ID")] + [(Graph(prog, f, inline=lambda t, fr: t.cls == wcls and t.name == "writeView"), "view member") for f in prog.fns.values() if f.cls == wcls and f.blocks and f.name == "writeViews"]:
        L = Loops(g); n0 = 0; prev = None
        for n in g.nodes:
            s = streamed(n)
            if s is None or n.i not in L.live: continue
            for y in subforms(s[0]):
                if isinstance(y, tuple) and y and y[0] == "call" and last(y[1]) in ("getXmiId", "getUniqueID") and y[3]:
                    w = "id " + last(y[1]) if last(y[1]) == "getXmiId" or not ident else "address"
                    n0 += 1; c.count("ids_written")
                    c.judge(w in how, "one id|%s|%s" % (fmt, what), "%s: the ID written here is %s, references are written as %s" % (n.loc(), w, sorted(how)), "%s: same ID as references (%s)" % (n.loc(), w))
        if what == "view member": members(prog, c, fmt, g, L)
        if what == "own ID" and not n0 and not any(isinstance(y, tuple) and y and y[0] == "call" and last(y[1]) == "getXmiId" for n in wg.nodes if n.k == "set" and n.ev[2] is not None for y in subforms(n.ev[2])): raise AnalysisBroken("%s: no ID of its own" % fmt)

def members(prog, c, fmt, g, L):
    """what a view lists as its members: the IDs of all indexed FSs"""
    vecs = {n.ev[3][0] for n in g.nodes if n.k == "call" and n.i in L.live and n.ev[0] and last(n.ev[0]) == "getIndexedFSs" and n.ev[3]}
    if not vecs: raise AnalysisBroken("%s: where do the members of a view come from?" % fmt)
    done = 0
    for n in g.nodes:
        s = streamed(n)
        if s is None or n.i not in L.live or s[1] not in WIDTH: continue
        for v in values(g, s[0]):
            def addr(y): return isinstance(y, tuple) and y and (y in vecs or y[0] == "call" and last(y[1]) == "demoteFS")
            wrapped = [y for y in subforms(v) if isinstance(y, tuple) and y and y[0] == "call" and last(y[1]) in ("getXmiId", "getUniqueID")]
            if any(addr(y) for w in wrapped for y in subforms(w)): done += 1; continue
            c.judge(not any(addr(y) for y in subforms(v)), "one id|%s|address" % fmt, "%s: an FS' heap address is written where the document has its ID" % n.loc())
    c.judge(done > 0, "members|%s" % fmt, "%s: the IDs of a view's members are not written" % g.root.loc(), "%s: members written by their ID" % g.root.loc())

def traversal(prog, c, fmt, wcls):
    """write(): every view, every index and its FSs, every unindexed FS, then every enqueued FS"""
    f = [f for f in prog.byq.get(wcls + "::write", []) if f.blocks]
    if len(f) != 1: raise AnalysisBroken("%s::write" % wcls)
    f = f[0]; c.fn(f)
    g = Graph(prog, f); L = Loops(g)
    for lp in sorted(L.loops.values(), key=lambda l: l.head):
        it = L.iteration(lp)
        ns = [n for n in g.nodes if n.i in lp.body and n.i in L.live and n.k == "call" and n.ev[0] and last(n.ev[0]) in ("enqueueIndexed", "writeFSFlat")]
        if not ns: continue
        c.count("write_loops")
        if it.kind == "iter": why = protocol(L, it)
        elif it.kind in ("it", "ix"): why = None if it.full() else it.why()
        else: why = None if counted(prog, L, lp, lambda op, b: op == ">" and b[0] == "call" and last(b[1]) == "getNumViews") else "not all views, the base view included"
        c.judge(why is None, "write|%s|%s" % (wcls, it.kind or "views"), "%s: not everything is written: %s" % (ns[0].loc(), why), "%s: loop over %s is complete" % (ns[0].loc(), show(it.cont) if it.cont else it.kind or "views"))
        if not any(l2 is not lp and l2.body < lp.body and any(n.i in l2.body for n in ns) for l2 in L.loops.values()):
            c.judge(not L.cycle_avoids(lp, [n.i for n in ns]), "skipped|%s|%s" % (wcls, last(ns[0].ev[0])), "%s: an FS can be left out" % ns[0].loc(), "%s: every FS" % ns[0].loc())
    enqs = {n.ev[3][0] for n in g.nodes if n.k == "call" and n.i in L.live and n.ev[0] and last(n.ev[0]) == "enqueueIndexed"}
    c.floor("write_loops", 5)
    for f in [f for f in prog.fns.values() if f.cls == wcls and f.blocks and f.name in ("writeViews", "writeView")]:
        g = Graph(prog, f); L = Loops(g); c.fn(f)
        for lp in L.loops.values():
            it = L.iteration(lp)
            c.count("view_loops")
            why = None if it.full() or counted(prog, L, lp, lambda op, b: op == ">" and b[0] == "f" and b[2].endswith("iv_sofaCount"), 1) else it.why()
            c.judge(why is None, "views|%s|%s" % (f.q, show(it.cont) if it.cont else "views"), "%s: not every %s is written: %s" % (g.nodes[lp.head].loc() if g.nodes[lp.head].nid is not None else f.loc(), show(it.cont) if it.cont else "view", why), "%s: loop over %s is complete" % (f.loc(), show(it.cont) if it.cont else "the views"))
    if fmt == "XMI": c.floor("view_loops", 3)

def prefixes(prog, c, wcls):
    """a prefix that stands for a namespace is noted as used, so that no other namespace gets it"""
    for f in sorted((f for f in prog.fns.values() if f.cls == wcls and f.blocks), key=lambda f: f.u):
        g = Graph(prog, f)
        sets = [n for n in g.nodes if n.k == "set" and n.ev[0] is not None and n.ev[0][0] == "idx" and n.ev[0][1][0] == "f" and n.ev[0][1][2].endswith("nsUriToPrefixMap")]
        sets += [n for n in g.nodes if n.k == "call" and n.ev[0] and last(n.ev[0]) == "operator=" and n.ev[2] is not None and n.ev[2][0] == "idx" and n.ev[2][1][0] == "f" and n.ev[2][1][2].endswith("nsUriToPrefixMap")]
        if not sets: continue
        L = Loops(g); c.fn(f)
        for n in sets:
            if n.i not in L.live: continue
            c.count("prefixes")
            p = n.ev[2] if n.k == "set" else n.ev[3][0]
            def plain(x): return x[2][0] if x is not None and x[0] == "ctor" and x[2] else x
            ins = [m.i for m in g.nodes if m.k == "call" and m.ev[0] and last(m.ev[0]) in ("insert", "emplace") and m.ev[2] is not None and m.ev[2][0] == "f" and m.ev[2][2].endswith("nsPrefixesUsed") and plain(m.ev[3][0]) == plain(p)]
            lp = L.innermost(n)
            ends = [g.exit.i] + ([lp.head] if lp is not None else [])
            c.judge(bool(ins) and (L.dom(n.i, ins) or not L.path(L.succs(n.i), ends, ins)), "prefix|%s|%s" % (f.q, show(p)), "%s: the prefix %s is given to a namespace without being marked as used: another one may get it too" % (n.loc(), show(p)), "%s: prefix %s marked as used" % (n.loc(), show(p)))
    c.floor("prefixes", 3)

def counted(prog, L, lp, bound, first=0):
    """for (i = first; ...; i++) with the one exit condition i op b that bound() accepts"""
    g = L.g
    ex = [(n, exitcond(l)) for n, t, l in L.exits(lp) if not L.throws(t.i)]
    if len(ex) != 1 or ex[0][1] is None or ex[0][1][0] != "cmp": return False
    op, a, b = ex[0][1][1], unconv(ex[0][1][2]), unconv(ex[0][1][3])
    if op in ("<", "<="): op, a, b = {"<": ">", "<=": ">="}[op], b, a
    if a[0] != "var": return False
    k = lin(b)
    if op == ">=" and k[1] == 1 and len(k[0]) == 1: op, b = ">", list(k[0])[0]
    if not bound(op, b): return False
    ins = [m for m in g.nodes if m.k == "set" and m.ev[0] == a and m.i in L.live]
    steps = [m.i for m in ins if m.i in lp.body and effect(m, a) == "step"]
    if any(m.i in lp.body and m.i not in steps for m in ins): return False
    starts = [m for m in ins if m.i not in lp.body]
    if not starts or any(m.ev[2] != ("int", first) or m.ev[1] != "=" for m in starts): return False
    return bool(steps) and not L.cycle_avoids(lp, steps) and not any(L.path(L.succs(s), steps, [lp.head], within=lp.body) for s in steps)
