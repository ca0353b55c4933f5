"""C15: errors and exceptions reach the caller, also across the JNI boundary"""
from sa import check
from sa.core import *
from sa.absint import AI
from checks.common import *
from checks.c09 import last
from checks.c14 import errors, Oracle, BAD, looping

ALREADY = "UIMA_ERR_CONFIG_OBJECT_ALREADY_COMITTED"
JT = "JNIUtils::throwNewInternalException"
QUERIES = ("extractValue", "extractConfigOption", "extractConfigOptionBoolean")     # "not there" is an answer, not a failure
# exceptions that mean "there is none": the lookups that ask for something that need not be there
LOOKUPS = {"uima::AnnotatorContext::findNameValuePair": "ConfigException", "uima::CAS::getAnnotationIndex": "Exception"}
EXCB = re.compile(r"(^|[\s:])(Exception)$")

def ob(c, cond, loc, msg, key):
    c.judge(cond, key, "%s: %s" % (loc, msg))

def userclass(prog, q): return q.startswith("uima::Annotator::")

def consts(prog):
    """name of a function that returns an error code -> what it can return other than 0"""
    eq = errors(prog)
    res = {q: set() for q in eq}; dep = {q: set() for q in eq}
    nev = set()
    for f in prog.fns.values():
        if f.d.get("ret", "").rstrip().endswith("*") and f.blocks and f.q not in nev and all(len(k.blocks) < 60 and nevernull(prog, k) for k in prog.byq[f.q] if k.blocks): nev.add(f.q)
    for q in eq:
        fs = [f for f in prog.byq.get(q, []) if f.blocks]
        if userclass(prog, q): res[q].add("user code")
        for u in {m["u"] for k in prog.classes.values() for m in k["methods"] if m["q"] == q and m.get("virt")}:
            for o in prog.targets(u, True):
                if o.q in eq and o.q != q: dep[q].add(o.q)
        for f in fs:
            g = Graph(prog, f)
            par = {p["n"] for p in f.params}
            dead = deadnodes(prog, g, nev)
            for n in g.nodes:
                if n.k != "ret" or n.ev[0] is None or n.i in dead: continue
                todo = [n.ev[0]]; seen = set()
                while todo:
                    x = todo.pop()
                    if x in seen: continue
                    seen.add(x)
                    v = num(prog, x)
                    if v == 0: continue
                    if v is not None: res[q].add(v); continue
                    if x[0] == "var":
                        a = [m.ev[2] for m in g.nodes if m.k == "set" and m.ev[0] == x and m.ev[2] is not None and m.i not in dead]
                        todo += a
                        if not a and not (len(x) > 1 and any(p in str(x[1:]) for p in par)): res[q].add(show(x))
                        continue
                    if x[0] == "ite": todo += [x[2], x[3]]; continue
                    if x[0] == "call" and x[1] in eq: dep[q].add(x[1]); continue
                    res[q].add(show(x))
    ch = True
    while ch:
        ch = False
        for q in eq:
            for d in dep[q]:
                if not res[d] <= res[q]: res[q] |= res[d]; ch = True
    return res

def nevernull(prog, f):
    """only objects just created are returned"""
    g = Graph(prog, f)
    rets = [n for n in g.nodes if n.k == "ret"]
    if not rets: return False
    def ok(x, seen=()):
        if x is None or x in seen: return False
        if x[0] == "new": return True
        if x[0] == "call" and last(x[1]) in ("release", "get") and x[2] is not None: return x[2][0] == "var" and ok(x[2], seen)
        if x[0] == "ctor" and len(x[2]) == 1: return ok(x[2][0], seen + (x,))
        if x[0] == "call" and x[1] == f.q: return True                # an overload that is looked at itself
        if x[0] == "var":
            a = [m.ev[2] for m in g.nodes if m.k == "set" and m.ev[0] == x]
            if a: return all(ok(y, seen + (x,)) for y in a)
            c = [m for m in g.nodes if m.k == "call" and m.ev[2] == x and "unique_ptr::unique_ptr" in m.ev[0]]
            return bool(c) and all(m.ev[3] and ok(m.ev[3][0], seen + (x,)) for m in c)
        return False
    return all(ok(n.ev[0]) for n in rets)

def deadnodes(prog, g, nev):
    """nodes reached only if a pointer is null that never is"""
    good = set()
    for m in g.nodes:
        if m.k == "set" and m.ev[0] is not None and m.ev[0][0] == "var" and m.ev[2] is not None and m.ev[2][0] == "call" and m.ev[2][1] in nev: good.add(m.ev[0])
    for v in list(good):
        if any(m.k == "set" and m.ev[0] == v and not (m.ev[2] is not None and m.ev[2][0] == "call" and m.ev[2][1] in nev) for m in g.nodes): good.discard(v)
    if not good: return ()
    seen = set(); st = [g.entry]
    while st:
        n = st.pop()
        if n.i in seen: continue
        seen.add(n.i)
        for t, l in n.succ:
            if l and l[0] == "t":
                c, pol = l[1], l[2]
                while c[0] == "not": c, pol = c[1], not pol
                if c in good and not pol: continue
                if c[0] in ("op", "cmp", "rel") and any(x in good for x in c if isinstance(x, tuple)) and any(num(prog, x) == 0 for x in c if isinstance(x, tuple)):
                    if ("==" in c) == pol: continue
            st.append(t)
    return {n.i for n in g.nodes if n.i not in seen}

def onlydtors(prog, f):
    """a destructor, or a function called by nothing but destructors"""
    r = getattr(prog, "_onlydtors", None)
    if r is None:
        r = {k.u for k in prog.fns.values() if k.d.get("kind") == "dtor"}
        cs = prog.callers(); ch = True
        while ch:
            ch = False
            for k in prog.fns.values():
                if k.u not in r and cs.get(k.u) and all(x.u in r for x, i in cs[k.u]): r.add(k.u); ch = True
        prog._onlydtors = r
    return f.u in r

def reports(prog, n):
    """the node tells someone of the error"""
    if n.k != "call": return False
    q = n.ev[0]
    if q.endswith("ErrorInfo::setErrorId") or q.endswith("ErrorInfo::operator="): return n.ev[2] is not None and n.ev[2][0] in ("param", "f")
    return q == JT or not n.ev[4] and (n.ev[1] in telling(prog)[0] or n.ev[1] in telling(prog)[1]) or last(q) in ("Throw", "ThrowNew") and "JNIEnv" in q

def telling(prog):
    """functions that never return, and functions that do not return without having reported the error"""
    r = getattr(prog, "_telling", None)
    if r is not None: return r
    nev, tel = set(), set()
    cand = [f for f in prog.fns.values() if f.blocks and len(f.blocks) < 40]
    gs = {}
    ch = True
    first = True
    while ch:
        ch = False
        for f in cand:
            if f.u in nev: continue
            if not first and not any((x.get("u") in nev or x.get("u") in tel) for i, x in f.calls()): continue
            g = gs.get(f.u)
            if g is None: g = gs[f.u] = Graph(prog, f, eh="none")
            def ends(ok):
                seen = set(); st = [g.entry]
                while st:
                    n = st.pop()
                    if n.i in seen: continue
                    seen.add(n.i)
                    if n.k in ("throw", "texit") or n.k == "call" and not n.ev[4] and n.ev[1] in nev or ok(n): continue
                    if n is g.exit: return True
                    st += [t for t, l in n.succ]
                return False
            if not ends(lambda n: False): nev.add(f.u); ch = True
            elif f.u not in tel and not ends(lambda n: n.k == "call" and (n.ev[0] == JT or n.ev[1] in tel or last(n.ev[0]) in ("Throw", "ThrowNew") and "JNIEnv" in n.ev[0])): tel.add(f.u); ch = True
        first = False
    prog._telling = (nev, tel)
    return prog._telling

def noreturn(prog, n): return n.k == "call" and not n.ev[4] and n.ev[1] in telling(prog)[0]

def logs(n): return n.k == "call" and last(n.ev[0]) in ("logError", "getLastErrorAsCStr")

def lost(prog, c, res):
    eq = errors(prog)
    already = next((v for k, v in prog.enumc.items() if last(k) == ALREADY), None)
    if already is None: already = next((v for k, v in getattr(prog, "gcv", {}).items() if last(k) == ALREADY), None)
    fallible = {q for q in eq if res[q] and not (res[q] <= {already, 3029}) and last(q) not in ("logError", "getLastErrorId") and q != "uima::ErrorInfo::getErrorId"}
    c.count("fallible functions", len(fallible))
    if len(fallible) < 45: raise AnalysisBroken("only %d functions that can fail were found" % len(fallible))
    fallible = {q for q in fallible if last(q) not in QUERIES}
    made = {f.q for f in makers(prog)}
    nsite = 0
    for f in sorted(prog.fns.values(), key=lambda f: f.u):
        if not f.blocks or onlydtors(prog, f): continue
        if not any((x.get("fn") or "") in fallible or (x.get("fn") or "") in made for i, x in f.calls()): continue
        g = Graph(prog, f, eh="none")
        for s in [m for m in g.nodes if m.k == "call" and m.ev[0] in fallible or m.k == "call" and m.ev[0] in made]:
            info = None
            if s.ev[0] in made:
                ps = prog.fns[s.ev[1]].params if prog.fns.get(s.ev[1]) else []
                info = [a for a, p in zip(s.ev[3], ps) if "ErrorInfo" in p["t"]]
                if not info or info[0][0] == "param": continue           # the caller's own
            nsite += 1; c.fn(f)
            form = ("call", s.ev[0], s.ev[2], s.ev[3])
            getter = last(s.ev[0]).startswith("get")
            o = Once(prog, form, info)
            def visit(m, env, s=s, form=form, getter=getter):
                if m.k == "call" and m.ev[0] == s.ev[0] and m.ev[2] == s.ev[2] and m.ev[3] == s.ev[3]:
                    if getter or m.i == s.i and not env.get(("hit",)): env[("hit",)] = 1
                    else: env[("hit",)] = 2
                    return env
                if env.get(("hit",)) and reports(prog, m): env[("told",)] = 1; return env
            out = AI(g, o, {}, maxstates=200000).run(visit)
            bad = None
            for x, e in out:
                if not e.get(("hit",)) or x.k == "texit" or x.k == "throw": continue
                if e.get(("told",)): continue
                if f.q in eq:
                    if e.get(("result",)) not in (0, None): continue
                    bad = "returns %s" % ("no error" if e.get(("result",)) == 0 else "a result that does not depend on it")
                else: bad = "neither throws nor reports it"
                break
            if bad is not None and fallback(prog, g, s, form, fallible): bad = None
            ob(c, bad is None, s.loc(), "[lost error] %s of %s fails, but %s then %s" % (last(s.ev[0]), s.ev[0].rsplit("::", 1)[0], f.q, bad), key="lost error|%s|%s" % (f.q, s.ev[0]))
    c.count("calls that can fail", nsite)
    if nsite < 40: raise AnalysisBroken("only %d calls that can fail were found" % nsite)

class Once(Oracle):
    """the call fails the first time it is made"""
    def __init__(self, prog, form, info=None): Oracle.__init__(self, prog); self.form = form; self.info = info
    def call(self, f, args, val):
        if last(f[1]) == "logError" and f[3]: return val(f[3][-1])
        if f == self.form:
            h = val(("hit",))
            if h in (1, 2) and self.info is not None: return 0 if h == 1 else "obj"
            if h in (1, 2): return BAD if h == 1 else 0
        if last(f[1]) == "getErrorId":
            if self.info is None: return None
            if f[2] is not None and f[2] in self.info: return {1: BAD, 2: 0}.get(val(("hit",)))
            return None
        return Oracle.call(self, f, args, val)

def fallback(prog, g, s, form, fallible):
    """the failed call is followed by another try, made if and only if it failed"""
    def reached(h):
        r = set(); o = Once(prog, form)
        def visit(m, env):
            if m is s: env[("hit",)] = h
            elif env.get(("hit",)) and m.k == "call" and m.ev[0] in fallible and last(m.ev[0]) == last(s.ev[0]): r.add(m.i)
            return env
        AI(g, o, {}, maxstates=200000).run(visit)
        return r
    return bool(reached(1) - reached(2))

def handlers(prog, c):
    """no exception is swallowed"""
    n = 0
    for f in sorted(prog.fns.values(), key=lambda f: f.u):
        if not f.d.get("tries"): continue
        if onlydtors(prog, f): continue
        g = Graph(prog, f, eh="none")
        native = f.name.startswith("Java_") or "JNI" in f.file
        for fr, t, h, hd in g.handlers:
            if fr.fn is not f: continue
            n += 1; c.fn(f)
            bad = swallow(prog, g, f, hd, h)
            if bad is not None and allowed(prog, f, h): bad = None
            ob(c, bad is None, "%s:%s" % (f.file if f.file.startswith("src") else f.file, t["l"]), "[swallowed] the handler for %s in %s ends at %s without the caller being told of the exception" % (h["t"], f.q, bad), key="swallowed|%s|%s" % (f.q, h["t"]))
    c.count("handlers", n)
    if n < 60: raise AnalysisBroken("only %d exception handlers found" % n)

def allowed(prog, f, h, seen=()):
    if f.q in LOOKUPS: return h["t"].endswith("Exception")
    if f.cls == "JNILogger": return True                     # the logger itself: nobody to tell
    if f.cls == "uima::ResourceManager": return "XMLException" in h["t"]
    if f.cls == "uima::XmiDeserializerHandler": return False
    if f.u in seen: return False
    cs = [k for k, i in prog.callers().get(f.u, ())]
    return bool(cs) and f.q not in LOOKUPS and all(allowed(prog, k, h, seen + (f.u,)) for k in cs)

def swallow(prog, g, f, hd, h):
    """an end of the function that can be reached from the handler without any report, or None"""
    eq = errors(prog)
    todo = [(hd, None)]; seen = set()
    pend = pending(g)
    while todo:
        n, val = todo.pop()
        if (n.i, val) in seen: continue
        seen.add((n.i, val))
        if n.k in ("throw", "texit"): continue
        if reports(prog, n): continue
        if n.k == "call" and last(n.ev[0]) == "addOutOfTypeSystemAttribute" or n.k == "call" and last(n.ev[0]).startswith("addOutOfTypeSystem"): continue
        if n.k == "ret":
            if n.ev[0] is not None and f.q in eq:
                v = num(prog, n.ev[0])
                if v is not None and v != 0: continue
                if v is None and tells(prog, g, n.ev[0], h): continue
            return n.loc()
        if n.k == "exit": return "its end"
        for t, l in n.succ:
            if l and l[0] == "t" and pendingcond(l[1], l[2]): continue       # a Java exception is already pending
            if l and l[0] == "t" and lenient(l[1], l[2]): continue
            todo.append((t, val))
    return None

def pending(g): return None

def pendingcond(cond, pol):
    c, p = cond, pol
    while c[0] == "not": c, p = c[1], not p
    s = show(c)
    if "ExceptionOccurred" in s or "ExceptionCheck" in s: return p if "==" not in s else not p
    return False

def lenient(cond, pol):
    """the caller asked for what does not fit to be dropped"""
    c, p = cond, pol
    while c[0] == "not": c, p = c[1], not p
    return p and last(show(c)).lower() in ("lenient", "iv_lenient")

def tells(prog, g, x, h, seen=()):
    """the returned value is the caught exception's error, or an error constant"""
    if x in seen: return False
    if x[0] == "call":
        if last(x[1]) == "getErrorId": return any("id" in h and y[0] == "var" for y in [z for z in subforms(x) if isinstance(z, tuple) and z])
        if last(x[1]) == "logError" and x[3]:
            y = x[3][-1]; v = num(prog, y)
            return v is not None and v != 0 or v is None and tells(prog, g, y, h, seen + (x,))
        return False
    if x[0] == "var":
        a = [m.ev[2] for m in g.nodes if m.k == "set" and m.ev[0] == x and m.ev[2] is not None]
        return bool(a) and all((num(prog, y) or 0) != 0 or num(prog, y) is None and tells(prog, g, y, h, seen + (x,)) for y in a)
    return False

def leaves(prog, f, seen=()):
    """a construct outside the handlers whose exception leaves the function, or None"""
    g = Graph(prog, f, eh="all")
    inh = set()
    todo = [hd for fr, t, h, hd in g.handlers]
    while todo:                                   # what runs inside handlers
        n = todo.pop()
        if n.i in inh: continue
        inh.add(n.i)
        todo += [t for t, l in n.succ if not (l and l[0] == "eh")]
    vis = set(); st = [g.entry]
    while st:
        n = st.pop()
        if n.i in vis or n.i in inh: continue
        vis.add(n.i)
        for t, l in n.succ:
            if t is g.texit or t.k == "texit":
                k = prog.fns.get(n.ev[1]) if n.k == "call" and not n.ev[4] else None
                if k is not None and k.blocks and k.u not in seen and len(seen) < 4 and leaves(prog, k, seen + (f.u,)) is None: continue
                return n
            st.append(t)
    return None

def boundary(prog, c):
    """native methods: nothing leaves as a C++ exception, everything as a Java exception"""
    nat = [f for f in prog.fns.values() if f.name.startswith("Java_") and f.blocks]
    if len(nat) < 18: raise AnalysisBroken("only %d native methods found" % len(nat))
    c.count("native methods", len(nat))
    for f in sorted(nat, key=lambda f: f.q):
        bad = leaves(prog, f)
        ob(c, bad is None, bad.loc() if bad else f.file, "[boundary] an exception of %s leaves %s as a C++ exception" % (show(("call", bad.ev[0], None, ())) if bad is not None and bad.k == "call" else "the body", f.name), key="boundary|%s" % f.name)
        for t in f.d.get("tries", []):
            hs = [h["t"] for h in t["h"]]
            ob(c, "..." in hs and hs.index("...") == len(hs) - 1, "%s:%s" % (f.file, t["l"]), "[boundary] the try block of %s does not end with a handler for all exceptions" % f.name, key="catch all|%s" % f.name)
        gn = Graph(prog, f, eh="none")
        # after the Java exception has been thrown nothing else of the engine is run
        for n in gn.nodes:
            if n.k == "call" and n.ev[0] == JT:
                st = [t for t, l in n.succ]; seen = set(); after = None
                while st and after is None:
                    m = st.pop()
                    if m.i in seen: continue
                    seen.add(m.i)
                    if m.k == "call" and m.ev[0].startswith("uima::") and last(m.ev[0])[:1] != "~" and not m.ev[0].startswith(("uima::ErrorInfo", "uima::Exception", "uima::util::Trace")) and m.k != "dtor" and not isdtor(m): after = m
                    st += [t for t, l in m.succ if not (l and l[0] == "eh")]
                ob(c, after is None, n.loc(), "[boundary] after throwing the Java exception %s goes on with %s" % (f.name, last(after.ev[0]) if after else ""), key="goes on|%s" % f.name)
    for f in prog.byq.get(JT, []):
        if not f.blocks: continue
        g = Graph(prog, f, inline=lambda t, fr: t.q == JT, depth=3)
        seen = set(); st = [g.entry]; bad = False
        while st:
            n = st.pop()
            if n.i in seen: continue
            seen.add(n.i)
            if n.k == "call" and last(n.ev[0]) in ("Throw", "ThrowNew"): continue
            if n.k == "exit": bad = True
            st += [t for t, l in n.succ]
        ob(c, not bad, f.file, "[boundary] %s can end without throwing the Java exception" % f.q, key="throws|%d" % len(f.params))

def isdtor(m): return m.k == "dtor"

def factories(prog, c):
    """NULL is returned if and only if the error is in rErrorInfo"""
    fs = makers(prog)
    if len(fs) < 12: raise AnalysisBroken("only %d factories with an error parameter found" % len(fs))
    c.count("factories", len(fs))
    for f in sorted(fs, key=lambda f: f.u):
        g = Graph(prog, f, eh="try", thrown="uima::Exception")
        par = [p for p in f.params if "ErrorInfo" in p["t"]][0]
        def isp(x): return x is not None and x[0] in ("var", "param") and x[-1] == par["n"]
        o = FO(prog)
        def visit(m, env):
            if m.k == "call":
                q, u, ob, args = m.ev[0], m.ev[1], m.ev[2], m.ev[3]
                if isp(ob) and q.endswith("::reset"): env[("err",)] = 0; return env
                if isp(ob) and (q.endswith("::setErrorId") or q.endswith("::operator=")):
                    env[("err",)] = 1; return env
                if any(isp(a) for a in args) and last(q).startswith("create"):
                    env[("dele",)] = ("call", q, ob, args); return env
            if m.k == "set" and isp(m.ev[0]): env[("err",)] = 1; return env
        out = AI(g, o, {("err",): 0}).run(visit)
        n = 0
        for x, e in out:
            if x.k == "texit": continue
            n += 1
            r = e.get(("result",)); err = e.get(("err",))
            if e.get(("dele",)) and not err: continue            # the other factory did it
            bad = None
            if err and r != 0: bad = "returns an object although it has reported an error"
            if not err and r == 0: bad = "returns NULL without setting the error"
            ob(c, bad is None, f.file + ":" + str(f.d.get("l", "")), "[factory] %s %s" % (f.q, bad), key="factory|%s|%s" % (f.q, bad))
        if not n: raise AnalysisBroken("no way through %s" % f.q)

def makers(prog):
    return [f for f in prog.fns.values() if f.cls in ("uima::Framework", "uima::TextAnalysisEngine") and f.blocks and last(f.q).startswith("create") and any("ErrorInfo" in p["t"] for p in f.params)]

class FO(Oracle):
    def __init__(self, prog): Oracle.__init__(self, prog); self.prog = prog
    def leaf(self, f):
        return "obj" if f[0] == "new" else None
    def call(self, f, args, val):
        if last(f[1]) in ("get", "release") and "unique_ptr" in f[1]: return "obj"
        fs = self.prog.byq.get(f[1], [])
        if fs and fs[0].d.get("ret", "").rstrip().endswith("*") and not any("ErrorInfo" in p["t"] for p in fs[0].params): return "obj"
        return None
    def throws(self, n): return n.k == "call" and not n.ev[0].startswith(("uima::ErrorInfo", "std::", "uima::util::"))

def sax(prog, c):
    """parse errors end parsing with an exception"""
    n = 0
    for q, k in sorted(prog.classes.items()):
        ms = [m for m in k["methods"] if last(m["q"]) in ("error", "fatalError") and m.get("virt")]
        for m in ms:
            f = prog.fns.get(m["u"])
            if f is None or not f.blocks or not any("SAXParseException" in p["t"] for p in f.params): continue
            n += 1
            g = Graph(prog, f, eh="none")
            seen = set(); st = [g.entry]; bad = False
            while st:
                x = st.pop()
                if x.i in seen: continue
                seen.add(x.i)
                if x.k == "throw" or x.k == "texit" or noreturn(prog, x): continue
                if x.k == "exit": bad = True
                st += [t for t, l in x.succ]
            ob(c, not bad, f.file, "[parse error] %s can return, so that the damaged document is taken for a good one" % f.q, key="parse error|%s" % f.q)
    if n < 6: raise AnalysisBroken("error handlers of the parsers not found")
    c.count("parser error handlers", n)
    np = 0
    for f in sorted(prog.fns.values(), key=lambda f: f.u):
        if not any(last(x.get("fn") or "") == "parse" and "xercesc" in (x.get("fn") or "") for i, x in f.calls()): continue
        g = Graph(prog, f, eh="none")
        for s in [m for m in g.nodes if m.k == "call" and last(m.ev[0]) == "parse" and "xercesc" in m.ev[0]]:
            np += 1
            seen = set(); st = [g.entry]; bad = False
            while st:
                x = st.pop()
                if x.i in seen: continue
                seen.add(x.i)
                if x.k == "call" and last(x.ev[0]) == "setErrorHandler" and x.ev[2] == s.ev[2] and x.ev[3] and num(prog, x.ev[3][0]) != 0: continue
                if x is s: bad = True; break
                st += [t for t, l in x.succ]
            ob(c, not bad, s.loc(), "[parse error] the parser has no error handler, so that errors in the document go unnoticed", key="handler|%s" % f.q)
    if np < 8: raise AnalysisBroken("only %d parser runs found" % np)
    c.count("parser runs", np)

def run(prog, c):
    c.rule("lost: for each call of a function whose error code can be non-zero (closure over what is returned): on every path after it failed the caller throws, reports, or returns non-zero")
    c.rule("handlers: from each exception handler every path reaches a throw, a report to the caller (error parameter, Java exception) or a non-zero error result")
    c.rule("boundary: no exception edge leaves a native method outside its handlers; catch-all last; nothing of the engine runs after the Java exception")
    c.rule("factories: NULL result if and only if the error parameter was set; parser error handlers never return; each parser run is preceded by setErrorHandler")
    for f in makers(prog): c.fn(f)
    res = consts(prog)
    lost(prog, c, res)
    handlers(prog, c)
    boundary(prog, c)
    factories(prog, c)
    sax(prog, c)

if __name__ == "__main__": check.main("C15", run)
