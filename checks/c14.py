"""C14: an engine runs its annotators only in the permitted order"""
from sa import check
from sa.core import *
from sa.absint import AI
from sa.loops import Loops, unconv, exitcond, effect
from checks.common import *
from checks.c09 import last

EB = "uima::internal::EngineBase"; PE = "uima::internal::PrimitiveEngine"; AE = "uima::internal::AggregateEngine"
AM = "uima::internal::AnnotatorManager"; AP = "uima::AnnotatorProxy"; ES = "uima::EngineState"
QUIET = ("uima::util::Trace", "uima::LogFacility", "uima::ErrorInfo", "uima::Exception", "uima::ErrorMessage", "uima::CASIteratorException")
BAD = 77; EXC = 88
INIT, READY, DEAD = 0, 1, 2
OPS = {"process": "processImpl", "reconfigure": "reconfigureImpl", "batchProcessComplete": "batchProcessCompleteImpl",
       "collectionProcessComplete": "collectionProcessCompleteImpl", "reinitTypeSystem": "reinitTypeSystemImpl", "destroy": "destroyImpl",
       "hasNext": "hasNextImpl", "next": "nextImpl", "getCasInstancesRequired": "getCasInstancesRequiredImpl"}

def haslooop(prog, f): return any(b.get("t", {}).get("k") in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt") for b in f.blocks.values())

def looping(f):
    """the control flow graph of the function has a cycle"""
    col = {}
    def succ(b): return [s for s in f.blocks[b]["s"] if isinstance(s, int)]
    for b0 in f.blocks:
        if b0 in col: continue
        st = [(b0, iter(succ(b0)))]; col[b0] = 1
        while st:
            b, it = st[-1]
            for s in it:
                if col.get(s) == 1: return True
                if s not in col: col[s] = 1; st.append((s, iter(succ(s)))); break
            else: col[b] = 2; st.pop()
    return False

def errors(prog):
    """functions that report an error code"""
    r = getattr(prog, "_errq", None)
    if r is None:
        isid = lambda t: t.replace("uima::", "").replace("const", "").strip() == "TyErrorId"
        r = prog._errq = {f.q for f in prog.fns.values() if isid(f.d.get("ret", ""))}
        for q, k in prog.classes.items():
            for m in k["methods"]:
                if isid(m.get("ret", "")): r.add(m["q"])
        if len(r) < 60: raise AnalysisBroken("functions that return error codes not found")
    return r

def enumv(prog, cls, name):
    for q, v in prog.enumc.items():
        if q.startswith(cls) and last(q) == name: return v
    raise AnalysisBroken("enumerator %s of %s not found" % (name, cls))

class Oracle:
    """every error code is 0 except that of the call named fail; only the calls named thrower throw"""
    def __init__(self, prog, fail=None, thrower=None, ids=None):
        self.prog = prog; self.fail = fail; self.thrower = thrower; self.ids = ids or {}
    def cmp(self, op, a, b): return op == "!=" if op in ("==", "!=") and {a, b} == {"obj", 0} else None
    def leaf(self, f):
        if f[0] == "new": return "obj"
        if f[0] == "enum": return f[2]
        if f[0] == "g":
            v = self.prog.gcv.get(f[1]); return v if isinstance(v, int) else None
        return None
    def call(self, f, args, rec):
        q = f[1] or ""
        if q in self.ids: return self.ids[q]
        if q == self.fail: return BAD
        if last(q) == "getErrorId" and q.startswith(("uima::ErrorInfo", "uima::Exception")): return EXC
        if q in self.errq(): return 0
        if q == "uima::internal::EngineBase::" + last(q) and last(q).endswith("Impl"): return None
        return None
    def errq(self):
        r = getattr(self.prog, "_errq", None)
        if r is None: r = errors(self.prog)
        return r
    def truth(self, v): return True if v == "obj" else None
    def must(self, n): return n.k == "call" and self.thrower is not None and n.ev[0] == self.thrower
    def throws(self, n):
        if n.k == "throw": return True
        if n.k != "call": return False
        if self.thrower == "*": return not (n.ev[0] or "").startswith(QUIET)
        return n.ev[0] == self.thrower

def stateform(prog):
    """where the engine keeps its state: the one EngineState member of EngineBase"""
    fs = [x for x in prog.classes[EB]["fields"] if "EngineState" in x["t"]]
    ss = [x for x in prog.classes[ES]["fields"] if "EnEngineState" in x["t"] or "EnEngineState" in x.get("ts", "")]
    if len(fs) != 1 or len(ss) != 1: raise AnalysisBroken("state of EngineBase not found")
    return ("f", ("f", ("this",), EB + "::" + fs[0]["n"]), ES + "::" + ss[0]["n"])

def graph(prog, f, also=()):
    def inl(t, fr):
        if t.cls not in (EB, ES) + tuple(also) or t.u == f.u or looping(t): return False
        return not t.name.endswith("Impl") or t.cls != EB
    return Graph(prog, f, inline=inl, depth=5, eh="all", thrown="uima::Exception")

def recorder(pick):
    """visit function appending the names of picked calls to a trace"""
    T = ("trace",)
    def visit(n, env):
        if n.k == "call":
            x = pick(n, env)
            if x is not None:
                t = env.get(T, ())
                if len(t) < 6: env[T] = t + (x,)
                return env
        return None
    return visit

def outcome(ai_out):
    """[(threw?, result, trace, env)]"""
    return [(n.k == "texit", env.get(("result",)), env.get(("trace",), ()), env) for n, env in ai_out]

def lifecycle(prog, c):
    S = stateform(prog)
    impl = lambda n, env: (last(n.ev[0]), env.get(S)) if n.ev[0] and n.ev[0].startswith(EB + "::") and last(n.ev[0]).endswith("Impl") else None
    meths = [f for f in prog.fns.values() if f.cls == EB and f.blocks and f.d.get("kind") == "method" and not f.name.endswith("Impl")]
    if len(meths) < 20: raise AnalysisBroken("methods of EngineBase not found")
    seen = set()
    for f in meths:
        if looping(f): continue
        g = graph(prog, f); c.fn(f)
        public = f.d.get("acc", "public") == "public"
        for s in (INIT, READY, DEAD):
            ai = AI(g, Oracle(prog, thrower="*", fail=None), {S: s})
            ai.o.errq = lambda: ()
            ai.o.ids = {x: 'nested' for x in ('uima::AnalysisEngine::process', EB + '::process')} if f.name == 'process' else {}
            out = outcome(ai.run(recorder(impl)))
            for thr, res, tr, env in out:
                for k, (m, at) in enumerate(tr):
                    seen.add((f.name, m))
                    if f.name == "initialize":
                        okc = s == INIT
                    else:
                        okc = s == READY and m != "initializeImpl"
                    c.judge(okc, "gate|%s|%s" % (f.q, m), "%s: %s of an engine that is %s calls %s" % (f.loc(), f.q, ["not initialized yet", "initialized", "destroyed"][s], m), "%s -> %s" % (f.q, m))
                    c.count("gated calls")
                    if m == "destroyImpl":
                        c.judge(at == DEAD, "destroyed before|%s" % f.q, "%s: %s calls destroyImpl while the engine still counts as initialized: a second destroy would tear the annotators down twice" % (f.loc(), f.q))
                    elif m == "initializeImpl": c.judge(tr[:k] == (), "initialize once|" + f.q, "%s: %s initializes the annotators after %s" % (f.loc(), f.q, tr[:k]))
                n = [m for m, at in tr]
                for m in set(n): c.judge(n.count(m) == 1, "once|%s|%s" % (f.q, m), "%s: %s can call %s %d times" % (f.loc(), f.q, m, n.count(m)))
                end = env.get(S)
                c.count("outcomes")
                if f.name not in ("initialize", "destroy", "destroyIfNeeded", "reinitTypeSystem") and not f.name.startswith("checkAndSet"):
                    c.judge(end == s, "state|%s" % f.q, "%s: %s changes the state of an engine that is in state %s to %s" % (f.loc(), f.q, s, end))
                if f.name in ("initialize", "destroy", "process", "reconfigure", "batchProcessComplete", "collectionProcessComplete", "reinitTypeSystem") and s != (INIT if f.name == "initialize" else READY):
                    c.judge(thr or isinstance(res, int) and res != 0 or res == "nested", "sequence error|%s" % f.q, "%s: %s called in state %d does not report an error" % (f.loc(), f.q, s))
                    c.judge(end == s, "sequence state|%s" % f.q, "%s: %s called in the wrong state %d changes it to %s" % (f.loc(), f.q, s, end))
    for op, im in OPS.items():
        if (op, im) not in seen: c.bad("forward|%s" % op, "%s: %s::%s never reaches %s" % (prog.byq[EB + "::" + op][0].loc(), EB, op, im))
    return S, impl

def one(prog, q, pred=lambda f: True):
    fs = [f for f in prog.byq.get(q, []) if f.blocks and pred(f)]
    if not fs: raise AnalysisBroken("%s not found" % q)
    return fs

def forwarding(prog, c, S, impl):
    """in the right state each operation runs its implementation once and hands its result on; failures end in a defined state"""
    for op, im in OPS.items():
        for f in one(prog, EB + "::" + op):
            g = graph(prog, f)
            if not any(n.k == "call" and n.ev[0] == EB + "::" + im for n in g.nodes): continue      # overload that delegates to another one
            iq = EB + "::" + im
            for fail in (None, iq):
                o = Oracle(prog, fail=fail)
                val = BAD if fail else 0
                o.ids = {iq: val}
                for thr, res, tr, env in outcome(AI(g, o, {S: READY}).run(recorder(impl))):
                    names = [m for m, at in tr]
                    c.judge(names.count(im) == 1 or thr, "forward once|%s" % op, "%s: %s of an initialized engine can return without calling %s" % (f.loc(), f.q, im), "%s runs %s once" % (f.q, im))
                    if op not in ("next",):
                        want = val if op != "hasNext" else val
                        c.judge(thr or res is not None and (res == want or isinstance(res, int) and bool(res) == bool(want) and op == "hasNext"), "result|%s" % op, "%s: %s returns %s although %s returned %d" % (f.loc(), f.q, res, im, val))
                    end = env.get(S)
                    exp = DEAD if op == "destroy" or (op == "reinitTypeSystem" and fail) else READY
                    c.judge(end == exp, "end state|%s" % op, "%s: after %s with %s returning %d the engine is in state %s instead of %d" % (f.loc(), f.q, im, val, end, exp))
                    c.count("forwarding outcomes")
            o = Oracle(prog, thrower=iq)
            for thr, res, tr, env in outcome(AI(g, o, {S: READY}).run(recorder(impl))):
                if not tr: continue
                c.judge(thr or isinstance(res, int) and res != 0, "exception lost|%s" % op, "%s: %s returns %s although %s threw" % (f.loc(), f.q, res, im))
                exp = DEAD if op in ("destroy", "reinitTypeSystem") else READY
                c.judge(env.get(S) == exp, "state after exception|%s" % op, "%s: after an exception in %s the engine is in state %s instead of %d" % (f.loc(), im, env.get(S), exp))
    f = one(prog, EB + "::initialize")[0]; g = graph(prog, f)
    fallible = sorted({n.ev[0] for n in g.nodes if n.k == "call" and n.ev[0] and not n.ev[0].startswith(QUIET) and not any(s[0].k == "enter" for s in n.succ)})
    codes = [q for q in fallible if q in Oracle(prog).errq() and last(q) not in ("destroyImpl",)]
    if len(codes) < 2: raise AnalysisBroken("initialize has lost its steps")
    for q in [None] + codes:
        for thr, res, tr, env in outcome(AI(g, Oracle(prog, fail=q), {S: INIT}).run(recorder(impl))):
            names = [m for m, at in tr]
            if q is None:
                c.judge(not thr and res == 0 and env.get(S) == READY and names[:1] == ["initializeImpl"] and "destroyImpl" not in names, "initialize",
                        "%s: initialize without any error returns %s in state %s after %s" % (f.loc(), res, env.get(S), names))
            elif "initializeImpl" in names:
                hit = res != 0 or env.get(S) != READY
                # the failing step may be skipped (no CAS pool asked for)
                if not hit and last(q) == "defineCASPool": continue
                c.judge((thr or res == BAD) and env.get(S) == DEAD and names[-1] == "destroyImpl", "failed initialize|%s" % last(q),
                        "%s: initialize whose step %s fails returns %s in state %s after %s: the engine must report the error and be destroyed" % (f.loc(), q, res, env.get(S), names), "failing %s destroys the engine" % q)
            c.count("initialization outcomes")
    # defineCASPool: asked for -> its error counts
    pool = [q for q in codes if last(q) == "defineCASPool"]
    for q in pool:
        o = Oracle(prog, fail=q); o.ids = {EB + "::getCasInstancesRequiredImpl": 2}
        for thr, res, tr, env in outcome(AI(g, o, {S: INIT}).run(recorder(impl))):
            c.judge((thr or res == BAD) and env.get(S) == DEAD, "failed initialize|pool", "%s: initialize whose CAS pool cannot be created returns %s in state %s" % (f.loc(), res, env.get(S)))
    for q in fallible:
        for n in g.nodes:
            if n.k == "call" and n.ev[0] == q: break
        started = False
        for thr, res, tr, env in outcome(AI(g, Oracle(prog, thrower=q), {S: INIT}).run(recorder(lambda n, env: impl(n, env) or (("!", None) if n.ev[0] == q else None)))):
            names = [m for m, at in tr]
            if "!" not in names: continue
            if thr:
                c.judge(env.get(S) != READY, "throwing initialize|%s" % last(q), "%s: an exception of %s leaves initialize with the engine ready for processing" % (f.loc(), q))
            else:
                c.judge(res == 0 and env.get(S) == READY or isinstance(res, int) and res != 0 and env.get(S) == DEAD or names[-1:] == ["destroyImpl"] and res not in (0,), "throwing initialize|%s" % last(q),
                        "%s: after an exception of %s initialize returns %s in state %s" % (f.loc(), q, res, env.get(S)), "exception of %s destroys the engine" % q)
            c.count("initialization outcomes")

def destructors(prog, c):
    """destroy() dispatches to the own destroyImpl: only the destructor of the class itself can still reach it"""
    concrete = [q for q in prog.classes if q != EB and any(f.cls == q and f.name == "destroyImpl" for f in prog.fns.values())]
    if len(concrete) < 3: raise AnalysisBroken("engine classes not found")
    for q in sorted(concrete):
        ds = [f for f in prog.fns.values() if f.cls == q and f.d.get("kind") == "dtor" and f.blocks]
        if not ds: c.bad("destructor|" + q, "%s has no destructor that tears its annotators down" % q); continue
        f = ds[0]; c.fn(f)
        g = Graph(prog, f, inline=lambda t, fr: t.cls == q, depth=2); L = Loops(g)
        cs = {n.i for n in g.nodes if n.k == "call" and n.ev[0] in (EB + "::destroyIfNeeded", EB + "::destroy")}
        c.judge(bool(cs) and L.dom(g.exit.i, cs), "destructor|" + q, "%s: the destructor of %s can end without destroying its annotators" % (f.loc(), q), "~%s destroys" % q)
    f = one(prog, EB + "::destroyIfNeeded")[0]; S = stateform(prog); g = graph(prog, f); c.fn(f)
    hit = 0
    for thr, res, tr, env in outcome(AI(g, Oracle(prog), {S: READY}).run(recorder(lambda n, env: 1 if n.ev[0] == EB + "::destroyImpl" else None))):
        c.judge(tr == (1,), "destroyIfNeeded", "%s: destroyIfNeeded of an initialized engine does not destroy it" % f.loc())

def proxies(prog, c):
    """the annotator proxy calls the user's annotator once per operation and returns what it returns"""
    ann = "uima::Annotator"
    names = {"typeSystemInit": "typeSystemInit", "reConfig": "reconfigure", "batchProcessComplete": "batchProcessComplete", "collectionProcessComplete": "collectionProcessComplete",
             "hasNext": "hasNext", "next": "next", "getCasInstancesRequired": "getCasInstancesRequired", "processDocument": "process", "init": "initialize", "deInit": "destroy"}
    life = set(names.values())
    for m, user in sorted(names.items()):
        f = one(prog, AP + "::" + m)[0]; c.fn(f)
        g = Graph(prog, f, inline=lambda t, fr: t.cls == AP and t.u != f.u, depth=3)
        def pick(n, env):
            q = n.ev[0] or ""
            cl = q.rsplit("::", 1)[0]
            if n.ev[2] is not None and n.ev[2] == H and last(q) in life: return last(q)
            if n.ev[2] is not None and last(q) in life and cl in ANN: return last(q)
            return None
        H = ("f", ("this",), AP + "::iv_hUserData")
        ANN = {q for q in prog.classes if last(q) in ("Annotator", "AnalysisComponent", "TextAnnotator")} | {x.ev[0].rsplit("::", 1)[0] for x in g.nodes if x.k == "call" and x.ev[0] and x.ev[2] == H}
        uq = {n.ev[0] for n in g.nodes if n.k == "call" and n.ev[0] and last(n.ev[0]) == user and n.ev[0].rsplit("::", 1)[0] in ANN}
        if not uq: c.bad("proxy|" + m, "%s: %s::%s does not call the annotator's %s" % (f.loc(), AP, m, user)); continue
        for val in (0, 1) + (() if m in ("hasNext",) else (BAD,)):
            o = Oracle(prog); o.ids = {q: val for q in uq}
            for thr, res, tr, env in outcome(AI(g, o, {}).run(recorder(pick))):
                if m == "init" and not tr:
                    c.judge(isinstance(res, int) and res != 0 or res is None or thr, "proxy silent|init", "%s: init returns %s without having initialized the annotator" % (f.loc(), res)); continue
                c.judge(thr or tr == (user,), "proxy|" + m, "%s: %s::%s calls %s of the annotator instead of exactly %s" % (f.loc(), AP, m, list(tr) or "nothing", user), "%s -> %s" % (m, user))
                if m != "next" and tr: c.judge(thr or res == val, "proxy result|" + m, "%s: %s::%s returns %s although the annotator's %s returned %d" % (f.loc(), AP, m, res, user, val))
                c.count("proxy outcomes")
        if m == "deInit":
            L = Loops(g)
            use = {n.i for n in g.nodes if n.k == "call" and n.ev[0] in uq}
            dels = {n.i for n in g.nodes if n.k == "del" and n.ev[0] == H}
            nul = {n.i for n in g.nodes if n.k == "set" and n.ev[0] == H and num(prog, n.ev[2]) == 0}
            c.judge(bool(dels) and all(L.dom(d, use) for d in dels) and all(L.post(u, dels) for u in use) and not any(L.path(L.succs(d), use, ()) for d in dels), "annotator freed", "%s: deInit does not destroy() the annotator and then delete it, once, on every path" % f.loc())
            c.judge(bool(nul) and all(L.post(d, nul) for d in dels), "annotator forgotten", "%s: deInit leaves a pointer to the deleted annotator: it would be destroyed again" % f.loc())
        if m == "init":
            ctx = {n.i for n in g.nodes if n.k == "call" and last(n.ev[0] or "") == "setAnnotatorContext" and n.ev[2] == H}
            L = Loops(g)
            c.judge(bool(ctx) and all(L.dom(n.i, ctx) for n in g.nodes if n.k == "call" and n.ev[0] in uq), "context", "%s: the annotator is initialized before it knows its context" % f.loc())

def primitive(prog, c):
    A = ("f", ("this",), PE + "::iv_pAnnotator")
    f = one(prog, PE + "::initializeImpl")[0]; c.fn(f)
    inl = lambda t, fr: t.cls == PE and t.u != f.u and t.name not in ("destroyImpl",) or t.cls == AP and t.name in ("isLoadedDelayed",)
    g = Graph(prog, f, inline=inl, depth=3, eh="all", thrown="uima::Exception")
    steps = ["load", "init", "typeSystemInit"]
    pick = lambda n, env: last(n.ev[0]) if n.ev[0] and n.ev[0].startswith(AP + "::") and last(n.ev[0]) in steps + ["deInit", "processDocument", "reConfig"] else None
    for fail in [None] + steps:
        o = Oracle(prog, fail=AP + "::" + fail if fail else None)
        for thr, res, tr, env in outcome(AI(g, o, {}).run(recorder(pick))):
            want = tuple(steps[:steps.index(fail) + 1]) if fail else tuple(steps)
            okr = res == (BAD if fail else 0)
            c.judge(thr or tr == want, "set up order|%s" % fail, "%s: a primitive engine%s goes through %s instead of %s" % (f.loc(), " whose step %s fails" % fail if fail else "", list(tr), list(want)), "%s then result" % "/".join(want))
            c.judge(thr or okr, "set up result|%s" % fail, "%s: a primitive engine%s returns %s" % (f.loc(), " whose step %s fails" % fail if fail else "", res))
            c.count("set up outcomes")
    f = one(prog, PE + "::destroyImpl")[0]; c.fn(f)
    g = Graph(prog, f, inline=lambda t, fr: t.cls == PE and t.u != f.u or t.cls == AP and t.name == "isInitialized", depth=3); L = Loops(g)
    ptrs = [x["n"] for x in prog.classes[PE]["fields"] if x["t"].rstrip().endswith("*")]
    if len(ptrs) < 2: raise AnalysisBroken("members of PrimitiveEngine not found")
    for x in ptrs:
        P = ("f", ("this",), PE + "::" + x)
        dels = {n.i for n in g.nodes if n.k == "del" and n.ev[0] == P}
        nul = {n.i for n in g.nodes if n.k == "set" and n.ev[0] == P and num(prog, n.ev[2]) == 0}
        c.judge(bool(dels) and bool(nul) and all(L.post(d, nul) for d in dels), "released|" + x, "%s: destroyImpl does not delete %s and set it to null" % (f.loc(), x))
        ai = AI(g, Oracle(prog), {P: "obj"})
        ai.o.truth = lambda v: True
        ai.o.cmp = lambda op, a, b: (op == "!=") if {a, b} == {"obj", 0} else None
        for thr, res, tr, env in outcome(ai.run(recorder(lambda n, env: None))):
            c.judge(thr or env.get(P) == 0, "released always|" + x, "%s: destroyImpl can end without having deleted %s" % (f.loc(), x))
    de = {n.i for n in g.nodes if n.k == "call" and n.ev[0] == AP + "::deInit" and n.ev[2] == A}
    dl = {n.i for n in g.nodes if n.k == "del" and n.ev[0] == A}
    o = Oracle(prog); o.truth = lambda v: True; o.cmp = lambda op, a, b: (op == "!=") if {a, b} == {"obj", 0} else None
    hu = [n.ev[0] for n in g.nodes if False]
    U = ("f", A, AP + "::iv_hUserData")
    for fail in (None, AP + "::deInit"):
        o.fail = fail
        for thr, res, tr, env in outcome(AI(g, o, {A: "obj", U: "obj"}).run(recorder(lambda n, env: "deInit" if n.i in de else None))):
            c.judge(thr or tr == ("deInit",), "deinitialized", "%s: an initialized annotator is deleted without deInit" % f.loc())
            c.judge(thr or res == (BAD if fail else 0), "destroy result", "%s: destroyImpl returns %s although deInit returned %s" % (f.loc(), res, BAD if fail else 0))
    c.judge(not any(L.path(L.succs(d), de, ()) for d in dl), "deinit first", "%s: the annotator is used after it was deleted" % f.loc())
    # processing
    f = one(prog, PE + "::processImpl")[0]; c.fn(f)
    g = Graph(prog, f, inline=lambda t, fr: t.cls == PE and t.u != f.u, depth=3, eh="all", thrown="uima::Exception")
    PD = AP + "::processDocument"
    pick = lambda n, env: last(n.ev[0]) if n.ev[0] == PD or (n.ev[0] or "").startswith(AP + "::") and last(n.ev[0]) in ("init", "deInit", "reConfig", "batchProcessComplete", "collectionProcessComplete") else None
    FIXED = enumv(prog, "uima::FlowConstraints::", "FIXED")
    for what, ids in (("a delegate engine", {"isTopLevelEngine": 0}), ("an engine without flow constraints", {"getFlowConstraints": 0}), ("an engine with a fixed flow", {"getFlowConstraintsType": FIXED, "getFlowConstraints": "flow"}), ("any engine", {})):
        if None in ids.values(): continue
        for val in (0, BAD):
            o = Oracle(prog)
            def call(f2, args, rec, ids=ids, val=val):
                if f2[1] == PD: return val
                if last(f2[1] or "") in ids: return ids[last(f2[1])]
                return None
            o.call = call; o.truth = lambda v: True; o.cmp = lambda op, a, b: (op == "!=") if {a, b} == {"flow", 0} else None
            for thr, res, tr, env in outcome(AI(g, o, {}).run(recorder(pick))):
                if what != "any engine": c.judge(thr or tr == ("processDocument",), "processed|%s" % what, "%s: processImpl of %s calls %s of the annotator instead of exactly processDocument" % (f.loc(), what, list(tr) or "nothing"), "%s processes" % what)
                else: c.judge(thr or len(tr) <= 1, "processed once", "%s: processImpl can process a document more than once" % f.loc())
                if tr: c.judge(thr or res == val, "process result", "%s: processImpl returns %s although the annotator returned %d" % (f.loc(), res, val))
                c.count("processing outcomes")
            o.throws = lambda n: n.k == "throw" or n.k == "call" and n.ev[0] == PD
            for thr, res, tr, env in outcome(AI(g, o, {}).run(recorder(pick))):
                if tr: c.judge(thr or res == val and what != "x" or isinstance(res, int) and res != 0, "process exception", "%s: processImpl returns %s after an exception of the annotator" % (f.loc(), res))
    # the cas the annotator sees knows the component it is used by
    L = Loops(g)
    link = {n.i for n in g.nodes if n.k == "call" and last(n.ev[0] or "") == "setCurrentComponentInfo"}
    c.judge(bool(link) and all(L.dom(n.i, link) for n in g.nodes if n.k == "call" and n.ev[0] == PD), "component info", "%s: the annotator is called with a CAS that does not know the component's context (sofa mappings)" % f.loc())
    for op, px in (("reconfigureImpl", "reConfig"), ("batchProcessCompleteImpl", "batchProcessComplete"), ("collectionProcessCompleteImpl", "collectionProcessComplete"), ("hasNextImpl", "hasNext"),
                   ("nextImpl", "next"), ("getCasInstancesRequiredImpl", "getCasInstancesRequired"), ("typeSystemInitImpl", "typeSystemInit")):
        f = one(prog, PE + "::" + op)[0]; c.fn(f)
        g = Graph(prog, f, inline=lambda t, fr: t.cls == PE and t.u != f.u, depth=2)
        for val in (0, 1):
            o = Oracle(prog); o.ids = {AP + "::" + px: val}
            for thr, res, tr, env in outcome(AI(g, o, {}).run(recorder(lambda n, env: last(n.ev[0]) if (n.ev[0] or "").startswith(AP + "::") and n.ev[2] == A and last(n.ev[0]) not in ("getSymbolicName", "isValid") else None))):
                c.judge(thr or tr == (px,), "primitive|" + op, "%s: %s calls %s of the annotator instead of exactly %s" % (f.loc(), f.q, list(tr) or "nothing", px), "%s -> %s" % (op, px))
                if op != "nextImpl": c.judge(thr or res == val, "primitive result|" + op, "%s: %s returns %s although %s returned %d" % (f.loc(), f.q, res, px, val))

def backwards(prog, L, lp):
    """for (i = v.size(); i > 0; --i)  or  while (i-- > 0)"""
    from checks.c12 import descending
    return descending(prog, L, lp)

DELEG = {"reconfigureImpl": "reconfigure", "batchProcessCompleteImpl": "batchProcessComplete", "collectionProcessCompleteImpl": "collectionProcessComplete",
         "reinitTypeSystemImpl": "reinitTypeSystem", "destroyImpl": "destroy", "processImpl": "process"}
LIFE = set(DELEG.values()) | {"initialize", "hasNext", "next", "processAndOutputNewCASes"}

def aggregate(prog, c):
    V = ("f", None, AM + "::iv_vecEntries")
    ENG = {"uima::AnalysisEngine", EB}
    for op, m in sorted(DELEG.items()):
        f = one(prog, AE + "::" + op)[0]; c.fn(f)
        g = Graph(prog, f, inline=lambda t, fr: t.cls in (AE, AM) and t.u != f.u, depth=4); L = Loops(g)
        cs = [n for n in g.nodes if n.i in L.live and n.k == "call" and n.ev[0] and n.ev[0].rsplit("::", 1)[0] in ENG and last(n.ev[0]) in LIFE]
        for n in cs:
            c.judge(last(n.ev[0]) == m, "delegates|%s" % op, "%s: %s of an aggregate calls %s of its delegates instead of %s" % (n.loc(), op, last(n.ev[0]), m))
        cs = [n for n in cs if last(n.ev[0]) == m]
        if not cs: c.bad("delegates|" + op, "%s: %s of an aggregate does not reach %s of its delegates" % (f.loc(), op, m)); continue
        lps = {id(L.innermost(n)): L.innermost(n) for n in cs}
        # an inner loop within the flow loop does not hold the call
        if len(lps) != 1 or None in lps.values(): c.bad("flow|" + op, "%s: %s of the delegates is not called in one loop over them" % (f.loc(), m)); continue
        lp = list(lps.values())[0]; it = L.iteration(lp)
        early = [x for x in it.early]
        if op == "destroyImpl":
            full = it.reverse() or backwards(prog, L, lp)
            c.judge(full, "reverse|destroy", "%s: the delegates are not destroyed one by one in reverse order (%s)" % (lp_loc(g, lp), it.why() if it.kind else "unrecognised loop"), "destroy in reverse order")
        else:
            if op == "processImpl":
                # giving up with an error is permitted
                it.early = [x for x in it.early if not failing(prog, g, L, x)]
            full = it.full()
            c.judge(full, "every delegate|" + op, "%s: %s is not called for every delegate in flow order: %s" % (lp_loc(g, lp), m, it.why()), "%s of every delegate" % m)
        ns = {n.i for n in cs}
        again = [n for n in ns if L.path(L.succs(n), ns, [lp.head], within=lp.body)]
        c.judge(not again, "delegate once|" + op, "%s: %s can be called twice for the same delegate" % (lp_loc(g, lp), m))
        if op == "destroyImpl":
            # already destroyed delegates are skipped, no others
            lab = uninit(prog, g, L, lp, ns)
            c.judge(lab, "delegate skipped|destroy", "%s: a delegate that is initialized can be skipped by destroy" % lp_loc(g, lp))
        elif op != "processImpl":
            c.judge(not L.cycle_avoids(lp, ns), "delegate skipped|" + op, "%s: a delegate can be skipped by %s" % (lp_loc(g, lp), m))
        for n in cs:
            okv = it.kind is None or elementof(g, n.ev[2], it)
            c.judge(okv, "which delegate|" + op, "%s: %s is not called on the delegate the loop has reached" % (n.loc(), m))
        c.count("delegated operations")
        # init forwards
    f = one(prog, AE + "::processImpl")[0]
    flows(prog, c, f)
    launch(prog, c)
    teardown(prog, c)

def lp_loc(g, lp):
    n = min((g.nodes[i] for i in lp.body if g.nodes[i].nid is not None), key=lambda n: (n.fr.depth if hasattr(n.fr, "depth") else 0, n.i), default=None)
    return n.loc() if n is not None else g.root.loc()

def failing(prog, g, L, x):
    """leaving a loop by that edge ends in a return of a non-zero constant"""
    n, t, l, cnd = x
    ai = AI(g, Oracle(prog), {})
    out = ai.run(start=t.i)
    return bool(out) and all(o.k == "texit" or isinstance(e.get(("result",)), int) and e[("result",)] != 0 for o, e in out)

def elementof(g, obj, it):
    """the object of the call is the engine of the current entry"""
    seen = set()
    def ok(f, d=0):
        if f is None or d > 6: return False
        for s in subforms(f):
            if isinstance(s, tuple) and s:
                if it.iselem(s): return True
                if s[0] == "idx" and s[2] is not None and it.var is not None and contains(s[2], it.var): return True
        for s in subforms(f):
            if isinstance(s, tuple) and s and s[0] == "var" and s not in seen:
                seen.add(s)
                for n in g.nodes:
                    if n.k == "set" and n.ev[0] == s and n.i in it.lp.body and ok(n.ev[2], d + 1): return True
        return False
    return ok(obj)

def uninit(prog, g, L, lp, ns):
    """a round without the call is one whose delegate is not initialized"""
    o = Oracle(prog)
    bad = []
    o.call = lambda f, args, rec: 1 if last(f[1] or "") == "isInitialized" else None
    ai = AI(g, o, {("hit",): 0})
    def visit(n, env):
        if n.i == lp.head:
            if env.get(("hit",)) == 2: bad.append(n)
            env[("hit",)] = 2; return env
        if n.i in ns: env[("hit",)] = 1; return env
        return None
    # a round that really was one: passes the loop's element step
    it = L.iteration(lp)
    ai.run(visit)
    return not bad

def flows(prog, c, f):
    """with a fixed flow no delegate is skipped"""
    g = Graph(prog, f, inline=lambda t, fr: t.cls in (AE, AM) and t.name not in ("shouldEngineBeCalled",) and t.u != f.u, depth=4); L = Loops(g)
    ns = {n.i for n in g.nodes if n.i in L.live and n.k == "call" and n.ev[0] and n.ev[0].rsplit("::", 1)[0] in ("uima::AnalysisEngine", EB) and last(n.ev[0]) == "process"}
    lp = L.innermost(g.nodes[min(ns)])
    FIXED = enumv(prog, "uima::FlowConstraints::", "FIXED")
    o = Oracle(prog); bad = []
    def call(f2, args, rec):
        if last(f2[1] or "") == "getFlowConstraintsType": return FIXED
        if f2[1] and f2[1].rsplit("::", 1)[0] in ("uima::AnalysisEngine", EB) and last(f2[1]) == "process": return 0
        return None
    o.call = call
    ai = AI(g, o, {("hit",): 0})
    it = L.iteration(lp)
    def visit(n, env):
        if n.i in ns:
            if env.get(("hit",)) == 1: bad.append(("twice", n))
            env[("hit",)] = 1; return env
        if n.i in it.stepnodes:
            if env.get(("hit",)) == 0: bad.append(("skipped", n))
            env[("hit",)] = 0; return env
        return None
    ai.run(visit)
    c.judge(not bad, "fixed flow", "%s: with a fixed flow a delegate can be %s" % (lp_loc(g, lp), bad[0][0] if bad else ""), "fixed flow calls every delegate")

def launch(prog, c):
    """delegates are created in flow order, registered, and creation stops at the first error"""
    f = one(prog, AM + "::launchInit")[0]; c.fn(f)
    g = Graph(prog, f, inline=lambda t, fr: t.cls == AM and t.u != f.u, depth=2); L = Loops(g)
    cs = [n for n in g.nodes if n.i in L.live and n.k == "call" and last(n.ev[0] or "") == "createAnalysisEngine"]
    if not cs: c.bad("launch", "%s: launchInit creates no delegates" % f.loc()); return
    lp = L.innermost(cs[0])
    if lp is None: c.bad("launch", "%s: launchInit does not create one delegate per flow entry" % f.loc()); return
    it = L.iteration(lp)
    it.early = [x for x in it.early if not nonzero(prog, g, L, lp, x)]
    c.judge(it.full() and "getNodes" in str(it.cont) and "getFlowConstraints" in str(it.cont), "launch order", "%s: delegates are not created one by one in the order of the flow: %s" % (lp_loc(g, lp), it.why()), "delegates created in flow order")
    ns = {n.i for n in cs}
    c.judge(not L.cycle_avoids(lp, ns), "launch all", "%s: a delegate of the flow can be left out" % lp_loc(g, lp))
    ins = {n.i for n in g.nodes if n.i in lp.body and n.k == "call" and n.ev[2] is not None and n.ev[2][0] == "f" and n.ev[2][2] == AM + "::iv_vecEntries" and last(n.ev[0] or "") in ("insert", "push_back", "emplace_back")}
    c.judge(bool(ins) and not any(L.path(L.succs(n), [lp.head], ins, within=lp.body) for n in ns), "launch registered", "%s: a delegate can be created without being registered: it would never be processed or destroyed" % lp_loc(g, lp))
    for i in ins:
        n = g.nodes[i]
        if last(n.ev[0]) == "insert": c.judge(any(isinstance(x, tuple) and x[0] == "call" and last(x[1]) in ("end", "cend") for a in n.ev[3][:1] for x in subforms(unconv(a)) if isinstance(x, tuple) and x and x[0] == "call"), "launch appended", "%s: delegates are not kept in flow order" % n.loc())
    # between creating a delegate and registering it nothing can fail
    ge = Graph(prog, f, inline=lambda t, fr: t.cls == AM and t.u != f.u, depth=2, eh="all", thrown="uima::Exception"); Le = Loops(ge)
    mk = [n.i for n in ge.nodes if n.k == "call" and last(n.ev[0] or "") == "createAnalysisEngine"]
    reg = [n.i for n in ge.nodes if n.k == "call" and n.ev[2] is not None and n.ev[2][0] == "f" and n.ev[2][2] == AM + "::iv_vecEntries" and last(n.ev[0] or "") in ("insert", "push_back", "emplace_back")]
    risky = [n for n in ge.nodes if n.k == "call" and last(n.ev[0] or "") == "init" and "CapabilityContainer" in n.ev[0]]
    for n in risky:
        c.judge(bool(reg) and Le.dom(n.i, set(reg), None), "registered first", "%s: when this fails the delegate that was just created is neither destroyed nor deleted" % n.loc())

def nonzero(prog, g, L, lp, x):
    """the loop is left by a return of a value known to be an error"""
    n, t, l, cnd = x
    rs = [m for m in g.nodes if m.k == "ret" and (m.i == t.i or L.path([t.i], [m.i])) and m.fr is g.frame or m.k == "ret" and L.path([t.i], [m.i])]
    if not rs: return True
    if cnd is None: return False
    for m in rs:
        v = m.ev[0]
        if v is None: return False
        if v[0] == "int" and v[1] != 0: continue
        h = cnd
        if h[0] == "cmp" and h[1] == "!=" and (h[2] == v or h[3] == v) and 0 in (num(prog, h[2]), num(prog, h[3])): continue
        return False
    return True

def teardown(prog, c):
    """launchDeInit deletes every delegate and its capability container once and forgets them"""
    f = one(prog, AM + "::launchDeInit")[0]; c.fn(f)
    g = Graph(prog, f, inline=lambda t, fr: t.cls == AM and t.u != f.u, depth=2); L = Loops(g)
    ent = [x["n"] for q in prog.classes if q.startswith(AM + "::") for x in prog.classes[q]["fields"] if x["t"].rstrip().endswith("*")]
    if len(ent) < 2: raise AnalysisBroken("entries of the annotator manager not found")
    dels = [n for n in g.nodes if n.i in L.live and n.k == "del"]
    for x in ent:
        ds = [n for n in dels if n.ev[0] is not None and reaches(g, n.ev[0], x)]
        okd = False
        for lp in {id(L.innermost(n)): L.innermost(n) for n in ds}.values():
            if lp is None: continue
            it = L.iteration(lp); ns = {n.i for n in ds if n.i in lp.body}
            if (it.full() or it.reverse() or backwards(prog, L, lp)) and not L.cycle_avoids(lp, ns): okd = True
        c.judge(okd and len(ds) == 1, "deleted|" + x, "%s: launchDeInit does not delete %s of every entry exactly once" % (f.loc(), x), "%s deleted" % x)
    des = [n.i for n in g.nodes if n.i in L.live and n.k == "call" and last(n.ev[0] or "") == "destroy"]
    c.judge(not any(L.path(L.succs(n.i), des, ()) for n in dels), "destroy before delete", "%s: a delegate is deleted while another one has not been destroyed yet" % f.loc())
    clr = {n.i for n in g.nodes if n.i in L.live and n.k == "call" and last(n.ev[0] or "") == "clear" and n.ev[2] is not None and n.ev[2][0] == "f" and n.ev[2][2] == AM + "::iv_vecEntries"}
    c.judge(bool(clr) and L.dom(g.exit.i, clr) and not any(L.path(L.succs(x), [n.i for n in dels], ()) for x in clr), "entries cleared", "%s: launchDeInit can end with entries that point to deleted delegates" % f.loc())
    f = [x for x in prog.fns.values() if x.cls == AM and x.d.get("kind") == "dtor" and x.blocks][0]
    g = Graph(prog, f); L = Loops(g)
    call = {n.i for n in g.nodes if n.k == "call" and n.ev[0] == AM + "::launchDeInit"}
    o = Oracle(prog); o.call = lambda f2, a, rec: 0 if last(f2[1] or "") == "empty" else None
    bad = [1 for thr, res, tr, env in outcome(AI(g, o, {}).run(recorder(lambda n, env: 1 if n.i in call else None))) if not tr]
    c.judge(bool(call) and not bad, "manager destructor", "%s: the destructor of the annotator manager can leave delegates behind" % f.loc())

def reaches(g, f, field, d=0):
    if d > 5 or f is None: return False
    for s in subforms(f):
        if isinstance(s, tuple) and s and s[0] == "f" and last(s[2]) == field: return True
    if f[0] == "var":
        return any(n.k == "set" and n.ev[0] == f and n.ev[2] is not None and n.ev[2] != f and reaches(g, n.ev[2], field, d + 1) for n in g.nodes)
    return False

def run(prog, c):
    c.rule("EngineBase: abstract interpretation of every method from every engine state with every callee result and exception: Impl methods only in the permitted state, once, result handed on, defined end state")
    c.rule("PrimitiveEngine/AnnotatorProxy/AggregateEngine/AnnotatorManager: each operation reaches the same operation of the annotator / of every delegate, exactly once, in flow order (destroy: reverse)")
    S, impl = lifecycle(prog, c)
    forwarding(prog, c, S, impl)
    destructors(prog, c)
    proxies(prog, c)
    primitive(prog, c)
    aggregate(prog, c)
    c.floor("gated calls", 20); c.floor("delegated operations", 6); c.floor("proxy outcomes", 20)

if __name__ == "__main__": check.main("C14", run)
