"""C24: instances used in different threads share no mutable state; logging and the resource cache are locked."""
import re
from .common import *

LIB = ("src/framework/", "src/cas/", "src/jni/")
RM = "uima::ResourceManager"
SETUP = {RM + "::createInstance", RM + "::deleteInstance", RM + "::ResourceManager", RM + "::~ResourceManager"}
# process-wide by their documentation: variable -> the functions that set it up
OWNERS = {
    RM + "::cv_pclSingletonInstance": SETUP | {RM + "::getInstance", RM + "::hasInstance"},
    "uima::ErrorInfo::cv_cpszContextPrefix": {"uima::ErrorInfo::setGlobalErrorInfoContextPrefix"},
    "uima::ErrorInfo::cv_cpszIndent": {"uima::ErrorInfo::setGlobalErrorInfoIndent"},
    "logPool": {"uima::LogFacility::LogFacility"}, "logMutex": {"uima::LogFacility::LogFacility"},
    "singleton_jni_logger": {"Java_org_apache_uima_uimacpp_UimacppEngine_constructorJNI"},
}
STATICBUF = {"strtok", "localtime", "gmtime", "asctime", "ctime", "strerror", "tmpnam", "getpwuid", "getpwnam", "getgrgid", "getgrnam", "gethostbyname", "inet_ntoa", "rand", "srand", "drand48", "random", "ttyname", "setlocale", "putenv",
             "setenv", "unsetenv", "chdir", "umask", "apr_env_set", "apr_env_delete", "apr_filepath_set", "ucnv_setDefaultName", "uloc_setDefault", "u_setDataDirectory", "mblen", "mbtowc", "wctomb", "ecvt", "fcvt", "gcvt", "basename", "dirname"}
READS = {"find", "begin", "end", "rbegin", "rend", "size", "length", "empty", "c_str", "data", "count", "at", "get", "front", "back", "lower_bound", "upper_bound", "getBuffer"}
STREAM = re.compile(r"^std::(basic_)?(ostream|istream|iostream|ios)\b|^std::basic_[io]stream<")
LOCK, UNLOCK = {"apr_thread_mutex_lock", "pthread_mutex_lock"}, {"apr_thread_mutex_unlock", "pthread_mutex_unlock"}
GUARDS = ("std::lock_guard", "std::unique_lock", "std::scoped_lock")
SETNAMES = re.compile(r"::(register|deRegister|unregister|set|enable)[A-Z]\w*$")

def last(q): return (q or "").rsplit("::", 1)[-1]

def root(f):
    while f is not None and f:
        if f[0] in ("f", "idx"): f = f[1]
        elif f[0] == "call" and f[2] is not None: f = f[2]
        elif f[0] == "op" and len(f) == 4 and f[1] in ("+", "-"): f = f[2]      # pointer into an array
        elif f[0] == "ite": return root(f[2]) or root(f[3])
        else: break
    return f

def mutparam(t):
    t = re.sub(r"\b(const|__restrict)$", "", re.sub(r"\b__restrict$", "", t.strip()).strip()).strip()
    if not t.endswith(("*", "&")): return False
    b = t[:-1].strip()
    if b.startswith("const ") and not b.endswith("*"): return False
    if b.startswith("const ") and b.endswith("*") and t.endswith("*"): return True     # T const ** : the pointer may change
    return not re.search(r"\bconst$", b)

def written(g, v):
    """is anything changed through the pointer v?"""
    for n in g.nodes:
        if n.k == "set" and n.ev[0] is not None and n.ev[0] != v and root(n.ev[0]) == v: return True
        if n.k == "set" and n.ev[0] == v and g.prog is not None and n.nid is not None:
            m = n.fr.fn.nodes[n.nid]
            l = n.fr.fn.nodes[n.fr.fn.strip(m["a"][0])] if m.get("k") == "asg" else None
            if l is not None and l.get("k") in ("un", "idx") and l.get("op", "*") == "*": return True     # *p++ = x
        if n.k == "call":
            for a, t in zip(n.ev[3], split_sig(n.ev[1])[0] if n.ev[1] else ()):
                if a is not None and root(a) == v and mutparam(t): return True
    return False

def isguard(prog, q):
    """a constructor that takes a lock its class's destructor gives back"""
    if q is None: return False
    cls = q.rsplit("::", 1)[0]
    if cls.startswith(GUARDS): return True
    memo = prog.__dict__.setdefault("_guards", {})
    if cls not in memo:
        cl = [f for f in prog.fns.values() if f.cls == cls]
        has = lambda kind, names: any(n["k"] == "call" and last(n.get("fn")) in names for f in cl if f.d.get("kind") == kind for n in f.nodes)
        memo[cls] = bool(cl) and has("ctor", LOCK) and has("dtor", UNLOCK)
    return memo[cls]

def helpers(prog):
    """functions that only take, or only give back, a lock: (u of lockers, u of unlockers)"""
    if "_lockhelpers" not in prog.__dict__:
        lk, ul = set(), set()
        for f in prog.fns.values():
            if not f.blocks or f.d.get("kind") in ("ctor", "dtor") or not f.file.startswith(LIB): continue
            names = {last(n.get("fn")) for n in f.nodes if n and n["k"] == "call" and n.get("fn")}
            if any(n["k"] == "call" and re.search(r"Logger::log$", n.get("fn") or "") for n in f.nodes if n) or not prog.callers().get(f.u): continue
            if names & LOCK and not names & UNLOCK: lk.add(f.u)
            elif names & UNLOCK and not names & LOCK: ul.add(f.u)
        prog.__dict__["_lockhelpers"] = (lk, ul)
    return prog.__dict__["_lockhelpers"]

def onlyfrom(prog, f, names, seen=()):
    """f is one of these functions, or a helper called by nothing but them"""
    if f.q in names or f.q.split("<")[0] in names: return True
    if f.u in seen: return True
    cs = [x for x, i in prog.callers().get(f.u, ())]
    return bool(cs) and all(onlyfrom(prog, x, names, seen + (f.u,)) for x in cs)

def alwaysheld(prog, f, seen=()):
    """a helper whose every call in the program is made with a lock held"""
    if f.u in seen: return True
    cs = {x.u: x for x, i in prog.callers().get(f.u, ())}
    if not cs or f.d.get("virtual"): return False
    for x in cs.values():
        g, at = locked(prog, x)
        hit = [n for n in g.nodes if n.k in ("call", "ctor") and n.ev[1] and any(t.u == f.u for t in prog.targets(n.ev[1], n.ev[4]))]
        if not hit or any("" in at.get(n.i, ()) for n in hit) and not alwaysheld(prog, x, seen + (f.u,)): return False
    return True

def locked(prog, f):
    memo = prog.__dict__.setdefault("_locked", {})
    if f.u not in memo: memo[f.u] = locked1(prog, f)
    return memo[f.u]

def locked1(prog, f):
    """lock states of every node: node -> set of ('', 'L' held, 'G' held by a guard object); states at the ends"""
    lk, ul = helpers(prog)
    g = Graph(prog, f, inline=lambda t, fr: False, depth=1, eh="all")
    at, todo = {g.entry.i: {""}}, [(g.entry, "")]
    while todo:
        n, s = todo.pop()
        o = s
        if n.k == "call" and n.ev[0]:
            nm = last(n.ev[0])
            if nm in LOCK or n.ev[1] in lk: o = "L"
            elif nm in UNLOCK or n.ev[1] in ul: o = "" if s != "G" else s
            elif isguard(prog, n.ev[0]) and "::~" not in n.ev[0]: o = "G"
        elif n.k == "dtor" and n.ev and isguard(prog, n.ev[0]): o = ""
        for t, l in n.succ:
            eh = l is not None and l[0] == "eh"
            if eh and n.k == "call" and n.ev[0] and ("::" not in n.ev[0] or n.ev[1] in lk or n.ev[1] in ul): continue      # C functions do not throw
            x = s if eh and n.k == "call" else o
            if x not in at.setdefault(t.i, set()): at[t.i].add(x); todo.append((t, x))
    return g, at

def run(prog, c):
    c.rule("outside the documented process-wide setup no function changes, passes on to be changed, or gives out for change a namespace-scope variable, static member or function-local static that is not thread_local")
    c.rule("no function outside the setup calls a C or ICU function that keeps its result in static memory or changes process-wide settings")
    c.rule("loggers are called, and the resource manager's members changed after its creation, only with a lock held; a lock taken is given back on every way out")
    gv, sl = {}, {}
    for v in prog.raw["vars"]:
        if v.get("file", "").startswith(LIB):
            if v.get("local"): sl.setdefault((v["file"], last(v["q"])), []).append(v)
            gv.setdefault(v["q"], []).append(v)
    mut = {q for q, vs in gv.items() if not all(v.get("tls") for v in vs)}
    if len(gv) < 100: raise AnalysisBroken("global variables not found")
    c.count("globals", len(gv))
    fns = [f for f in prog.fns.values() if f.blocks and f.file.startswith(LIB)]
    c.count("functions_scanned", len(fns))
    stream = lambda vs: any(STREAM.match((v.get("t") or "").replace("const ", "")) for v in vs)
    def vinfo(q, f):
        if q.rpartition("::")[0] == f.q: return sl.get((f.file, last(q)), ())
        return gv.get(q, ())
    bad = set()
    def report(kind, f, q, n, msg):
        k = "%s|%s|%s" % (kind, f.q, q)
        if k not in bad: bad.add(k); c.bad(k, "%s: %s %s" % (n.loc() if n is not None else f.loc(), f.q, msg))
    graphs = {}
    used = {}
    for f in fns:
        g = graphs[f.u] = Graph(prog, f, inline=lambda t, fr: False, depth=1)
        c.fn(f)
        types = {v["id"]: v["t"] for m in f.nodes if m and m.get("k") == "decl" for v in m["vars"]}
        rett = (f.d.get("rett") or "").strip()
        def touch(form, n, what):
            r = root(form)
            if r is None or r[0] != "g": return
            vs = vinfo(r[1], f)
            if not vs or all(v.get("tls") for v in vs) or stream(vs): return
            used.setdefault(r[1], set()).add(f.q)
            if r[1] in OWNERS and onlyfrom(prog, f, OWNERS[r[1]]): return
            report("shared", f, r[1], n, "%s %s, which all threads share" % (what, show(form)[:70]))
        def const(form):
            r = root(form)
            return r is not None and r[0] == "g" and r == form and all(v.get("const") for v in vinfo(r[1], f))
        for n in g.nodes:
            if n.k == "set" and n.ev[0] is not None and n.ev[0][0] != "var": touch(n.ev[0], n, "changes")
            elif n.k == "set" and n.ev[1] == "=" and n.ev[2] is not None and mutparam(types.get(n.ev[0][2], "")):
                r = root(n.ev[2])                                       # a local that may change what it points to
                if r is not None and r[0] == "g" and (r == n.ev[2] or n.ev[2][0] == "op") and any("[" in (v.get("t") or "") for v in vinfo(r[1], f)) and not all(v.get("const") for v in vinfo(r[1], f)) and written(g, n.ev[0]): touch(n.ev[2], n, "changes, through %s," % n.ev[0][3])
            elif n.k == "del" and n.ev[0] is not None: touch(n.ev[0], n, "deletes")
            elif n.k == "call":
                q, u, obj, args, *_ = n.ev
                nm = re.sub(r"_\d+$", "", last(q))
                if q and ("::" not in q or q.startswith("std::")) and nm in STATICBUF and not onlyfrom(prog, f, SETUP) and f.file.startswith(LIB):
                    report("static", f, nm, n, "calls %s, which works on memory or settings all threads share" % nm)
                sig = split_sig(u) if u else ((), "")
                if obj is not None and u and not sig[1].strip().startswith("const") and nm not in READS and obj[0] != "ctor":
                    r = root(obj)
                    if r is not None and r[0] == "g" and not const(obj):
                        # a method called through a pointer changes what it points to: the singleton's own methods are judged below
                        if not (r[1] == RM + "::cv_pclSingletonInstance" and (q or "").startswith(RM + "::")): touch(obj, n, "calls %s on" % nm)
                if nm in LOCK | UNLOCK: continue
                for a, t in zip(args, sig[0]):
                    if a is not None and mutparam(t) and not const(a) and not (a[0] == "g" and any("*" in (v.get("t") or "") and "[" not in (v.get("t") or "") for v in vinfo(a[1], f)) and not re.sub(r"\bconst$", "", t.strip()).strip().endswith(("&", "**"))): touch(a, n, "hands to %s" % nm)
            elif n.k == "ret" and n.ev and n.ev[0] is not None and mutparam(rett) and not (n.ev[0][0] == "g" and const(n.ev[0])):
                r = root(n.ev[0])
                if r is not None and r[0] == "g" and r == n.ev[0]: touch(n.ev[0], n, "gives out")
    for q in sorted(mut):
        if not any(k.endswith("|" + q) for k in bad): c.ok("shared|" + q)
    # ---- logging
    logs = {f.q for f in prog.fns.values() if f.name == "log" and f.cls and f.file.startswith(LIB)} | {"uima::Logger::log"}
    lk, ul = helpers(prog)
    def takeslock(f): return any(n["k"] == "call" and (last(n.get("fn")) in LOCK or n.get("u") in lk) or n["k"] == "ctor" and isguard(prog, (n.get("cls") or "") + "::x") and not (n.get("cls") or "").startswith("std::") for n in f.nodes)
    nlock = nlog = 0
    for f in fns:
        takes = takeslock(f)
        calls = [n for n in graphs[f.u].nodes if n.k == "call" and n.ev[0] in logs and n.ev[2] is not None and n.ev[2] != ("this",)]
        calls = [n for n in calls if n.ev[0] != "uima::LogStream::log" and re.search(r"Logger::log$", n.ev[0])]
        if not takes and not calls: continue
        if f.d.get("kind") in ("ctor", "dtor") and takes and not calls: continue      # a guard class
        g, at = locked(prog, f)
        if takes and f.u not in lk:
            nlock += 1
            held = [w for w, x in (("returns", g.exit), ("ends with an exception", g.texit)) if "L" in at.get(x.i, ())]
            c.judge(not held, "released|" + f.q, "%s: %s %s with the lock held" % (f.loc(), f.q, " or ".join(held)), "the lock taken in %s is given back" % f.q)
        if calls:
            nlog += 1
            un = [n for n in g.nodes if n.k == "call" and n.ev[0] in logs and n.ev[2] is not None and re.search(r"Logger::log$", n.ev[0]) and "" in at.get(n.i, ())]
            if un and alwaysheld(prog, f): un = []
            c.judge(not un, "logger|" + f.q, "%s: %s calls a logger without the lock" % (un[0].loc() if un else f.loc(), f.q), "loggers called from %s under the lock" % f.q)
    # the last error of a facility: the framework's own facility is used by all threads
    LAST = ("uima::LogFacility::iv_strLastError", "uima::LogFacility::iv_lLastUserCode", "uima::LogFacility::iv_errInfo")
    nlast = 0
    for f in fns:
        if f.cls != "uima::LogFacility" or f.d.get("kind") in ("ctor", "dtor") or f.name.startswith("getLastError"): continue
        def last_error(n):
            if n.k == "set": return n.ev[0] is not None and n.ev[0][0] == "f" and n.ev[0][2] in LAST
            return n.k == "call" and n.ev[2] is not None and n.ev[2][0] == "f" and n.ev[2][2] in LAST and n.ev[1] and not split_sig(n.ev[1])[1].strip().startswith("const") and last(n.ev[0]) not in READS
        if not any(last_error(n) for n in graphs[f.u].nodes): continue
        nlast += 1
        g, at = locked(prog, f)
        un = [n for n in g.nodes if last_error(n) and "" in at.get(n.i, ())]
        if un and alwaysheld(prog, f): un = []
        c.judge(not un, "last error|%s|%s" % (f.q, ",".join(p["t"] for p in f.params)), "%s: %s changes the facility's last error without the lock" % (un[0].loc() if un else f.loc(), f.q), "the last error is changed under the lock in " + f.q)
    c.count("functions_recording_errors", nlast)
    # the log's lock is not recursive
    takers = {f.u for f in fns if takeslock(f)}
    may = set(takers); ch = True
    cal = prog.callers(); todo = list(takers)
    while todo:
        u = todo.pop()
        for x, i in cal.get(u, ()):
            if x.u not in may: may.add(x.u); todo.append(x.u)
    for f in fns:
        if f.u not in takers or f.u in lk or f.d.get("kind") in ("ctor", "dtor"): continue
        g, at = locked(prog, f)
        again = [n for n in g.nodes if n.k == "call" and n.ev[1] and at.get(n.i, set()) - {""} and (last(n.ev[0]) in LOCK or any(t.u in may and t.file.startswith("src/framework/") for t in prog.targets(n.ev[1], n.ev[4])))]
        c.judge(not again, "nested|%s|%s" % (f.q, ",".join(p["t"] for p in f.params)), "%s: %s takes the log's lock again while holding it" % (again[0].loc() if again else f.loc(), f.q), "the lock is taken once in " + f.q)
    c.count("functions_calling_loggers", nlog); c.floor("functions_calling_loggers", 1)
    c.count("functions_taking_locks", nlock)
    # the lock exists before a second thread can: the resource manager's creation makes a log facility
    ci = prog.fnall(RM + "::createInstance")
    if not ci: raise AnalysisBroken("ResourceManager::createInstance")
    reach = {ci[0].u}; todo = [ci[0]]
    while todo:
        x = todo.pop()
        for i, t in prog.callees(x):
            if t.u not in reach and t.file.startswith(LIB): reach.add(t.u); todo.append(t)
    lf = [f for f in prog.fns.values() if f.q == "uima::LogFacility::LogFacility" and f.blocks and any(re.search("UnicodeString", p["t"]) for p in f.params)]
    if not lf: raise AnalysisBroken("LogFacility constructors")
    c.judge(any(f.u in reach for f in lf), "lock created", "%s: ResourceManager::createInstance makes no log facility, so the log's lock may be made by two threads at once" % ci[0].loc(), "the log's lock is made with the resource manager")
    for f in lf:
        g = Graph(prog, f, inline=lambda t, fr: t.cls == f.cls, depth=2)
        def sets(n):
            if n.k not in ("set", "call"): return False
            fs = [x for e in n.ev if isinstance(e, tuple) for x in subforms(("x",) + ((e,) if e and isinstance(e[0], str) else e)) if isinstance(x, tuple) and x]
            return any(x[0] == "f" and x[2].endswith("LogFacility::iv_strOrigin") for x in fs if len(x) > 2) and any(x[0] == "param" and x[1] == 0 for x in fs)
        seen, todo, miss = {g.entry.i}, [g.entry], False
        while todo:
            n = todo.pop()
            if n is g.exit: miss = True
            if sets(n): continue
            for t, l in n.succ:
                if t.i not in seen: seen.add(t.i); todo.append(t)
        c.judge(not miss, "origin|%d" % len(f.params), "%s: a log facility may be made without recording its engine's name" % f.loc(), "the name is recorded on every path")
    # ---- the resource manager
    meth = [f for f in fns if f.cls == RM and not onlyfrom(prog, f, SETUP)]
    c.count("resource_manager_methods", len(meth)); c.floor("resource_manager_methods", 10)
    setters = set()
    for f in meth:
        g = graphs[f.u]
        def mine(form):
            return form is not None and any(isinstance(x, tuple) and len(x) == 3 and x[0] == "f" and x[1] == ("this",) and x[2].startswith(RM + "::") for x in subforms(form)) and root(form) == ("this",)
        ch = []
        for n in g.nodes:
            if n.k == "set" and mine(n.ev[0]): ch.append(n)
            elif n.k == "del" and mine(n.ev[0]): ch.append(n)
            elif n.k == "call":
                q, u, obj, args, *_ = n.ev
                sig = split_sig(u) if u else ((), "")
                if mine(obj) and not sig[1].strip().startswith("const") and (last(q) not in READS) and (q or "").startswith("std::"): ch.append(n)
                elif isguard(prog, q) or last(q) in LOCK | UNLOCK: pass
                elif any(mine(a) and a[0] == "f" and mutparam(t) for a, t in zip(args, sig[0]) if a is not None): ch.append(n)
        if not ch: c.ok("resources|" + f.q); continue
        g2, at = locked(prog, f)
        lines = {(n.fr.fn.u, n.nid) for n in ch if n.fr is not None}
        un = [n for n in g2.nodes if n.fr is not None and (n.fr.fn.u, n.nid) in lines and n.k in ("set", "call", "del") and "" in at.get(n.i, ())]
        if not un or alwaysheld(prog, f): c.ok("resources|" + f.q); continue
        if SETNAMES.search(f.q): setters.add(f.u); c.ok("resources|" + f.q); continue
        c.bad("resources|" + f.q, "%s: %s changes the resource manager, which all threads share, without a lock" % (un[0].loc(), f.q))
    for u in sorted(setters):
        f = prog.fns[u]
        who = [x for x, i in prog.callers().get(u, ()) if x.file.startswith(LIB) and x.q not in SETUP and x.u not in setters and not x.file.startswith("src/jni/")]
        c.judge(not who, "setup|" + f.q, "%s: %s calls %s, which changes the resource manager for all threads" % (who[0].loc() if who else "", who[0].q if who else "", f.q), "%s is called by applications only" % f.q)
