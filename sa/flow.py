"""Value numbering over an inlined graph.

 Forward, path-disjunctive: every local, field and result is mapped to the form of its value in
 terms of the values at entry; loop-carried variables are havocked at loop heads; branch facts are
 kept over those value forms.  memcpy between scalars is a bit-preserving move."""
from .core import *
from .core import _bounds

class Flow:
    def __init__(self, prog, fn, inline=None, depth=6, eh="none", bind=None, init=frozenset(), limit=64, maxsteps=60000, rewrite=None, byt=False):
        self.byt = byt
        self.prog = prog
        self.g = Graph(prog, fn, inline=inline, depth=depth, eh=eh, bind=bind, raw=True, byt=byt)
        self.at = {}
        self.rewrite = rewrite
        self._subc = {}
        self._loops()
        self._run(init, limit, maxsteps)
    def _loops(self):
        g = self.g
        succ = {n.i: [t.i for t, l in n.succ] for n in g.nodes}
        color, back = {}, []
        st = [(g.entry.i, iter(succ[g.entry.i]))]; color[g.entry.i] = 1
        while st:
            i, it = st[-1]
            for t in it:
                if color.get(t, 0) == 0:
                    color[t] = 1; st.append((t, iter(succ[t]))); break
                if color[t] == 1: back.append((i, t))
            else:
                color[i] = 2; st.pop()
        self.back = set(back)
        self.phi = {}          # (head, lvalue) -> (values on entry, values on back edges)
        pred = {}
        for i, ts in succ.items():
            for t in ts: pred.setdefault(t, []).append(i)
        self.loops = {}
        for tail, head in back:
            body = self.loops.setdefault(head, {head})
            todo = [tail]
            while todo:
                x = todo.pop()
                if x in body: continue
                body.add(x); todo += pred.get(x, [])
        self.hav = {}
        for head, body in self.loops.items():
            s = set()
            for i in body:
                n = self.g.nodes[i]
                if n.k == "set" and n.ev[0] is not None and n.ev[0][0] in ("var", "ret", "f", "param", "this"): s.add(n.ev[0])
                if n.k == "call":
                    for x in self.outs(n): s.add(x)
                    if n.ev[0] and n.ev[0].endswith("::operator=") and n.ev[2] is not None and n.ev[2][0] in ("var", "f", "ret"): s.add(n.ev[2])
            self.hav[head] = s
    def outs(self, n):
        """lvalues a non-inlined call may overwrite"""
        q, u, obj, args = n.ev[:4]
        r = []
        if not u or any(l is None and t.k == "enter" for t, l in n.succ): return r
        pt, tail = split_sig(u)
        for a, t in zip(args, pt):
            if a is not None and a[0] in ("var", "ret") and ((mutable_ref(t) and not (self.byt and self.derefd(n, args.index(a)))) or (t.rstrip().endswith("*") and not t.startswith("const") and (not self.byt or self.notptr(n, args.index(a))))): r.append(a)
        if obj is not None and obj[0] == "var" and not tail.startswith("const") and not (self.byt and self.viaptr(n)): r.append(obj)
        return r
    def viaptr(self, n):
        fn = n.fr.fn; o = fn.nodes[n.nid].get("o")
        return o is not None and fn.nodes[o].get("t", "").rstrip().endswith("*")
    def derefd(self, n, ix):
        """the argument is what the variable points to"""
        fn = n.fr.fn; a = fn.nodes[n.nid].get("a") or []
        if ix >= len(a): return False
        x = fn.nodes[fn.strip(a[ix])]
        return x["k"] == "un" and x["op"] == "*"
    def notptr(self, n, ix):
        """the argument is the address of the variable, not the variable's pointer value"""
        fn = n.fr.fn; a = fn.nodes[n.nid].get("a") or []
        if ix >= len(a): return True
        x = fn.nodes[fn.strip(a[ix])]
        return not (x["k"] == "ref" and x.get("t", "").rstrip().endswith("*"))
    def sub(self, f, env):
        if f is None or not isinstance(f, tuple): return f
        if not env: return f
        d = env if isinstance(env, dict) else dict(env)
        return self._sub(f, d)
    def _sub(self, f, d):
        if not isinstance(f, tuple) or not f: return f
        k = f[0]
        if k in ("int", "str", "g", "this", "phi", "enum", "param", "hv"):
            return d.get(f, f)
        if k == "var" or k == "ret": return d.get(f, f)
        if k == "f":
            b = self._sub(f[1], d); x = ("f", b, f[2])
            return d.get(x, x)
        if k == "call":
            return ("call", f[1], self._sub(f[2], d) if f[2] is not None else None, tuple(self._sub(x, d) if x is not None else None for x in f[3]))
        if k == "ctor": return ("ctor", f[1], tuple(self._sub(x, d) if x is not None else None for x in f[2]))
        if k in ("op", "cmp"): return (k, f[1], self._sub(f[2], d), self._sub(f[3], d))
        if k in ("new", "other", "sizeof", "typeid", "fn", "flt"): return f
        return (k,) + tuple(self._sub(x, d) if isinstance(x, tuple) else x for x in f[1:])
    def lval(self, f, d):
        """canonical location"""
        if f[0] == "f": return ("f", self._sub(f[1], d), f[2])
        if f[0] == "idx": return ("idx", self._sub(f[1], d), self._sub(f[2], d))
        if f[0] == "mem": return ("mem", self._sub(f[1], d), f[2])
        return f
    def _run(self, init, limit, maxsteps):
        g, prog = self.g, self.prog
        fr = g.frame; fn = fr.fn
        defs, mut, types = fn.ldefs()
        env0 = {}
        for ix, p in enumerate(fn.params):
            if (p["id"] in defs or p["id"] in mut) and not p["t"].rstrip().endswith("&"): env0[fr.varform(p["id"], p["n"])] = fr.bind.get(p["id"], ("param", ix, p["n"]))
        s0 = (init, frozenset(env0.items()))
        at = self.at
        at[g.entry.i] = {s0}
        work = [(g.entry.i, s0)]
        steps = 0
        for head, b in self.loops.items():
            pass
        while work:
            i, st = work.pop()
            if st not in at.get(i, ()): continue
            steps += 1
            if steps > maxsteps: raise AnalysisBroken("value flow of %s exceeds %d steps" % (g.root.q, maxsteps))
            n = g.nodes[i]
            F, env = st
            if n.k == "set" and n.ev[0] is not None: env = self.assign(n, env)
            elif n.k == "call": env = self.call(n, env)
            d = dict(env)
            for tgt, lab in n.succ:
                f3 = F
                if lab is not None:
                    if lab[0] == "t" and lab[1] is not None:
                        f3 = assume(F, self._sub(lab[1], d), lab[2], prog)
                        if f3 is None: continue
                    elif lab[0] == "case" and lab[1] is not None and len(lab[2]) == 1 and lab[2][0] is not None:
                        f3 = assume(F, ("cmp", "==", self._sub(lab[1], d), ("int", lab[2][0])), True, prog)
                        if f3 is None: continue
                    elif lab[0] == "dflt" and lab[1] is not None:
                        for v in lab[2]:
                            if v is None or f3 is None: continue
                            f3 = assume(f3, ("cmp", "==", self._sub(lab[1], d), ("int", v)), False, prog)
                        if f3 is None: continue
                e2 = env
                if tgt.i in self.hav:
                    dd = dict(env)
                    for lv in self.hav[tgt.i]:
                        phi = ("phi", tgt.i, lv)
                        loc = self.lval(lv, d)
                        self.phi.setdefault((tgt.i, lv), (set(), set()))[(i, tgt.i) in self.back].add(fold(d.get(loc, loc)))
                        dd[self.lval(lv, d)] = phi
                        f3 = kill(f3, phi)
                    e2 = frozenset(dd.items())
                ns = (f3, e2)
                S = at.setdefault(tgt.i, set())
                if ns in S: continue
                same = [x for x in S if x[1] == e2]
                if any(x[0] <= f3 for x in same): continue
                if len(same) >= limit:
                    m = f3
                    for x in same: m = m & x[0]
                    for x in same: S.discard(x)
                    ns = (m, e2)
                S.add(ns)
                if len(S) > 600: raise AnalysisBroken("value flow of %s: too many states" % g.root.q)
                work.append((tgt.i, ns))
    def assign(self, n, env):
        d = dict(env)
        lhs, op, rhs = n.ev
        r = self._sub(rhs, d) if rhs is not None else ("hv", n.i)
        loc = self.lval(lhs, d)
        if op != "=":
            old = d.get(loc, loc)
            o = {"++": "+", "--": "-"}.get(op, op[:-1])
            r = ("op", o, old, r)
        r = fold(r)
        if loc[0] in ("idx", "mem"): return env
        if loc[0] == "f":
            for x in list(d):
                if x[0] == "f" and x[2] == loc[2] and x[1] != loc[1]: d[x] = ("hv", n.i, x)
        d[loc] = r
        return frozenset(d.items())
    def addrof(self, n, ix):
        fn = n.fr.fn
        a = fn.strip(fn.nodes[n.nid]["a"][ix])
        return fn.nodes[a]["k"] == "un" and fn.nodes[a]["op"] == "&"
    def call(self, n, env):
        q, u, obj, args = n.ev[:4]
        if q in ("memcpy", "memmove", "std::memcpy", "std::memmove") and len(args) == 3 and args[0] is not None and args[0][0] in ("var", "f") and self.addrof(n, 0):
            d = dict(env)
            nn = fold(self._sub(args[2], d))
            d[self.lval(args[0], d)] = ("bits", self._sub(args[1], d), nn[1] if nn[0] == "int" else nn)
            return frozenset(d.items())
        if q and q.rsplit("::", 1)[-1] == "operator=" and obj is not None and obj[0] in ("var", "f", "ret") and len(args) == 1:
            d = dict(env)
            d[self.lval(obj, d)] = fold(self._sub(args[0], d)) if args[0] is not None else ("hv", n.i, obj)
            return frozenset(d.items())
        if self.byt and q and "iterator" in q and obj is not None and obj[0] in ("var", "f", "ret") and q.rsplit("::", 1)[-1] in ("operator++", "operator--", "operator+=", "operator-="):
            d = dict(env); m = q.rsplit("::", 1)[-1]; loc = self.lval(obj, d)
            step = self._sub(args[0], d) if m[-1] == "=" else ("int", 1)
            d[loc] = fold(("op", m[8], d.get(loc, loc), step))
            return frozenset(d.items())
        o = self.outs(n)
        if not o: return env
        d = dict(env)
        for x in o: d[x] = ("hv", n.i, x)
        return frozenset(d.items())
    # ---- queries
    def counter(self, phi):
        """(start, step) of a loop counter, or None"""
        r = self.phi.get((phi[1], phi[2]))
        if r is None or len(r[0]) != 1 or len(r[1]) != 1: return None
        d, c = lin(list(r[1])[0])
        if d != {phi: 1}: return None
        return list(r[0])[0], c
    def states(self, n):
        return self.at.get(n.i, ())
    def val(self, f, st):
        return fold(self.sub(f, st[1]))
    def calls(self, pred):
        """(node, state, obj value, arg values) of each reachable call"""
        for n in self.g.nodes:
            if n.k == "call" and n.i in self.at and n.ev[0] and pred(n.ev[0]):
                for st in self.at[n.i]:
                    d = dict(st[1])
                    yield n, st, (self._sub(n.ev[2], d) if n.ev[2] is not None else None), tuple(fold(self._sub(a, d)) if a is not None else None for a in n.ev[3])
    def rets(self):
        for n in self.g.nodes:
            if n.k == "ret" and n.fr is self.g.frame and n.i in self.at:
                for st in self.at[n.i]: yield n, st, (self.val(n.ev[0], st) if n.ev[0] is not None else None)
    def stores(self):
        """(node, state, location, value) of stores through array/pointer lvalues and fields"""
        for n in self.g.nodes:
            if n.k == "set" and n.i in self.at and n.ev[0] is not None:
                for st in self.at[n.i]:
                    d = dict(st[1])
                    loc = self.lval(n.ev[0], d)
                    r = self._sub(n.ev[2], d) if n.ev[2] is not None else None
                    if n.ev[1] != "=" and r is not None: r = ("op", n.ev[1][:1], d.get(loc, loc), r)
                    yield n, st, loc, fold(r)

def fold(f):
    """constant folding of integer arithmetic"""
    if not isinstance(f, tuple) or not f: return f
    if f[0] == "op" and f[1] in ("+", "-", "*", "u-"):
        g = ("op", "-" if f[1] == "u-" else f[1], f[2], f[3])
        d, c = lin(g)
        if not d: return ("int", c)
        return unlin(d, c)
    return f

def unlin(d, c):
    r = None
    for x, k in sorted(d.items(), key=lambda t: (t[1] < 0, rep(t[0]))) if len(d) > 1 else d.items():
        t = x if abs(k) == 1 else ("op", "*", ("int", abs(k)), x)
        if r is None: r = t if k > 0 else ("op", "-", ("int", 0), t)
        else: r = ("op", "+" if k > 0 else "-", r, t)
    if c: r = ("op", "+", r, ("int", c)) if c > 0 else ("op", "-", r, ("int", -c))
    return r if r is not None else ("int", c)

def ul(f):
    """unsigned subtraction as subtraction (use only where no wrap is entailed or values are compared for equality)"""
    if not isinstance(f, tuple): return f
    if f and f[0] == "op" and f[1] == "u-": return ("op", "-", ul(f[2]), ul(f[3]))
    return tuple(ul(x) for x in f)

def facts_le(facts):
    """facts as a list of (coefs, c): sum <= c"""
    out = []
    def add(l, c):
        d, cc = {}, 0
        for x, k in l:
            e, e0 = lin(ul(x)); cc += k * e0
            for y, m in e.items():
                d[y] = d.get(y, 0) + k * m
                if not d[y]: del d[y]
        out.append((d, c - cc))
    for f in facts:
        if f[0] == "le": add(f[1], f[2])
        elif f[0] == "eq": add(f[1], f[2]); add(tuple((x, -k) for x, k in f[1]), -f[2])
        elif f[0] == "nb": add(((f[1], 1),), 0); add(((f[1], -1),), 0)
    return out

def entails_le(facts, d, c, extra=()):
    """do the facts (plus extra (coefs, c) inequalities) imply sum(d) <= c ?  sums of up to four facts"""
    fs = facts_le(facts) + list(extra)
    def sub(a, b):
        r = dict(a)
        for x, k in b.items():
            r[x] = r.get(x, 0) - k
            if not r[x]: del r[x]
        return r
    def go(d, c, depth, start):
        if not d: return 0 <= c
        if depth == 0: return False
        for i in range(start, len(fs)):
            e, ec = fs[i]
            if not any(x in d for x in e): continue
            r = sub(d, e)
            if sum(abs(k) for k in r.values()) > sum(abs(k) for k in d.values()) + 2: continue
            if go(r, c - ec, depth - 1, i): return True
        return False
    return go(dict(d), c, 4, 0)

def avoid(g, start, goals, block):
    """can any goal node be reached from start without passing a node of block?"""
    seen, todo = set(), [start]
    while todo:
        n = todo.pop()
        if n.i in seen: continue
        seen.add(n.i)
        if n.i in goals: return True
        if n.i in block: continue
        for t, l in n.succ: todo.append(t)
    return False

def loop_stores(fl):
    """element-wise loops: (head node index, base, value form, counter, exclusive upper bound as lin) for counters 0,1,2.."""
    out = []
    for n, st, loc, v in fl.stores():
        if loc[0] != "idx": continue
        d, c = lin(ul(("op", "+", loc[1], loc[2])))
        ph = [x for x in d if x[0] == "phi" and d[x] == 1]
        if len(ph) != 1: continue
        cnt = fl.counter(ph[0])
        if cnt is None or cnt[1] != 1: continue
        # bound: phi <= b
        for e, b in facts_le(st[0]):
            if e.get(ph[0]) == 1:
                up = ({x: -k for x, k in e.items() if x != ph[0]}, b + 1)
                base = {x: k for x, k in d.items() if x != ph[0]}
                out.append((ph[0][1], (base, c), v, ph[0], cnt[0], up))
    return out
