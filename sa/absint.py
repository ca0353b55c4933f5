"""Abstract interpretation of an inlined flow graph over a small finite domain.

Values: Python ints (booleans are 0/1), strings (symbolic atoms supplied by the client), None (unknown).
The client gives an oracle with
   call(form, args, ev)  -> value of a call form (None: unknown)
   cmp(op, a, b)         -> truth of a comparison of two values, at least one symbolic (None: unknown)
   leaf(form)            -> value of any other leaf form (param, field, global ...) or None
The interpreter follows every edge whose condition is not decided by the values."""
from .core import *

LIM = 8

class AI:
    keepnone = True         # an unknown local hides what the oracle's leaf() says of it
    lim = LIM
    def __init__(self, g, oracle, init=None, maxstates=60000):
        self.g = g; self.o = oracle; self.init = dict(init or {}); self.max = maxstates; self.n = 0
        self._live = None; self._vars = {}
    def vars(self, f):
        """the local variables and call results a form mentions"""
        r = self._vars.get(f)
        if r is None:
            r = self._vars[f] = frozenset(x for x in subforms(f) if isinstance(x, tuple) and len(x) > 1 and x[0] in ("var", "ret")) if isinstance(f, tuple) else frozenset()
        return r
    def live(self):
        """node -> variables some path from there still mentions before setting them anew"""
        if self._live is not None: return self._live
        g = self.g; use, kill, pred = {}, {}, {}
        for n in g.nodes:
            u = set(); k = None
            for x in n.ev or ():
                if isinstance(x, tuple):
                    for y in (x if x and isinstance(x[0], tuple) else (x,)): u |= self.vars(y)
                elif isinstance(x, list):
                    for y in x: u |= self.vars(y)
            if n.k == "set" and n.ev[0] is not None and n.ev[1] == "=" and n.ev[0][0] in ("var", "ret"):
                k = n.ev[0]
                if n.ev[2] is None or k not in self.vars(n.ev[2]): u.discard(k)
            for t, l in n.succ:
                pred.setdefault(t.i, []).append(n.i)
                if l is not None and len(l) > 1 and isinstance(l[1], tuple): u |= self.vars(l[1])
            use[n.i] = frozenset(u); kill[n.i] = k
        lv = {n.i: use[n.i] for n in g.nodes}
        todo = [n.i for n in g.nodes]
        out = {n.i: set() for n in g.nodes}
        while todo:
            i = todo.pop()
            for p in pred.get(i, ()):
                if not lv[i] <= out[p]:
                    out[p] |= lv[i]
                    x = (out[p] - {kill[p]} | use[p]) if kill[p] is not None else out[p] | use[p]
                    if x != lv[p]: lv[p] = frozenset(x); todo.append(p)
        self._live = lv
        return lv
    def val(self, f, env):
        if f is None: return None
        if f in env: return env[f]
        k = f[0]
        if k == "int": return f[1]
        if k == "not":
            v = self.truth(f[1], env); return None if v is None else int(not v)
        if k in ("and", "or"):
            a = self.truth(f[1], env); b = self.truth(f[2], env)
            if k == "and":
                if a is False or b is False: return 0
                return 1 if a and b else None
            if a is True or b is True: return 1
            return 0 if a is False and b is False else None
        if k == "ite":
            c = self.truth(f[1], env)
            if c is None:
                x, y = self.val(f[2], env), self.val(f[3], env)
                return x if x == y else None
            return self.val(f[2] if c else f[3], env)
        if k == "cmp":
            a, b = self.val(f[2], env), self.val(f[3], env)
            if isinstance(a, int) and isinstance(b, int):
                return int({"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[f[1]])
            r = self.o.cmp(f[1], a, b) if a is not None and b is not None else None
            if r is None and hasattr(self.o, "cmpform"): r = self.o.cmpform(f, self, env)
            return None if r is None else int(r)
        if k == "op":
            vs = [self.val(x, env) for x in f[2:]]
            if hasattr(self.o, "op"):
                r = self.o.op(f[1], vs)
                if r is not None: return r
            if all(isinstance(v, int) for v in vs):
                try:
                    if len(vs) == 2:
                        return {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "u-": lambda a, b: a - b, "*": lambda a, b: a * b, "&": lambda a, b: a & b, "|": lambda a, b: a | b}.get(f[1], lambda a, b: None)(*vs)
                    if f[1] == "-": return -vs[0]
                except TypeError: return None
            return None
        if k == "call":
            r = self.o.call(f, [self.val(a, env) for a in f[3]], lambda x: self.val(x, env))
            return r
        if k == "ctor" and len(f[2]) == 1:
            r = self.o.leaf(f)
            return r if r is not None else self.val(f[2][0], env)
        return self.o.leaf(f)
    def truth(self, f, env):
        if f is None: return None
        v = self.val(f, env)
        if isinstance(v, int): return bool(v)
        if isinstance(v, str) and hasattr(self.o, "truth"): return self.o.truth(v)
        return None
    def run(self, visit=None, start=None):
        """visit(node, env) -> None or new env (or False to stop the path). Returns list of (node, env) at exit/ret"""
        g = self.g
        st = (start if start is not None else g.entry.i, frozenset(self.init.items()))
        seen = {st}; todo = [st]; out = []; lv = self.live()
        while todo:
            s = todo.pop(); i, e = s
            n = g.nodes[i]; env = dict(e)
            self.n += 1
            if self.n > self.max: raise AnalysisBroken("abstract interpretation of %s does not converge" % g.root.q)
            if visit is not None:
                r = visit(n, env)
                if r is False: continue
                if r is not None: env = r
            if n.k == "set" and n.ev[0] is not None:
                lhs, op, rhs = n.ev
                if op == "=": v = self.val(rhs, env)
                else:
                    o = op if op not in ("++", "--") else op[0]
                    o = o[:-1] if o.endswith("=") else o
                    v = self.val(("op", o, lhs, rhs), env)
                if isinstance(v, int) and not -self.lim <= v <= self.lim and v not in self.init.values() and op != "=": v = None
                for k in [k for k in env if k != lhs and contains(k, lhs)]: del env[k]
                if v is None:
                    if lhs[0] in ("var", "ret") and self.keepnone: env[lhs] = None
                    else: env.pop(lhs, None)
                else: env[lhs] = v
            if n.k == "ret": env[("result",)] = self.val(n.ev[0], env) if n.ev[0] is not None else None
            if n.k in ("exit", "texit"): out.append((n, env)); continue
            must = hasattr(self.o, "must") and self.o.must(n) and any(l is not None and l[0] == "eh" for t, l in n.succ)
            for t, l in n.succ:
                if must and not (l is not None and l[0] == "eh"): continue
                if l is None: ok = True
                elif l[0] == "t":
                    v = self.truth(l[1], env); ok = v is None or v == l[2]
                elif l[0] == "case":
                    v = self.val(l[1], env); ok = not isinstance(v, int) or v in [self.const(x) for x in l[2]]
                    if isinstance(v, str): ok = any(self.o.cmp("==", v, x) is not False for x in l[2])
                elif l[0] == "dflt":
                    v = self.val(l[1], env); ok = not isinstance(v, int) or v not in [self.const(x) for x in l[2]]
                elif l[0] == "eh": ok = n.k == "nop" or (hasattr(self.o, "throws") and self.o.throws(n))
                else: ok = True
                if not ok: continue
                s2 = (t.i, frozenset((k, v) for k, v in env.items() if self.vars(k) <= lv[t.i]))
                if s2 not in seen: seen.add(s2); todo.append(s2)
        return out
    def const(self, x):
        return x if isinstance(x, int) else (x[1] if isinstance(x, tuple) and x and x[0] == "int" else x)
