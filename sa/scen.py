"""Scenarios: abstract execution of one function over symbolic values (strings, ints, tuples for containers).

A scenario fixes the values of the parameters and fields and the answers of the functions called; containers are
tracked exactly: a vector is a tuple ("vec", e0, e1 ...), a map ("map", name, keys), an iterator ("it", container, position).
What the function calls (names to log), returns or throws is compared with what the property says."""
from .core import *
from .absint import AI

def last(q): 
    if q is None: return ""
    d = 0
    for i in range(len(q) - 1, 0, -1):
        ch = q[i]
        if ch == ">" and q[i - 1] != "-" and "operator" not in q[max(0, i - 12):i]: d += 1
        elif ch == "<" and "operator" not in q[max(0, i - 10):i]: d -= 1
        elif ch == ":" and d <= 0 and q[i - 1] == ":": return q[i + 1:]
    return q

ITERS = ("insert", "erase", "operator==", "operator!=", "assign", "distance", "advance", "operator++", "operator--", "find")
VEC = ("std::vector", "std::set", "std::list", "std::deque")

class Scen(AI):
    """answers: name -> value or function(s, obj, args) ; params: values by index ; fields: name -> value or function(s, obj)"""
    LOG = ("log",)
    def __init__(self, prog, g, params=(), fields=None, answers=None, log=(), throws=(), mustthrow=(), init=None, maxlog=12, sigs=(), effects=None):
        AI.__init__(self, g, self, init or {})
        self.prog = prog; self.params = list(params); self.fields = fields or {}; self.answers = answers or {}
        self.logn = set(log); self.thr = set(throws) | set(mustthrow); self.mustthr = set(mustthrow); self.maxlog = maxlog
        self.env = None; self.unknown = set(); self.sigs = set(sigs); self.effects = effects or {}
        self.init[self.LOG] = ()
        for i, p in enumerate(g.root.params):       # a parameter the function assigns to is a variable
            if i < len(self.params) and self.params[i] is not None: self.init.setdefault(("var", (), p["id"], p["n"]), self.params[i])
    # oracle interface
    def truth(self, f, env):
        if isinstance(f, str): return True
        v = self.val(f, env)
        if isinstance(v, bool) or isinstance(v, int): return bool(v)
        if isinstance(v, (str, tuple)): return True
        return None
    def norm(self, v):
        """the core drops the * of *it: an iterator of a vector where a value is wanted stands for the element"""
        return self.at(v) if isinstance(v, tuple) and v and v[0] == "it" and v[1][0] == "vec" else v
    def cmp(self, op, a, b):
        if op in ("==", "!="):
            if (isinstance(a, tuple) and a[0] == "it") != (isinstance(b, tuple) and b[0] == "it"): a, b = self.norm(a), self.norm(b)
            if isinstance(a, tuple) and a[0] == "it" and isinstance(b, tuple) and b[0] == "it": e = (a[1][:2] if a[1][0] == "map" else a[1], a[2]) == (b[1][:2] if b[1][0] == "map" else b[1], b[2])
            else: e = a == b
            return e if op == "==" else not e
        return None
    def throws(self, n): return n.k == "throw" or (n.k == "call" and n.ev[0] is not None and (last(n.ev[0]) in self.thr or n.ev[0] in self.thr))
    def must(self, n): return n.k == "call" and n.ev[0] is not None and (last(n.ev[0]) in self.mustthr or n.ev[0] in self.mustthr)
    def leaf(self, f): return None
    def val(self, f, env):
        if f is None: return None
        if f in env: return env[f]
        k = f[0]
        if k == "param": return self.params[f[1]] if f[1] < len(self.params) else None
        if k == "enum": return f[2]
        if k == "str": return '"%s"' % f[1]
        if k == "this": return "this"
        if k == "flt": return "0.0" if not f[1] else str(f[1])
        if k == "g":
            n = last(f[1])
            if n in self.fields: return self.fields[n]
            v = self.prog.gcv.get(f[1]); return v if isinstance(v, int) else None
        if k == "f":
            o = self.val(f[1], env); n = last(f[2])
            if isinstance(o, tuple) and o[0] == "it":
                key = self.at(o)
                if o[1][0] == "map": return key if n == "first" else ("v|%s|%s" % (o[1][1], key) if key is not None else None)
                o = key
            if isinstance(o, tuple) and o[0] == "obj":
                for a, b in o[2]:
                    if a == n: return b
                return None
            if n in self.fields:
                x = self.fields[n]
                return x(self, o) if callable(x) else x
            return None
        if k == "idx":
            o = self.val(f[1], env); i = self.val(f[2], env)
            if isinstance(o, tuple) and o[0] == "vec" and isinstance(i, int): return o[1 + i] if 0 <= i < len(o) - 1 else "outside"
            if isinstance(o, tuple) and o[0] == "map": return "v|%s|%s" % (o[1], i) if i is not None else None
            if o is not None and i is not None and not (isinstance(o, tuple) and o[0] == "vec"): return "%s[%s]" % (o, i)
            return None
        if k == "new": return "new#%s" % (f[-1],)
        if k == "ctor":
            a = [self.val(x, env) for x in f[2]]
            if not a and f[1].startswith(VEC): return ("vec",)
            if not a: return "empty|" + last(f[1])
            if f[1].startswith("std::vector") and isinstance(a[0], int) and not isinstance(a[0], bool) and 0 <= a[0] < 10 and len(a) in (2, 3) and a[1] is not None and not (len(a) == 2 and str(a[1]).startswith("empty|")):
                return ("vec",) + (self.norm(a[1]),) * a[0]
            if len(a) == 1: return a[0]
            return None if any(x is None for x in a) else ("made", f[1]) + tuple(a)
        if k == "call":
            self.env = env
            o = self.val(f[2], env) if f[2] is not None else None
            return self.callval(f[1] or "", o, [self.val(a, env) for a in f[3]], f)
        if k == "cmp":
            r = AI.val(self, f, env)
            return r
        if k == "op" and f[1] in ("u*", "deref", "u&", "addr") and len(f) == 3: return self.val(f[2], env)
        if k == "op" and f[1] == "*" and len(f) == 3:
            o = self.val(f[2], env)
            return self.at(o) if isinstance(o, tuple) and o[0] == "it" and o[1][0] == "vec" else o
        if k == "op" and f[1] in ("&", "|") and len(f) == 3: return self.val(f[2], env)
        return AI.val(self, f, env)
    def at(self, it):
        c, p = it[1], it[2]
        if c[0] == "vec": return c[1 + p] if isinstance(p, int) and 0 <= p < len(c) - 1 else None
        return p
    def callval(self, q, o, args, f=None):
        n = last(q)
        a = self.answers.get(q, self.answers.get(n))
        if n == "find" and len(args) == 3 and isinstance(args[0], tuple) and args[0][0] == "it" and args[0][1][0] == "vec" and isinstance(args[1], tuple) and args[1][0] == "it":
            i = args[0][2]
            while i < args[1][2] and args[0][1][1 + i] != self.norm(args[2]): i += 1
            return ("it", args[0][1], i)
        if n not in ITERS: args = [self.norm(x) for x in args]
        if n not in ITERS and not n.startswith("operator"): o = self.norm(o)
        if a is not None or n in self.answers:
            return a(self, o, args) if callable(a) else a
        if isinstance(o, tuple) and o[0] == "vec":
            if n == "size": return len(o) - 1
            if n == "empty": return int(len(o) == 1)
            if n == "begin" or n == "cbegin": return ("it", o, 0)
            if n == "end" or n == "cend": return ("it", o, len(o) - 1)
            if n in ("operator[]", "at") and args and isinstance(args[0], int): return o[1 + args[0]] if 0 <= args[0] < len(o) - 1 else "outside"
            if n == "front": return o[1] if len(o) > 1 else "outside"
            if n == "back": return o[-1] if len(o) > 1 else "outside"
        if isinstance(o, tuple) and o[0] == "map":
            if n == "size": return len(o[2])
            if n == "empty": return int(not o[2])
            if n == "find": return None if args[0] is None else ("it", o, args[0] if args[0] in o[2] else None)
            if n == "count": return None if args[0] is None else int(args[0] in o[2])
            if n in ("begin", "cbegin"): return ("it", o, o[2][0] if o[2] else None)
            if n in ("end", "cend"): return ("it", o, None)
            if n == "operator[]" or n == "at": return None if args[0] is None else "v|%s|%s" % (o[1], args[0])
        if isinstance(o, tuple) and o[0] == "it":
            if n == "operator->": return o if o[1][0] == "map" else self.at(o)
            if n == "operator*": return o if o[1][0] == "map" else self.at(o)
        if o is None and n == "operator*" and args: return args[0]
        if n in ("compare", "operator==", "operator!=") :
            x, y = (o, args[0]) if o is not None and len(args) == 1 else (args[0], args[1]) if len(args) == 2 else (None, None)
            if x is None or y is None: return None
            e = self.cmp("==", x, y)
            if e is None: return None
            return int(not e) if n in ("compare", "operator!=") else int(e)
        if n in ("length", "isEmpty") and isinstance(o, str):
            z = o in ('""', "empty|UnicodeString")
            return int(z) if n == "isEmpty" else (0 if z else 5)
        if n in ("c_str", "getBuffer", "getTerminatedBuffer"): return o
        self.unknown.add(n)
        return None
    def step(self, it):
        c, p = it[1], it[2]
        if c[0] == "vec": return ("it", c, p + 1)
        ks = list(c[2])
        if p in ks: i = ks.index(p) + 1; return ("it", c, ks[i] if i < len(ks) else None)
        return ("it", c, None)
    def visit(self, n, env):
        if n.k == "set" and n.ev[0] is not None and n.ev[1] in ("++", "+=") and n.ev[0] in env and isinstance(env[n.ev[0]], tuple) and env[n.ev[0]][0] == "it":
            return env
        if n.k == "new":
            fr = n.fr; nd = fr.fn.nodes[n.ev[0][3]]; ct = fr.fn.nodes[nd["s"]] if isinstance(nd.get("s"), int) else {}
            if ct and (ct.get("k") != "ctor" or len(ct.get("a", ())) == 1):
                v = self.norm(self.val(fr.form(ct["a"][0] if ct.get("k") == "ctor" else nd["s"]), env))
                if v is not None: env[n.ev[0]] = "new(%s)" % (v,); return env
            env.pop(n.ev[0], None)
            return env
        if n.k != "call" or not n.ev[0]: return None
        q, sig, o, a = n.ev[:4]; m = last(q)
        ov = self.val(o, env) if o is not None else None
        if m in self.logn or q in self.logn:
            e = (m, self.norm(ov)) + tuple(self.norm(self.val(x, env)) for x in a)
            if m in self.sigs: e += (sig[sig.rindex("(") + 1:].split(")")[0] if "(" in sig else "",)
            if len(env.get(self.LOG, ())) < self.maxlog: env[self.LOG] = env.get(self.LOG, ()) + (e,)
            return self.effect(m, o, ov, a, env) or env
        return self.effect(m, o, ov, a, env)
    def effect(self, m, o, ov, a, env):
        while isinstance(o, tuple) and o and o[0] == "ite" and len(o) == 4:      # a reference bound to one of two objects
            t = self.truth(o[1], env)
            if t is None: break
            o = o[2] if t else o[3]
        if m in self.effects: return self.effects[m](self, env, o, ov, a)
        if o is None:
            if m in ("operator++",) and a: o, a = a[0], a[1:]; ov = self.val(o, env)
            else: return None
        if isinstance(ov, tuple) and ov[0] == "it" and m == "operator++": env[o] = self.step(ov); return env
        if m == "operator=" and len(a) == 1:
            v = self.val(a[0], env)
            if v is None:
                if o in env or o[0] == "var": env[o] = None
            else: env[o] = v
            return env
        if isinstance(ov, tuple) and ov[0] == "vec":
            if m == "insert" and len(a) == 3:
                x, y, z = (self.val(t, env) for t in a)
                if all(isinstance(t, tuple) and t[0] == "it" for t in (x, y, z)) and y[1] == z[1] and x[1] == ov: env[o] = ov[:1 + x[2]] + y[1][1 + y[2]:1 + z[2]] + ov[1 + x[2]:]
                else: env[o] = None
                return env
            if m == "assign" and len(a) == 2:
                y, z = (self.val(t, env) for t in a)
                env[o] = ("vec",) + y[1][1 + y[2]:1 + z[2]] if all(isinstance(t, tuple) and t[0] == "it" for t in (y, z)) and y[1] == z[1] else None
                return env
            if m in ("push_back", "insert", "emplace_back") and a: env[o] = (ov + (self.norm(self.val(a[-1], env)),))[:10]; return env
            if m == "clear": env[o] = ("vec",); return env
            if m == "swap" and len(a) == 1:
                v = self.val(a[0], env)
                env[a[0]] = ov; env[o] = v if isinstance(v, tuple) and v[0] == "vec" else None
                return env
            if m == "erase": env[o] = None; return env
        if isinstance(ov, tuple) and ov[0] == "map":
            if m == "operator[]":
                k = self.val(a[0], env)
                if k is not None and k not in ov[2]: env[o] = ("map", ov[1], ov[2] + (k,)); return env
            if m == "clear": env[o] = ("map", ov[1], ()); return env
        return None
    def go(self):
        """[(threw?, result, log, env)]"""
        out = self.run(self.visit)
        norm = (lambda v: v) if "iterator" in str(self.g.root.d.get("rett") or self.g.root.d.get("ret")) else self.norm
        return [(n.k == "texit", norm(env.get(("result",))), env.get(self.LOG, ()), env) for n, env in out]
