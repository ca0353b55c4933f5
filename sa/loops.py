"""Iteration structure: which container or protocol a loop runs over, whether it visits every element
exactly once and leaves in no other way.  Works on an inlined (non-raw) Graph."""
from .core import *

class Loop:
    def __init__(self, head): self.head = head; self.body = set()

class Loops:
    def __init__(self, g):
        self.g = g
        succ = {n.i: [t.i for t, l in n.succ] for n in g.nodes}
        color, back = {}, []
        st = [(g.entry.i, iter(succ[g.entry.i]))]; color[g.entry.i] = 1
        while st:
            i, it = st[-1]
            for t in it:
                if color.get(t, 0) == 0:
                    color[t] = 1; st.append((t, iter(succ[t]))); break
                if color[t] == 1: back.append((i, t))
            else:
                color[i] = 2; st.pop()
        self.live = {i for i in color}
        pred = {}
        for i, ts in succ.items():
            if i in self.live:
                for t in ts: pred.setdefault(t, []).append(i)
        self.pred = pred
        self.loops = {}
        for tail, head in back:
            lp = self.loops.setdefault(head, Loop(head)); lp.body.add(head)
            todo = [tail]
            while todo:
                x = todo.pop()
                if x in lp.body: continue
                lp.body.add(x); todo += pred.get(x, [])
    def enclosing(self, n):
        """loops containing the node, innermost first"""
        i = n if isinstance(n, int) else n.i
        return sorted([l for l in self.loops.values() if i in l.body], key=lambda l: len(l.body))
    def innermost(self, n):
        e = self.enclosing(n)
        return e[0] if e else None
    def path(self, starts, goals, block=(), within=None, eh=False):
        """is a goal node reachable from the start nodes without passing a blocked node?"""
        seen, todo = set(), list(starts)
        goals = set(goals); block = set(block)
        while todo:
            i = todo.pop()
            if i in seen or i in block or (within is not None and i not in within): continue
            seen.add(i)
            if i in goals: return True
            for t, l in self.g.nodes[i].succ:
                if l is not None and l[0] == "eh" and not eh: continue
                todo.append(t.i)
        return False
    def succs(self, i): return [t.i for t, l in self.g.nodes[i].succ if not (l is not None and l[0] == "eh")]
    def dom(self, target, blockers, start=None):
        """every path from entry (or start) to target passes one of the blockers"""
        s = [self.g.entry.i] if start is None else list(start)
        return not self.path(s, [target], blockers)
    def post(self, source, blockers):
        """every normal path from source to the exit passes one of the blockers"""
        return not self.path(self.succs(source), [self.g.exit.i], blockers)
    def cycle_avoids(self, lp, nodes):
        """can the loop go round once without passing any of the nodes?"""
        return self.path([t for t in self.succs(lp.head)], [lp.head], nodes, within=lp.body)
    def exits(self, lp):
        out = []
        for i in lp.body:
            n = self.g.nodes[i]
            for t, l in n.succ:
                if t.i in lp.body: continue
                if l is not None and l[0] == "eh": continue
                out.append((n, t, l))
        return out
    def throws(self, i):
        """node only leads to exceptional exit"""
        return not self.path([i], [self.g.exit.i])
    def iteration(self, lp):
        """-> Iter describing the loop"""
        it = Iter(self, lp)
        ex = [(n, t, l) for n, t, l in self.exits(lp) if not self.throws(t.i)]
        main = None
        rest = []
        for n, t, l in ex:
            c = exitcond(l)
            m = match(c) if c is not None else None
            if m is not None and (main is None or main == m): main = m; it.br = n
            else: rest.append((n, t, l, c))
        it.early = rest
        if main is None: return it
        it.kind, it.var, it.cont = main
        g = self.g
        if it.kind in ("it", "ix", "rit"):
            steps, sets, other = [], [], []
            for n in g.nodes:
                if n.i not in self.live: continue
                r = effect(n, it.var)
                if r is None: continue
                if n.i in lp.body:
                    (steps if r == "step" else other).append(n.i)
                else: sets.append((n.i, r))
            begins = [i for i, r in sets if isinstance(r, tuple) and isbegin(r, it.kind, it.cont)]
            rest = [i for i, r in sets if i not in begins]
            it.starts = bool(begins) and self.dom(lp.head, set(begins) | (lp.body - {lp.head}), None) and not any(self.path(self.succs(i), [lp.head], begins) for i in rest)
            it.steps = bool(steps) and not other and not self.cycle_avoids(lp, steps) and not any(self.path(self.succs(s), steps, [lp.head], within=lp.body) for s in steps)
            it.stepnodes = steps
        return it

class Iter:
    def __init__(self, L, lp):
        self.L = L; self.lp = lp; self.kind = None; self.var = None; self.cont = None; self.early = []; self.starts = self.steps = False; self.br = None; self.stepnodes = []
    def full(self):
        """visits every element of the container once and has no other way out"""
        return self.kind in ("it", "ix") and self.starts and self.steps and not self.early
    def reverse(self):
        """visits every element once from the last to the first"""
        return self.kind == "rit" and self.starts and self.steps and not self.early
    def iselem(self, f):
        """form denotes the current element"""
        if f is None: return False
        if self.kind in ("it", "rit"): return f == self.var or (f[0] == "f" and f[1] == self.var and f[2].rsplit("::", 1)[-1] in ("first", "second"))
        if self.kind == "ix": return f[0] == "idx" and f[1] == self.cont and f[2] == self.var
        return False
    def why(self):
        if self.kind not in ("it", "ix"): return "its bound is not recognised"
        r = []
        if not self.starts: r.append("it does not start at the first element")
        if not self.steps: r.append("it does not advance by exactly one")
        if self.early: r.append("it can be left early at %s" % ", ".join(sorted({n.loc() for n, t, l, c in self.early})))
        return "; ".join(r)

def exitcond(l):
    if l is None or l[0] != "t" or l[1] is None: return None
    return l[1] if l[2] else neg(l[1])

def nm(q): return q.rsplit("::", 1)[-1]

def match(c):
    """exit condition -> (kind, var, container)"""
    if c is None: return None
    if c[0] == "cmp":
        op, a, b = c[1], unconv(c[2]), unconv(c[3])
        if a is None or b is None: return None
        if op in ("<=",) : a, b, op = b, a, ">="
        if op == "==":
            for x, y in ((a, b), (b, a)):
                if y[0] == "call" and nm(y[1]) in ("end", "cend") and y[2] is not None and x[0] == "var": return ("it", x, y[2])
                if y[0] == "call" and nm(y[1]) in ("rend", "crend") and y[2] is not None and x[0] == "var": return ("rit", x, y[2])
        if op in ("==", ">="):
            for x, y in ((a, b), (b, a))[:2 if op == "==" else 1]:
                if y[0] == "call" and nm(y[1]) in ("size", "length") and y[2] is not None and x[0] == "var": return ("ix", x, y[2])
    if c[0] == "not" and c[1][0] == "call" and nm(c[1][1]) == "isValid": return ("iter", c[1][2], None)
    if c[0] == "nb" : return None
    return None

def effect(n, var):
    """what a node does to an iteration variable: None, 'step', 'other', or the form assigned"""
    if n.k == "set" and n.ev[0] == var:
        lhs, op, rhs = n.ev
        if op == "++": return "step"
        if op == "+=" and rhs == ("int", 1): return "step"
        if op == "=":
            if rhs == ("op", "+", var, ("int", 1)): return "step"
            return rhs if rhs is not None else "other"
        return "other"
    if n.k == "call" and n.ev[2] == var and n.ev[0]:
        m = nm(n.ev[0])
        if m == "operator++": return "step"
        if m == "operator=": return n.ev[3][0] if n.ev[3] and n.ev[3][0] is not None else "other"
        if m in ("operator--", "operator+=", "operator-="): return "other"
    return None

def unconv(f):
    """strip iterator conversions"""
    while f is not None and f[0] == "ctor" and len(f[2]) == 1 and "iterator" in (f[1] or ""): f = f[2][0]
    return f

def isbegin(r, kind, cont):
    r = unconv(r)
    if kind == "rit": return r[0] == "call" and nm(r[1]) in ("rbegin", "crbegin") and r[2] == cont
    if kind == "it": return r[0] == "call" and nm(r[1]) in ("begin", "cbegin") and r[2] == cont
    return r == ("int", 0)

def protocol(L, it, first="moveToFirst", nxt="moveToNext"):
    """an isValid() loop visits every element: begins with first(), one nxt() per round, no other move, no early exit"""
    if it.kind != "iter": return "not an iterator loop"
    g = L.g; v = it.var; lp = it.lp
    moves = {"first": [], "next": [], "other": []}
    for n in g.nodes:
        if n.i in L.live and n.k == "call" and n.ev[2] == v and n.ev[0] and nm(n.ev[0]).startswith("moveTo"):
            m = nm(n.ev[0])
            moves["first" if m == first else "next" if m == nxt else "other"].append(n.i)
    nx = [i for i in moves["next"] if i in lp.body]
    inside = [i for i in moves["first"] + moves["other"] if i in lp.body]
    if inside: return "the iterator is repositioned inside the loop"
    if not moves["first"] or not L.dom(lp.head, set(moves["first"]) | (lp.body - {lp.head})): return "the iterator is not moved to the first element before"
    stray = [i for i in moves["next"] + moves["other"] if i not in lp.body and L.path(L.succs(i), [lp.head], moves["first"])]
    if stray: return "the iterator is moved again before the loop"
    if not nx or L.cycle_avoids(lp, nx) or any(L.path(L.succs(s), nx, [lp.head], within=lp.body) for s in nx): return "it does not advance by exactly one"
    if it.early: return "it can be left early at %s" % ", ".join(sorted({n.loc() for n, t, l, c in it.early}))
    return None
