"""C05: the binary forms of a CAS: writer, size, reader and byte swapper agree on one layout."""
from fractions import Fraction
from .common import *
from sa.flow import *
from sa.loops import *
from .c09 import calls, last, std, values

CS = "uima::internal::CASSerializer"
CD = "uima::internal::CASDeserializer"
SC = "uima::internal::SerializedCAS"
FH = "uima::lowlevel::FSHeap"
HP = "uima::lowlevel::internal::Heap<"

# ------------------------------------------------------------------ linear expressions with floor division (all quantities are >= 0)
_memo = {}
def nl(f, res=None):
    m = _memo if res is None else res.memo
    r = m.get(f)
    if r is None: r = m[f] = _nl(f, res)
    return dict(r[0]), r[1]
def _nl(f, res):
    """-> (dict, const); res maps a ("mem",addr,w) form to a resolved (dict, const) or None"""
    k = f[0]
    if k == "int": return {}, f[1]
    if k == "enum" and f[2] is not None: return {}, f[2]
    if k == "sizeof":
        w = width(f[1])
        if w: return {}, w
    if k == "mem" and res is not None:
        r = res(f)
        if r is not None: return r
    if k == "op":
        o = f[1]
        if o in ("+", "-", "u-"):
            a, b = nl(f[2], res), nl(f[3], res)
            return comb(a, b, 1 if o == "+" else -1)
        if o in ("*", "<<"):
            a, b = nl(f[2], res), nl(f[3], res)
            if o == "<<":
                if not b[0]: return scale(a, 1 << b[1])
            elif not b[0]: return scale(a, b[1])
            elif not a[0]: return scale(b, a[1])
        if o in ("/", ">>"):
            a, b = nl(f[2], res), nl(f[3], res)
            if not b[0] and b[1] > 0: return div(a, b[1] if o == "/" else 1 << b[1])
        if o == "%":
            a, b = nl(f[2], res), nl(f[3], res)
            if not b[0] and b[1] > 0: return comb(a, scale(div(a, b[1]), b[1]), -1)
        if o == "&":
            a, b = nl(f[2], res), nl(f[3], res)
            if not b[0]:
                m = -b[1] if b[1] < 0 else (1 << 64) - b[1] if b[1] > (1 << 63) else (1 << 32) - b[1] if b[1] > (1 << 31) else 0
                if m > 0 and m & (m - 1) == 0: return scale(div(a, m), m)
                if b[1] > 0 and (b[1] + 1) & b[1] == 0: return comb(a, scale(div(a, b[1] + 1), b[1] + 1), -1)
    if k == "mem": return {("mem", unlin(*nl(f[1], res)), f[2]): 1}, 0
    return {f: 1}, 0

def comb(a, b, s):
    r = dict(a[0])
    for x, c in b[0].items():
        r[x] = r.get(x, 0) + s * c
        if not r[x]: del r[x]
    return r, a[1] + s * b[1]
def scale(a, k): return ({x: c * k for x, c in a[0].items()} if k else {}), a[1] * k
def div(a, k):
    out, rest = {}, {}
    for x, c in a[0].items():
        q, r = divmod(c, k)
        if q: out[x] = q
        if r: rest[x] = r
    q, r = divmod(a[1], k)
    if rest:
        at = ("div", tuple(sorted(rest.items(), key=rep)), r, k)
        out[at] = out.get(at, 0) + 1
    return out, q

def nonneg(a):
    """is the expression >= 0 for all nonnegative atoms?"""
    d, c = {x: Fraction(k) for x, k in a[0].items()}, Fraction(a[1])
    for _ in range(6):
        ds = [x for x in d if x[0] == "div"]
        if not ds: break
        for x in ds:
            k = d.pop(x); its, r, m = x[1], x[2], x[3]
            # floor(E/m): between (E-m+1)/m and E/m, E = its + r
            for y, cy in its: d[y] = d.get(y, 0) + k * Fraction(cy, m)
            c += k * Fraction(r, m)
            if k > 0: c -= k * Fraction(m - 1, m)
    return all(v >= 0 for v in d.values()) and c >= 0

def eqn(a, b): return a[0] == b[0] and a[1] == b[1]
def sh(a):
    t = []
    for x, k in a[0].items():
        n = show(x) if x[0] != "div" else "floor((%s)/%d)" % (sh((dict(x[1]), x[2])), x[3])
        t.append(n if k == 1 else "%d*%s" % (k, n))
    if a[1] or not t: t.append(str(a[1]))
    return " + ".join(t)

# ------------------------------------------------------------------ sources and destinations
def own(t, fr): return (t.cls or "") in (CS, CD, SC, FH, "uima::internal::CASImpl") or (t.cls or "").startswith(HP) or (t.cls is None and t.file.endswith(("internal_casserializer.cpp", "internal_casdeserializer.cpp")))
KEEP = ("serializeIndexedFSs", "deserializeIndexedFSs", "increaseHeap", "reset", "swapBlob", "getTopOfHeap", "getHeapStart", "addString")
def inl(t, fr): return own(t, fr) and t.name not in KEEP and not isswapper(t)
def isswapper(t): return t.cls is None and len(t.params) == 2 and t.params[0]["t"].rstrip().endswith("*") and t.d["rett"] == "void" and "wap" in t.name

def heapof(f):
    """member name of the heap a start pointer belongs to, or ('vec', form)"""
    if f is None: return None
    if f[0] == "call" and last(f[1]) == "getHeapStart" and f[2] is not None and f[2][0] == "f": return last(f[2][2])
    if f[0] == "f" and last(f[2]) == "iv_pTHeap" and f[1] is not None and f[1][0] == "f": return last(f[1][2])
    return None

def vecof(f):
    if f is None: return None
    if f[0] == "idx" and f[2] == ("int", 0): f = f[1]
    if f[0] == "call" and last(f[1]) in ("data", "begin") and f[2] is not None: f = f[2]
    return f

def topof(name):
    def ok(x): return (x[0] == "call" and last(x[1]) == "getTopOfHeap" and x[2] is not None and x[2][0] == "f" and last(x[2][2]) == name) or (x[0] == "f" and last(x[2]) == "iv_topOfHeap" and x[1][0] == "f" and last(x[1][2]) == name)
    return ok

def cellwidths(prog):
    out = {}
    for fd in prog.classes[FH]["fields"]:
        if "internal::Heap<" in fd["t"] and not fd["t"].rstrip().endswith("*"): out[fd["n"]] = width(fd["t"].split("Heap<", 1)[1].rsplit(">", 1)[0])
    return out

def run(prog, c):
    c.rule("symbolic byte layout of getBlob (stores and block copies relative to the buffer): sections do not overlap, each copy carries exactly the cells in use of its heap, all lie below the size that is returned and was compared with the buffer's size")
    c.rule("getBlobSize returns the size getBlob needs")
    c.rule("deserializeBlob: with the stored lengths substituted, every length is read where it was written and every block copy reads the section of the same heap; nothing is left unread unless it is empty")
    c.rule("swapBlob swaps each length and each section exactly once with the section's element width; the swappers reverse the bytes of every element")
    c.rule("the index section: the reader consumes per view exactly the entries the writer emits, and adds exactly these to the view's indexes")
    c.rule("serialised heap tables (JNI form): whole heaps are copied cell by cell, writer and reader pair the same table with the same heap")
    def part(fn, *a):
        # a part whose subject was lost because of what an earlier rule reported is not the verdict
        try: return fn(*a)
        except AnalysisBroken:
            if not c.viol: raise
    w = part(writer, prog, c)
    if w is not None: part(reader, prog, c, w); part(swapper, prog, c, w)
    part(indexed_writer, prog, c); part(indexed_reader, prog, c); part(tables, prog, c)
    c.floor("sections", 7); c.floor("tables", 4)

def collect(prog, fl, base, res=None):
    """stores and copies relative to the buffer parameter: offset -> ..."""
    def off(a):
        d, k = nl(a, res)
        if d.get(base) != 1: return None
        d = dict(d); del d[base]
        return d, k
    stores, copies = [], []
    for n, st, loc, v in fl.stores():
        if loc[0] == "mem":
            o = off(loc[1])
            if o is not None: stores.append((n, st, o, loc[2], v))
    for n, st, obj, a in fl.calls(lambda q: last(q) in ("memcpy", "memmove", "copy", "copy_n")):
        q = last(n.ev[0])
        if q in ("memcpy", "memmove") and len(a) == 3: copies.append((n, st, a[0], a[1], a[2]))
        elif any(x is not None and contains(x, base) for x in a): raise AnalysisBroken("%s: copy into the blob by %s" % (n.loc(), n.ev[0]))
    return off, stores, copies

class W: pass

def writer(prog, c):
    f = prog.fn(CS + "::getBlob"); c.fn(f)
    bi = [i for i, p in enumerate(f.params) if p["t"].replace(" ", "") == "void*"]
    mi = [i for i, p in enumerate(f.params) if p["t"] in ("unsigned long", "size_t")]
    if len(bi) != 1 or len(mi) != 1: raise AnalysisBroken("parameters of getBlob")
    base = ("param", bi[0], f.params[bi[0]]["n"]); mx = ("param", mi[0], f.params[mi[0]]["n"])
    fl = Flow(prog, f, inl, byt=True)
    off, stores, copies = collect(prog, fl, base)
    cw = cellwidths(prog)
    ext = []   # (offset, size, node, kind, detail)
    seen = set()
    for n, st, o, wd, v in stores:
        if v is None: raise AnalysisBroken("%s: value stored in the blob" % n.loc())
        key = (repr(canon(o[0])), o[1], repr(v))
        if key in seen: continue
        seen.add(key)
        ext.append((o, ({}, wd), n, "word", v)); c.judge(wd == 4, "w|word", "%s: a blob word of %d bytes" % (n.loc(), wd))
    for n, st, dst, src, ln in copies:
        o = off(dst)
        if o is None: continue
        key = (repr(canon(o[0])), o[1], repr(src), repr(ln))
        if key in seen: continue
        seen.add(key)
        h = heapof(src)
        size = nl(ln)
        if h is not None:
            tops = [x for x in size[0] if topof(h)(x)]
            ok = len(tops) == 1 and size == ({tops[0]: cw[h]}, 0)
            c.judge(ok, "w|cells|" + h, "%s: the blob carries %s bytes of %s, which has top cells of %d bytes" % (n.loc(), sh(size), h, cw[h]), "%s copied whole" % h)
            ext.append((o, size, n, "heap", h))
        else:
            vec = vecof(src)
            ok = any(x[0] == "call" and last(x[1]) == "size" and x[2] == vec and size == ({x: 4}, 0) for x in size[0])
            c.judge(ok, "w|cells|vec", "%s: the blob carries %s bytes of the list of indexed FSs" % (n.loc(), sh(size)), "indexed FSs copied whole")
            ext.append((o, size, n, "vec", "indexed"))
    # order
    order = []
    for e in ext:
        pos = 0
        for k, x in enumerate(order):
            end = comb(x[0], x[1], 1)
            if nonneg(comb(e[0], end, -1)): pos = k + 1
        order.insert(pos, e)
    for a, b in zip(order, order[1:]):
        end = comb(a[0], a[1], 1)
        c.judge(nonneg(comb(b[0], end, -1)), "w|overlap|%s" % (b[4] if b[3] != "word" else "word after %s" % (a[4] if a[3] != "word" else "word")),
                "%s: what is written at offset %s may overlap the %s bytes at offset %s (%s)" % (b[2].loc(), sh(b[0]), sh(a[1]), sh(a[0]), a[2].loc()), "sections in order and disjoint")
    # size
    rets = [(n, st, v) for n, st, v in fl.rets()]
    sizes = {repr(canon(nl(v)[0])) + str(nl(v)[1]): nl(v) for n, st, v in rets if num(prog, v) is None}
    c.judge(len(sizes) == 1, "w|ret", "%s: getBlob returns different sizes" % f.loc())
    size = list(sizes.values())[0]
    for e in order:
        c.judge(nonneg(comb(size, comb(e[0], e[1], 1), -1)), "w|bound|%s" % (e[4] if e[3] != "word" else "word"), "%s: writes up to offset %s, beyond the size %s that was checked" % (e[2].loc(), sh(comb(e[0], e[1], 1)), sh(size)), "write below the checked size")
    # guard
    for n, st, *r in [x for x in stores] + [x for x in copies if off(x[2]) is not None]:
        g = False
        for fa in st[0]:
            if fa[0] != "le": continue
            d, k = {}, 0
            for x, m in fa[1]:
                e = nl(x); k += m * e[1]
                for y, z in e[0].items(): d[y] = d.get(y, 0) + m * z
            d = {x: z for x, z in d.items() if z}
            # d <= fa.c  i.e. need size - max <= 0
            want = comb(size, ({mx: 1}, 0), -1)
            if d == want[0] and fa[2] - k <= -want[1]: g = True
        c.judge(g, "w|guard", "%s: the blob is written although its size may exceed the buffer" % n.loc(), "size checked against the buffer before writing")
    # nothing is left out of a blob whose size is returned
    good = {n.i for n, st, v in rets if num(prog, v) != 0}
    for e in ext:
        same = {x[2].i for x in ext if eqn(x[0], e[0])}
        nm = e[4] if e[3] != "word" else "a word"
        for m, t, lab in skips(fl.g, fl, same, good):
            ok = False
            if lab is not None and lab[0] == "t" and e[3] != "word":
                wd = cw[e[4]] if e[3] == "heap" else 4
                L = (({x: 1 for x in e[1][0]}), 0)
                ok = True
                for st2 in fl.at[m.i]:
                    cond = fl.sub(lab[1], st2[1]); cond = cond if lab[2] else neg(cond)
                    ok = ok and empties(cond, None, L, 1 if e[3] == "heap" else 0)
            c.judge(ok, "w|left|%s" % nm, "%s: %s is left out of a blob that is reported as written (at %s)" % (m.loc(), nm, e[2].loc()), "everything written when a size is returned")
    # getBlobSize
    f2 = prog.fn(CS + "::getBlobSize"); c.fn(f2)
    fl2 = Flow(prog, f2, inl, byt=True)
    for n, st, v in fl2.rets():
        c.judge(v is not None and eqn(nl(v), size), "w|getBlobSize", "%s: getBlobSize returns %s, getBlob needs %s" % (n.loc(), sh(nl(v)) if v else "nothing", sh(size)), "getBlobSize agrees with getBlob")
    ser = [n for n, st, o, a in fl2.calls(lambda q: last(q) == "serializeIndexedFSs")]
    c.judge(bool(ser) and not avoid(fl2.g, fl2.g.entry, {fl2.g.exit.i}, {n.i for n in ser}), "w|indexed", "%s: getBlobSize does not list the indexed FSs" % f2.loc(), "list of indexed FSs made")
    w = W(); w.order = order; w.size = size; w.fn = f
    words = [e for e in order if e[3] == "word"]
    w.key = words[0][4] if words else None
    c.judge(bool(words) and words[0][0] == ({}, 0) and w.key[0] == "mem" and w.key[1][0] == "str", "w|key", "%s: the blob does not begin with its key" % f.loc(), "key first")
    # sections: word then copy at word + 4
    w.sections = []
    for e in order:
        if e[3] in ("heap", "vec"):
            ow = comb(e[0], ({}, 4), -1)
            lw = [x for x in words if eqn(x[0], ow)]
            c.count("sections")
            c.judge(len(lw) == 1, "w|len|%s" % e[4], "%s: the section of %s is not preceded by its length" % (e[2].loc(), e[4]), "section preceded by its length")
            if len(lw) == 1:
                wd = cw[e[4]] if e[3] == "heap" else 4
                L = nl(lw[0][4])
                c.judge(nonneg(comb(scale(L, wd), e[1], -1)), "w|short|%s" % e[4], "%s: the length stored for %s (%s) does not cover its cells" % (lw[0][2].loc(), e[4], sh(L)), "length covers the cells")
                nxt = [x for x in order if nonneg(comb(x[0], comb(e[0], e[1], 1), -1)) and x is not e]
                end = nxt[0][0] if nxt else size
                c.judge(nonneg(comb(end, comb(e[0], scale(L, wd), 1), -1)), "w|room|%s" % e[4], "%s: %s cells of %s reach into the next section" % (lw[0][2].loc(), sh(L), e[4]), "length stays within the section")
                w.sections.append((e[4], e[3], e[0], L, wd, lw[0]))
    miss = [h for h in cw if h not in [s[0] for s in w.sections]]
    c.judge(not miss, "w|missing", "%s: getBlob leaves out %s" % (f.loc(), ", ".join(miss)), "every heap is in the blob")
    w.words = words
    return w

def resolver(w, base):
    """loads from the blob -> the value the writer stored there"""
    def res(f):
        if f[0] != "mem" or f[2] != 4: return None
        d, k = nl(f[1], res)
        if d.get(base) != 1: return None
        d = dict(d); del d[base]
        for x in w.words:
            if eqn(x[0], (d, k)): return nl(x[4]) if x[4][0] != "mem" else None
        return None
    res.memo = {}
    return res

def loads(fms, base):
    out = set()
    for f in fms:
        if f is None: continue
        for y in subforms(f):
            if y[0] == "mem" and contains(y, base): out.add(y)
    return out

def reader(prog, c, w):
    f = prog.fn(CD + "::deserializeBlob"); c.fn(f)
    bi = [i for i, p in enumerate(f.params) if p["t"].replace(" ", "") == "void*"][0]
    base = ("param", bi, f.params[bi]["n"])
    fl = Flow(prog, f, inl, byt=True)
    res = resolver(w, base)
    off, stores, copies = collect(prog, fl, base, res)
    c.judge(not stores, "r|writes", "%s: deserializeBlob writes into the blob" % f.loc())
    cw = cellwidths(prog)
    g = fl.g
    got = {}
    for n, st, dst, src, ln in copies:
        o = off(src)
        if o is None: continue
        h = heapof(dst)
        name = h or "indexed"
        bad = [x for x in loads([src, ln], base) if res(x) is None]
        c.judge(not bad, "r|load|" + name, "%s: the section of %s is located with a word the writer does not write as a length (%s)" % (n.loc(), name, ", ".join(show(x) for x in bad)[:160]), "lengths read where they are written")
        secs = [s for s in w.sections if eqn(s[2], o)]
        if len(secs) != 1:
            c.bad("r|place|" + name, "%s: %s is read at offset %s where no section begins" % (n.loc(), name, sh(o))); continue
        s = secs[0]
        c.judge(s[0] == name, "r|which|" + name, "%s: the section of %s is read into %s" % (n.loc(), s[0], name), "section read into its own heap")
        size = nl(ln, res)
        c.judge(eqn(size, scale(s[3], s[4])), "r|bytes|" + name, "%s: %s bytes are read for %s, the section has %s" % (n.loc(), sh(size), name, sh(scale(s[3], s[4]))), "whole section read")
        got.setdefault(name, []).append(n)
        # room
        if h is not None:
            grow = [(m, a) for m, st2, o2, a in fl.calls(lambda q: q.startswith(HP) and last(q) == "increaseHeap") if o2 is not None and o2[0] == "f" and last(o2[2]) == h]
            ok = any(eqn(nl(a[0], res), comb(s[3], ({}, 1), -1)) and not avoid(g, g.entry, {n.i}, {m.i}) for m, a in grow) and len({m.i for m, a in grow}) == 1
            c.judge(ok, "r|grow|" + h, "%s: %s is not enlarged by exactly the number of cells read (less cell 0)" % (n.loc(), h), "heap enlarged to the section's length")
        else:
            v = vecof(n.ev[3][0])
            ok = any(eqn(nl(a[0], res), s[3]) and not avoid(g, g.entry, {n.i}, {m.i}) for m, st2, o2, a in fl.calls(lambda q: q.startswith("std::vector") and last(q) in ("resize", "vector")) if m.ev[2] == v and a)
            c.judge(ok, "r|grow|indexed", "%s: the list of indexed FSs is not sized to the section" % n.loc(), "list sized to the section")
        # left out only when empty
        least = 1 if h is not None else 0
        back = reachers(g, {n.i})
        for m in g.nodes:
            if m.i not in back or m.i not in fl.at or m.i == n.i: continue
            for t, lab in m.succ:
                if t.i in back or (lab is not None and lab[0] == "eh"): continue
                if not reach_exit(g, t): continue
                ok = False
                if lab is not None and lab[0] == "t":
                    for st2 in fl.at[m.i]:
                        cond = fl.sub(lab[1], st2[1])
                        cond = cond if lab[2] else neg(cond)
                        ok = empties(cond, res, s[3], least) or branch_key(cond, base)
                        if not ok: break
                c.judge(ok, "r|skip|" + name, "%s: the section of %s can be left out although it is not empty" % (m.loc(), name), "section left out only when empty")
    for s in w.sections:
        c.judge(s[0] in got, "r|missing|" + s[0], "%s: deserializeBlob does not read %s" % (f.loc(), s[0]), "%s read" % s[0])
    # the list goes to deserializeIndexedFSs
    call = [n for n, st, o, a in fl.calls(lambda q: last(q) == "deserializeIndexedFSs")]
    c.judge(bool(call), "r|index", "%s: the FSs are not indexed" % f.loc(), "FSs indexed")
    for n in call:
        dsts = [vecof(x[0].ev[3][0]) for x in copies if heapof(x[2]) is None and off(x[3]) is not None]
        c.judge(n.ev[3][0] in dsts, "r|indexarg", "%s: indexes another list than the one read" % n.loc())
        s = [x for x in w.sections if x[1] == "vec"][0]
        back = reachers(g, {n.i})
        for m in g.nodes:
            if m.i not in back or m.i not in fl.at or m.i == n.i: continue
            for t, lab in m.succ:
                if t.i in back or (lab is not None and lab[0] == "eh") or not reach_exit(g, t): continue
                ok = lab is not None and lab[0] == "t"
                for st2 in fl.at[m.i] if ok else ():
                    cond = fl.sub(lab[1], st2[1]); cond = cond if lab[2] else neg(cond)
                    ok = ok and empties(cond, res, s[3], 0)
                c.judge(ok, "r|skipindex", "%s: the FSs can be left un-indexed" % m.loc())
    # swap: exactly when the reversed key is found, before anything else is read
    sw = [n for n, st, o, a in fl.calls(lambda q: last(q) == "swapBlob")]
    c.judge(bool(sw), "r|swap", "%s: a blob of the other byte order is not swapped" % f.loc(), "swap of foreign byte order")
    ks = w.key[1][1]
    for n, st, o, a in fl.calls(lambda q: last(q) == "swapBlob"):
        ok = any(x[0] == "eq" and x[2] == 0 and {abs(k) for y, k in x[1]} == {1} and {repr(y) for y, k in x[1]} == {repr(("mem", base, 4)), repr(("mem", ("str", ks[::-1]), 4))} for x in st[0])
        c.judge(ok, "r|swapkey", "%s: the blob is swapped without its key being the reversed key" % n.loc(), "swapped exactly when the key is reversed")
        c.judge(a[0] == base, "r|swaparg", "%s: swaps something else than the blob" % n.loc())
        for m, st2, dst, src, ln in copies:
            c.judge(not avoid(g, m, {n.i}, set()), "r|swaplate", "%s: the blob is swapped after parts of it have been read" % n.loc())
    # if the test is negative the key is not reversed: edges that avoid the swap must establish !=
    back = reachers(g, {n.i for n in sw})
    for m in g.nodes:
        if m.i not in back or m.i not in fl.at or m in sw: continue
        for t, lab in m.succ:
            if t.i in back or (lab is not None and lab[0] == "eh") or not reach_exit(g, t): continue
            ok = False
            if lab is not None and lab[0] == "t":
                ok = True
                for st2 in fl.at[m.i]:
                    cond = fl.sub(lab[1], st2[1]); cond = cond if lab[2] else neg(cond)
                    ok = ok and cond[0] == "cmp" and cond[1] == "!=" and {repr(cond[2]), repr(cond[3])} == {repr(("mem", base, 4)), repr(("mem", ("str", ks[::-1]), 4))}
            c.judge(ok, "r|noswap", "%s: a blob with the reversed key can go unswapped" % m.loc())

def skips(g, fl, ns, goals):
    """edges that leave the nodes from which ns is reached, towards a goal"""
    back = reachers(g, ns)
    for m in g.nodes:
        if m.i not in back or m.i not in fl.at or m.i in ns: continue
        for t, lab in m.succ:
            if t.i in back or (lab is not None and lab[0] == "eh"): continue
            if t.i in goals or avoid(g, t, goals, set()): yield m, t, lab

def reachers(g, goals):
    pred = {}
    for n in g.nodes:
        for t, l in n.succ:
            if l is not None and l[0] == "eh": continue
            pred.setdefault(t.i, []).append(n.i)
    seen, todo = set(), list(goals)
    while todo:
        i = todo.pop()
        if i in seen: continue
        seen.add(i); todo += pred.get(i, [])
    return seen
def reach_exit(g, t): return avoid(g, t, {g.exit.i}, set())

def branch_key(cond, base):
    """the condition does not concern a section (the key test)"""
    return False

def empties(cond, res, L, least):
    """cond implies L <= least"""
    if cond is None: return False
    at = atom(cond)
    if cond[0] == "cmp":
        a, b = nl(cond[2], res), nl(cond[3], res); o = cond[1]
        d = comb(a, b, -1)      # a - b  o  0
        want = comb(L, ({}, least), -1)   # <= 0
        if o == "<=": return eqn(d, want) or (d[0] == want[0] and d[1] >= want[1])
        if o == "<": d = (d[0], d[1] + 1); return d[0] == want[0] and d[1] >= want[1]
        if o == ">=": d = scale(d, -1); return d[0] == want[0] and d[1] >= want[1]
        if o == ">": d = scale(d, -1); return d[0] == want[0] and d[1] + 1 >= want[1]
        if o == "==": return (d[0] == L[0] and d[1] >= L[1] - least) or (scale(d, -1)[0] == L[0] and scale(d, -1)[1] >= L[1] - least)
    if cond[0] == "not": return eqn(nl(cond[1], res), L)
    return False

def revfn(prog, c, q):
    """the function reverses the bytes of its argument; -> width or None"""
    if q.startswith("__builtin_bswap"): return int(q[15:]) // 8
    if q in ("bswap_16", "bswap_32", "bswap_64", "__bswap_16", "__bswap_32", "__bswap_64"): return int(q[-2:]) // 8
    if q not in prog.byq: return None
    f = prog.fn(q); c.fn(f)
    wd = width(f.params[0]["t"])
    fl = Flow(prog, f, lambda t, fr: False, byt=True)
    src = None; got = {}; buf = None
    for n, st, loc, v in fl.stores():
        if loc[0] != "mem" or loc[2] != 1: continue
        d, k = nl(loc[1]); 
        if len(d) != 1: return None
        b = list(d)[0]
        if v is None or v[0] != "mem" or v[2] != 1: return None
        e, k2 = nl(v[1])
        if len(e) != 1: return None
        if buf not in (None, b) or src not in (None, list(e)[0]): return None
        buf, src = b, list(e)[0]
        got[k] = k2
    if got != {i: wd - 1 - i for i in range(wd)}: return 0
    for n, st, v in fl.rets():
        if v is None or v[0] != "mem" or v[2] != wd or nl(v[1]) != ({buf: 1}, 0): return 0
    return wd

def swapfn(prog, c, q):
    """(buffer, count): every element replaced by its reverse; -> element width or 0"""
    f = prog.fn(q); c.fn(f)
    fl = Flow(prog, f, lambda t, fr: False, byt=True)
    p0 = ("param", 0, f.params[0]["n"]); p1 = ("param", 1, f.params[1]["n"])
    ok = 0
    for n, st, loc, v in fl.stores():
        if loc[0] != "mem": continue
        d, k = nl(loc[1]); wd = loc[2]
        ph = [x for x in d if x[0] == "phi"]
        if len(ph) != 1 or k != 0: return 0
        if d.get(p0) == 1 and d[ph[0]] == wd: cnt = fl.counter(ph[0]); good = cnt == (("int", 0), 1); up = {ph[0]: 1, p1: -1}, -1
        elif d == {ph[0]: 1}: cnt = fl.counter(ph[0]); good = cnt == (p0, wd); up = None
        else: return 0
        if not good: return 0
        if v is None or v[0] != "call" or len(v[3]) != 1 or v[3][0] != loc: return 0
        if revfn(prog, c, v[1]) != wd: return 0
        if up is not None:
            # every element: the loop is left only at the bound
            if not entails_le(st[0], *up): return 0
            lim = [m for m in fl.g.nodes if m.k == "br" and m.i in fl.at]
            if len(lim) != 1: return 0
            ex = [l for t, l in lim[0].succ if l is not None and l[0] == "t"]
            okx = False
            for l in ex:
                for s2 in fl.at[lim[0].i]:
                    cond = fl.sub(l[1], s2[1]); cond = cond if l[2] else neg(cond)
                    if cond[0] == "cmp" and cond[1] in (">=", "==") and cond[2] == ph[0] and cond[3] == p1: okx = True
                    if cond[0] == "cmp" and cond[1] in ("<=", "==") and cond[3] == ph[0] and cond[2] == p1: okx = True
            if not okx: return 0
        ok = wd
    return ok

def swapper(prog, c, w):
    f = prog.fn(CD + "::swapBlob"); c.fn(f)
    base = ("param", 0, f.params[0]["n"])
    fl = Flow(prog, f, inl, byt=True)
    res = resolver(w, base)
    def off(a):
        d, k = nl(a, res)
        if d.get(base) != 1: return None
        d = dict(d); del d[base]
        return d, k
    regs = []
    wds = {}
    for n, st, o, a in fl.calls(lambda q: q in prog.byq and isswapper(prog.byq[q][0])):
        q = n.ev[0]
        if q not in wds:
            wds[q] = swapfn(prog, c, q)
            c.judge(wds[q], "s|fn|" + q, "%s: %s does not reverse the bytes of every element" % (prog.fn(q).loc(), q), "%s reverses every element" % q)
        o = off(a[0])
        bad = [x for x in loads(list(a), base) if res(x) is None]
        c.judge(o is not None and not bad, "s|load|%s" % q, "%s: swaps at a place or for a count that is not derived from the written lengths" % n.loc(), "swap located by written lengths")
        if o is None or bad: continue
        cnt = nl(a[1], res)
        # lengths must be swapped before they are used
        regs.append((o, cnt, wds[q], n, [x for x in loads(list(a), base)]))
    if len(regs) < 4: raise AnalysisBroken("swapped regions: %d" % len(regs))
    def covers(r, o, wd):
        d = comb(o, r[0], -1)
        return not d[0] and not r[1][0] and 0 <= d[1] < r[2] * r[1][1] and d[1] % r[2] == 0 and r[2] == wd
    for x in w.words:
        cv = [r for r in regs if covers(r, x[0], 4)]
        c.judge(len({r[3].i for r in cv}) == 1, "s|word|%s" % sh(x[0])[:60], "%s: the word at offset %s is swapped %d times" % (f.loc(), sh(x[0]), len({r[3].i for r in cv})), "word swapped once")
        for r in cv:
            for r2 in regs:
                for l in r2[4]:
                    d, k = nl(l[1], res); d = dict(d); d.pop(base, None)
                    if eqn((d, k), x[0]): c.judge(not avoid(fl.g, fl.g.entry, {r2[3].i}, {r[3].i}), "s|order", "%s: a length is used before it is swapped" % r2[3].loc(), "length swapped before use")
    for name, kind, o, L, wd, lw in w.sections:
        cv = [r for r in regs if eqn(r[0], o) and not (not r[1][0] and any(covers(r, x[0], 4) for x in w.words))]
        if wd == 1: c.judge(not cv, "s|sec|" + name, "%s: single bytes of %s are swapped" % (f.loc(), name), "bytes not swapped"); continue
        ok = len({r[3].i for r in cv}) == 1 and cv[0][2] == wd and eqn(cv[0][1], L)
        c.judge(ok, "s|sec|" + name, "%s: the %s cells of %d bytes of %s are not swapped exactly once each" % (f.loc(), sh(L), wd, name), "%s swapped" % name)
    # no swap is skipped
    for r in regs: c.judge(not avoid(fl.g, fl.g.entry, {fl.g.exit.i}, {r[3].i}), "s|skip", "%s: the swap can be left out" % r[3].loc())

# ------------------------------------------------------------------ index section
def indexed_writer(prog, c):
    f = prog.fn(CS + "::serializeIndexedFSs"); c.fn(f)
    g = Graph(prog, f, inline=lambda t, fr: (t.cls == CS or t.cls is None and t.file == f.file), depth=3); L = Loops(g)
    out = ("param", 1, f.params[1]["n"])
    clr = [n.i for n in calls(g, L, lambda n: std(n, "clear", out) or (n.ev[2] == out and last(n.ev[0]) == "resize" and num(prog, n.ev[3][0]) == 0))]
    em = calls(g, L, lambda n: n.ev[2] == out and last(n.ev[0]) in ("push_back", "insert", "emplace_back"))
    c.judge(bool(clr) and all(L.dom(n.i, clr) for n in em), "iw|clear", "%s: the list is not emptied first" % f.loc(), "list emptied first")
    # the view loop
    per = [n for n in em if L.enclosing(n)]
    head = [n for n in em if not L.enclosing(n)]
    ok = len(head) == 1 and last(head[0].ev[0]) == "push_back" and all(L.dom(n.i, [head[0].i]) for n in per)
    nv = head[0].ev[3][0] if ok else None
    c.judge(ok and any(v is not None and v[0] == "f" and last(v[2]) == "iv_sofaCount" for v in values(g, nv)), "iw|views", "%s: the list does not begin with the number of views" % f.loc(), "number of views first")
    lps = {L.enclosing(n)[-1].head for n in per}
    if len(lps) != 1: raise AnalysisBroken("view loop of serializeIndexedFSs")
    lp = L.loops[list(lps)[0]]
    vl = bounds(prog, g, L, lp)
    c.judge(vl is not None and vl[1] == 0 and vl[2] is not None and (vl[2] == (nv, 1) or nv in [x for x in values(g, vl[2][0])] and vl[2][1] == 1), "iw|range", "%s: the views written are not 0..number of views" % g.nodes[lp.head].loc(), "views 0..n written")
    view = vl[0] if vl else None
    # each round: count, then exactly count entries
    pb = [n for n in per if last(n.ev[0]) in ("push_back", "emplace_back")]; ins = [n for n in per if last(n.ev[0]) == "insert"]
    def once(ns, extra=()):
        return all(not L.path(L.succs(a.i), [b.i for b in ns], [lp.head], within=lp.body) for a in ns)
    c.judge(once(pb) and not L.cycle_avoids(lp, [n.i for n in pb]), "iw|count", "%s: a view is written without its number of members, or with two" % g.nodes[lp.head].loc(), "each view has one count")
    locs = set(); zeros = []
    for n in pb:
        v = n.ev[3][0]
        if num(prog, v) == 0:
            c.judge(not L.path(L.succs(n.i), [m.i for m in ins], [lp.head]), "iw|zero", "%s: entries follow a count of 0" % n.loc(), "no entries after 0")
            zeros.append(n); continue
        nxt = [m for m in ins if L.path(L.succs(n.i), [m.i], [lp.head])]
        good = bool(nxt) and not L.path(L.succs(n.i), [lp.head], [m.i for m in nxt], within=lp.body)
        for m in nxt:
            a = [x for x in m.ev[3]]
            good = good and len(a) == 3 and a[0] is not None and deref(g, a[0], "end", out) and rangelen(g, v, a[1], a[2])
            b0 = unconv(a[1]) if len(a) == 3 else None
            if b0 is not None and b0[0] == "call" and b0[2] is not None: locs.add(b0[2])
        c.judge(good, "iw|entries", "%s: the number written (%s) is not the number of entries that follow" % (n.loc(), show(v)), "count equals the entries written")
    for m in ins:
        c.judge(L.dom(m.i, [n.i for n in pb if num(prog, n.ev[3][0]) != 0]) or not L.path([lp.head], [m.i], [n.i for n in pb if num(prog, n.ev[3][0]) != 0]), "iw|nocount", "%s: entries without a count" % m.loc())
    # contents: every element of every index of every used type, and the members without index
    for src in locs:
        adds = calls(g, L, lambda n: n.ev[2] == src and last(n.ev[0]) in ("push_back", "emplace_back") and n.i in lp.body)
        it = [n for n in adds if any(y[0] == "call" and last(y[1]) == "get" for y in subforms(n.ev[3][0]) ) or any(y[0] == "call" and last(y[1]) == "get" for v in values(g, n.ev[3][0]) if v is not None for y in subforms(v))]
        un = [n for n in adds if any(y[0] == "f" and last(y[2]) == "iv_undefinedindex" for y in subforms(n.ev[3][0])) or any(y[0] == "f" and last(y[2]) == "iv_undefinedindex" for v in values(g, n.ev[3][0]) if v is not None for y in subforms(v))]
        un += calls(g, L, lambda n: n.ev[2] == src and last(n.ev[0]) == "insert" and n.i in lp.body and any(y[0] == "f" and last(y[2]) == "iv_undefinedindex" for a in n.ev[3] if a is not None for y in subforms(a)))
        # a count of 0 is not written when something was collected
        for n in zeros:
            for a in adds:
                c.judge(not unproven(g, a, n, lp.head, lambda cnd, pol: saysempty(cnd, pol, src)), "iw|dropped", "%s: members collected (%s) are dropped: a count of 0 is written without %s being empty" % (n.loc(), a.loc(), show(src)), "0 is written only when nothing was collected")
        c.judge(bool(it), "iw|members", "%s: the members of the indexes are not written" % f.loc(), "members of indexes written")
        c.judge(bool(un), "iw|unindexed", "%s: members of types without index are not written" % f.loc(), "members without index written")
        for n in it:
            ls = [l for l in L.enclosing(n) if l.head != lp.head]
            why = None
            kinds = []
            for l in ls:
                i = L.iteration(l)
                inner = [x for x in ls if len(x.body) < len(l.body)]
                if i.kind == "iter":
                    w_ = protocol(L, i)
                    if w_: why = w_
                    if L.cycle_avoids(l, [n.i]): why = why or "an element can be skipped"
                    kinds.append("iter")
                elif i.cont is not None:
                    if not i.full(): why = i.why()
                    if inner and L.cycle_avoids(l, [max(inner, key=lambda x: len(x.body)).head]): why = why or "an index can be skipped"
                    kinds.append("cont")
                else: why = "a loop over the members is not recognised as complete"
            c.judge(why is None and sorted(kinds) == ["cont", "cont", "iter"], "iw|all", "%s: not every member of every used type's indexes is written: %s" % (n.loc(), why or kinds), "all members of all used types")
            tl = [L.iteration(l).cont for l in ls if L.iteration(l).cont is not None]
            used = calls(g, L, lambda m: last(m.ev[0]) == "getUsedIndexes" and m.i in lp.body)
            c.judge(bool(used) and any(t in [a for m in used for a in m.ev[3]] for t in tl), "iw|used", "%s: the types written are not the used types" % n.loc(), "types are the used types")
            for m in used:
                same = [x for x in calls(g, L, lambda x: last(x.ev[0]) == "getAllSingleIndexesForType" and x.i in lp.body)]
                c.judge(all(x.ev[2] == m.ev[2] for x in same), "iw|repo", "%s: the types of one repository are looked up in another" % m.loc())
        for n in un:
            if last(n.ev[0]) == "insert": continue
            l = L.innermost(n); i = L.iteration(l)
            c.judge(l.head != lp.head and i.full() and not L.cycle_avoids(l, [n.i]), "iw|allun", "%s: not every member without index is written: %s" % (n.loc(), i.why()), "all members without index")
        # duplicates: unique after sort
        uq = calls(g, L, lambda n: last(n.ev[0]) == "unique" and n.ev[0].startswith("std::"))
        so = calls(g, L, lambda n: last(n.ev[0]) in ("sort", "stable_sort") and n.ev[0].startswith("std::"))
        for n in uq: c.judge(L.dom(n.i, [m.i for m in so]) and not any(L.path(L.succs(m.i), [a.i], [lp.head]) and L.path([a.i], [n.i], [lp.head]) for m in so for a in adds), "iw|sort", "%s: duplicates are removed from an unsorted list" % n.loc(), "sorted before removing duplicates")
    # which repository: view v's own
    for n in g.nodes:
        if n.k == "set" and n.i in lp.body and n.ev[0] is not None and n.ev[2] is not None and n.ev[2][0] == "idx" and n.ev[2][1] is not None and n.ev[2][1][0] == "f" and last(n.ev[2][1][2]) == "iv_sofa2indexMap":
            c.judge(n.ev[2][2] == view, "iw|viewrepo", "%s: the members of view %s are taken from another view" % (n.loc(), show(view)), "repository of the view itself")

def unproven(g, a, n, stop, proves):
    """a path from a to n (not through stop) on which no branch proves the condition"""
    todo, seen = [a], {a.i}
    while todo:
        m = todo.pop()
        for t, lab in m.succ:
            if t.i in seen or t.i == stop or (lab is not None and lab[0] == "t" and lab[1] is not None and proves(lab[1], lab[2])): continue
            if t.i == n.i: return True
            seen.add(t.i); todo.append(t)
    return False

def saysempty(cond, pol, src):
    r = atom(cond)
    if r is None: return False
    at, p = r[0], (r[1] == pol)
    def sz(x): return x[0] == "call" and last(x[1]) in ("size", "length") and x[2] == src
    if at[0] == "eq" and len(at[1]) == 1 and sz(at[1][0][0]) and at[2] == 0: return p
    if at[0] == "le" and len(at[1]) == 1 and sz(at[1][0][0]):
        return p and at[1][0][1] > 0 and at[2] <= 0 or (not p and at[1][0][1] < 0 and at[2] >= -1)
    if at[0] == "b" and sz(at[1]): return not p
    if at[0] == "b" and at[1][0] == "call" and last(at[1][1]) == "empty" and at[1][2] == src: return p
    if at[0] == "eq" and at[2] == 0 and {last(x[1]) for x, k in at[1] if x[0] == "call" and x[2] == src} == {"begin", "end"} and len(at[1]) == 2: return p
    return False

def flat(ev):
    for x in ev or ():
        if isinstance(x, tuple) and x and not isinstance(x[0], str): yield from flat(x)
        elif isinstance(x, tuple) and x: yield x

def bounds(prog, g, L, lp):
    """counting loop: (var, start, (exclusive end as (form, const)))"""
    for n, t, l in L.exits(lp):
        if L.throws(t.i): continue
        cnd = exitcond(l)
        if cnd is None or cnd[0] != "cmp": continue
        for a, b, op in ((cnd[2], cnd[3], cnd[1]), (cnd[3], cnd[2], {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(cnd[1], cnd[1]))):
            if a is None or a[0] != "var" or op not in (">", ">=", "=="): continue
            eff = [(m, effect(m, a)) for m in g.nodes if m.i in L.live and effect(m, a) is not None]
            steps = [m.i for m, e in eff if m.i in lp.body]
            st = [e for m, e in eff if m.i not in lp.body and isinstance(e, tuple)]
            if not steps or any(e != "step" for m, e in eff if m.i in lp.body) or L.cycle_avoids(lp, steps): continue
            if len(st) != 1 or num(prog, st[0]) is None: continue
            d, k = lin(b, prog)
            if len(d) != 1 or list(d.values()) != [1]: continue
            s0, k = num(prog, st[0]), k + (1 if op == ">" else 0)
            def uses(m): return any(f is not None and not isinstance(f, str) and contains(f, a) for f in flat(m.ev))
            us = [m.i for m in g.nodes if m.i in lp.body and m.i != n.i and m.i not in steps and uses(m)]
            ins = [t2.i for t2, l2 in n.succ if t2.i in lp.body]
            if not L.path([lp.head], [n.i], steps, within=lp.body): return a, s0 + 1, (list(d)[0], k)
            pre = [u for u in us if L.path(ins, [u], set(steps) | {lp.head}, within=lp.body)]
            if us and not pre: return a, s0 + 1, (list(d)[0], k + 1)
            post = [u for u in us if any(L.path(L.succs(s), [u], [lp.head], within=lp.body) for s in steps)]
            if post: continue
            return a, s0, (list(d)[0], k)
    return None

def deref(g, f, name, obj):
    f = unconv(f)
    return f is not None and f[0] == "call" and last(f[1]) in (name, "c" + name) and f[2] == obj

def rangelen(g, v, b, e):
    """v == e - b"""
    v, b, e = unconv(v), unconv(b), unconv(e)
    es = [unconv(x) for x in values(g, e) if x is not None] + [e]; bs = [unconv(x) for x in values(g, b) if x is not None] + [b]
    for w in [v] + [x for x in values(g, v) if x is not None]:
        if w is None: continue
        if w[0] == "call" and last(w[1]) in ("operator-",):
            a = ([w[2]] if w[2] is not None else []) + list(w[3])
            if len(a) == 2 and unconv(a[0]) in es and unconv(a[1]) in bs: return True
        if w[0] == "call" and last(w[1]) == "distance" and len(w[3]) == 2 and unconv(w[3][1]) in es and unconv(w[3][0]) in bs: return True
        if w[0] == "op" and w[1] == "-" and w[2] in es and w[3] in bs: return True
        if w[0] == "call" and last(w[1]) == "size" and b is not None and b[0] == "call" and last(b[1]) in ("begin", "cbegin") and b[2] == w[2] and any(x[0] == "call" and last(x[1]) in ("end", "cend") and x[2] == w[2] for x in es): return True
    return False

def indexed_reader(prog, c):
    f = prog.fn(CD + "::deserializeIndexedFSs"); c.fn(f)
    P = ("param", 0, f.params[0]["n"])
    fl = Flow(prog, f, lambda t, fr: t.cls == CD or (t.cls is None and t.file == f.file), byt=True)
    g = fl.g
    beg = [x for x in (("call", q, P, ()) for q in ()) ]
    # cursor: the variable that starts at begin()
    cur = {}
    for (head, lv), (ini, bk) in fl.phi.items():
        for v in ini:
            d, k = nl(v)
            b = [x for x in d if x[0] == "call" and last(x[1]) in ("begin", "cbegin") and x[2] == P]
            if b and d.get(b[0]) == 1: cur[(head, lv)] = (b[0], ini, bk)
            # an index into the list
    if not cur: raise AnalysisBroken("cursor of deserializeIndexedFSs")
    B = list(cur.values())[0][0]
    def zero(facts, x): return any(fa[0] == "eq" and fa[2] == 0 and fa[1] == ((x, 1),) for fa in facts) or any(fa[0] == "nb" and fa[1] == x for fa in facts) or entails_le(facts, {x: 1}, 0)
    # the view loop: the one with back values depending on the cursor
    moved = {k: v for k, v in cur.items() if any(b != ("phi", k[0], k[1]) for b in v[2])}
    vl = []
    for (head, lv), (b, ini, bk) in moved.items():
        phi = ("phi", head, lv)
        # entry: begin + 2 + mem(begin + 1)
        m0 = ("mem", B, 0); m1 = ("mem", ("op", "+", B, ("int", 1)), 0)
        for st in {s for p in g.nodes for t, l in p.succ if t.i == head and (p.i, head) not in fl.back for s in fl.at.get(p.i, ())}:
            pass
        c.count("cursors")
        okin = True
        for p in g.nodes:
            for t, l in p.succ:
                if t.i != head or (p.i, head) in fl.back: continue
                for st in fl.at.get(p.i, ()):
                    d, k = nl(fl.val(lv, st))
                    okin = okin and (d == {B: 1, m1: 1} and k == 2 or d == {B: 1} and k == 2 and zero(st[0], m1))
        c.judge(okin, "ir|base", "%s: after the base CAS the cursor does not stand behind its entries" % f.loc(), "cursor behind the base entries")
        okb = True; n_ = 0
        for p in g.nodes:
            for t, l in p.succ:
                if t.i != head or (p.i, head) not in fl.back: continue
                for st in fl.at.get(p.i, ()):
                    n_ += 1
                    d, k = nl(fl.val(lv, st))
                    mm = ("mem", phi, 0)
                    good = (d == {phi: 1, mm: 1} and k == 1) or (d == {phi: 1} and k == 1 and zero(st[0], mm))
                    if not good:
                        # element-wise: not recognised
                        okb = False
        c.judge(okb and n_ > 0, "ir|view", "%s: for a view the cursor is not moved by one plus the number of its entries on every path" % f.loc(), "cursor moves over each view's entries")
        vl.append((head, phi))
    c.judge(len(vl) == 1, "ir|one", "%s: no loop over the views consumes the entries" % f.loc())
    if len(vl) != 1: return
    head, phi = vl[0]
    # number of rounds: 1..mem(begin)
    m0 = ("mem", B, 0)
    okr = False; V = None
    vargs = {y[3][0] for n, st, o, a in fl.calls(lambda q: last(q) == "add" and q.startswith("uima::lowlevel::IndexRepository")) if n.i in fl.loops[head] and o is not None for y in subforms(o) if y[0] == "call" and last(y[1]) == "getViewBySofaNum"} | {y[2] for n, st, o, a in fl.calls(lambda q: last(q) == "add" and q.startswith("uima::lowlevel::IndexRepository")) if n.i in fl.loops[head] and o is not None for y in subforms(o) if y[0] == "idx" and y[1][0] == "f" and last(y[1][2]) == "iv_sofa2indexMap"}
    for (h, lv), (ini, bk) in fl.phi.items():
        if h != head: continue
        cn = fl.counter(("phi", h, lv))
        if cn is None or cn[1] != 1: continue
        ph = ("phi", h, lv)
        for m in g.nodes:
            if m.i not in fl.loops[head] or m.k != "br": continue
            for t, l in m.succ:
                if t.i in fl.loops[head] or l is None or l[0] != "t": continue
                for st in fl.at.get(m.i, ()):
                    cond = fl.sub(l[1], st[1]); cond = cond if l[2] else neg(cond)
                    if cond[0] != "cmp": continue
                    d = comb(nl(cond[2]), nl(cond[3]), -1); o = cond[1]
                    if o in ("<", "<="): d = scale(d, -1); o = {"<": ">", "<=": ">="}[o]
                    if d[0] == {ph: 1, m0: -1}:
                        first = num(prog, cn[0])
                        # exits when ph - m0 + k (o) 0
                        lastv = -d[1] if o == ">" else -d[1] - 1
                        for va in vargs or {ph}:
                            dv = nl(va)
                            if dv[0] == {ph: 1} and first is not None: okr = first + dv[1] == 1 and lastv + dv[1] == 0; V = va
    c.judge(okr, "ir|rounds", "%s: the views read are not 1..number of views" % f.loc(), "views 1..n read")
    # what is added: every entry, to the repository of the view
    adds = [(n, st, o, a) for n, st, o, a in fl.calls(lambda q: last(q) == "add" and q.startswith("uima::lowlevel::IndexRepository"))]
    sites = {n.i: n for n, st, o, a in adds}
    inl_, out_ = [n for n in sites.values() if n.i in fl.loops[head]], [n for n in sites.values() if n.i not in fl.loops[head]]
    c.judge(bool(inl_), "ir|add", "%s: the members of the views are not indexed" % f.loc(), "members of views indexed")
    c.judge(bool(out_), "ir|addbase", "%s: the members of the base CAS are not indexed" % f.loc(), "members of the base CAS indexed")
    g2 = Graph(prog, f, inline=lambda t, fr: t.cls == CD or (t.cls is None and t.file == f.file), depth=4); L = Loops(g2)
    for n in calls(g2, L, lambda n: last(n.ev[0]) == "add" and n.ev[0].startswith("uima::lowlevel::IndexRepository")):
        lp = L.innermost(n)
        it = L.iteration(lp) if lp is not None else None
        if it is not None and it.kind in ("it", "ix") and it.cont is not None:
            v = n.ev[3][0]
            if it.cont != P:
                # the entries of one view only
                fresh = [m.i for m in g2.nodes if m.i in L.live and (m.k == "set" and m.ev[0] == it.cont or m.k == "call" and m.ev[2] == it.cont and (last(m.ev[0]) in ("clear", "assign", "operator=", "vector", "swap") or last(m.ev[0]) == "resize" and num(prog, m.ev[3][0]) == 0))]
                grows = [m for m in calls(g2, L, lambda m: m.ev[2] == it.cont and last(m.ev[0]) in ("insert", "push_back", "emplace_back"))]
                stale = [m for m in grows if L.path(L.succs(n.i), [m.i], fresh)]
                c.judge(not stale, "ir|fresh", "%s: the entries added include those of a view read before (%s is not emptied)" % (n.loc(), show(it.cont)), "list of a view's entries starts empty")
            c.judge(it.full() and it.iselem(v) and not L.cycle_avoids(lp, [n.i]), "ir|each", "%s: not every entry read is added: %s" % (n.loc(), it.why()), "every entry added")
        else:
            # counting loop reading through the cursor
            okc = False
            for m, st, o, a in adds:
                if m.nid == n.nid and a[0] is not None and a[0][0] == "mem":
                    ph = [x for x in nl(a[0][1])[0] if x[0] == "phi"]
                    okc = okc or bool(ph)
            c.judge(okc, "ir|each2", "%s: the entries added are not those of the view" % n.loc())
    # ranges copied: [cursor+1, cursor+1+count)
    for n, st, o, a in fl.calls(lambda q: q.startswith("std::vector") and last(q) in ("insert", "assign")):
        b, e = (a[1], a[2]) if len(a) == 3 else (a[0], a[1]) if len(a) == 2 else (None, None)
        if b is None: continue
        inside = n.i in fl.loops[head]
        base, cnt = (phi, ("mem", phi, 0)) if inside else (("op", "+", B, ("int", 1)), ("mem", ("op", "+", B, ("int", 1)), 0))
        x, y = nl(b), nl(e); z = nl(base)
        ok = eqn(x, comb(z, ({}, 1), 1)) and eqn(comb(y, x, -1), ({cnt: 1}, 0))
        c.judge(ok, "ir|range|%s" % ("view" if inside else "base"), "%s: the entries taken are not those that follow the count" % n.loc(), "entries are those behind the count")
    for n, st, o, a in adds:
        src = o
        while src is not None and src[0] == "call" and last(src[1]) in ("getIndexRepository", "promoteCAS", "getBaseIndexRepository") : src = src[2] if src[2] is not None else src[3][0]
        if src is not None and src[0] == "f" and last(src[2]) == "iv_indexRepository": src = src[1]
        if n.i in fl.loops[head]:
            ok = src is not None and any(y[0] == "call" and last(y[1]) == "getViewBySofaNum" and okr and y[3] == (V,) for y in subforms(src)) or (src is not None and src[0] == "idx" and okr and src[2] == V)
            c.judge(ok, "ir|viewrepo", "%s: the members of a view are added to another view (%s)" % (n.loc(), show(o)), "members added to their own view")

# ------------------------------------------------------------------ heap tables
def tables(prog, c):
    cw = cellwidths(prog)
    def pairs(q, write):
        f = prog.fn(q); c.fn(f)
        fl = Flow(prog, f, lambda t, fr: inl(t, fr) or t.cls == SC, byt=True, depth=6)
        out = {}
        for n, st, loc, v in fl.stores():
            if loc is None or v is None: continue
            tab, mem = (loc, v) if write else (v, loc)
            if tab[0] != "idx" or mem[0] != "mem": continue
            T = tab[1]
            if T[0] != "f" or not T[2].startswith(SC + "::"): continue
            d, k = nl(mem[1])
            hs = [x for x in d if heapof(x)]
            ph = [x for x in d if x[0] == "phi"]
            if len(hs) != 1 or len(ph) != 1: raise AnalysisBroken("%s: copy between a table and a heap" % n.loc())
            h = heapof(hs[0]); wd = mem[2]
            cnt = fl.counter(ph[0])
            ok = d == {hs[0]: 1, ph[0]: wd} and k == 0 and wd == cw[h] and tab[2] == ph[0] and cnt == (("int", 0), 1)
            c.judge(ok, "t|cell|%s|%s" % (last(q), h), "%s: cell and table entry do not correspond (%s / %s)" % (n.loc(), show(mem), show(tab)), "entry i is cell i")
            # bound
            lim = None
            for m in fl.g.nodes:
                if m.k != "br" or m.i not in fl.loops.get(ph[0][1], ()): continue
                for t, l in m.succ:
                    if t.i in fl.loops[ph[0][1]] or l is None or l[0] != "t": continue
                    for s2 in fl.at.get(m.i, ()):
                        cond = fl.sub(l[1], s2[1]); cond = cond if l[2] else neg(cond)
                        if cond[0] == "cmp" and cond[1] in (">=", "==") and cond[2] == ph[0]: lim = cond[3]
                        elif cond[0] == "cmp" and cond[1] in ("<=", "==") and cond[3] == ph[0]: lim = cond[2]
                        else: lim = ("none",)
            out[last(T[2])] = h
            rs = []
            if write:
                okl = lim is not None and topof(h)(lim)
                rs = [m.i for m, s2, o, a in fl.calls(lambda qq: qq.startswith("std::vector") and last(qq) == "resize") if o == T and a and topof(h)(a[0])]
            else:
                okl = lim is not None and lim[0] == "call" and last(lim[1]) == "size" and lim[2] == T
                rs = [m.i for m, s2, o, a in fl.calls(lambda qq: qq.startswith(HP) and last(qq) == "increaseHeap") if o is not None and o[0] == "f" and last(o[2]) == h and nl(ul(a[0])) == ({("call", lim[1], T, ()): 1}, -1)] if okl else []
            c.judge(okl, "t|all|%s|%s" % (last(q), h), "%s: not all cells of %s are copied (bound %s)" % (n.loc(), h, show(lim) if lim else "?"), "all cells copied")
            c.judge(bool(rs) and not avoid(fl.g, fl.g.entry, {n.i}, set(rs)), "t|room|%s|%s" % (last(q), h), "%s: the target is not sized for the cells of %s" % (n.loc(), h), "target sized first")
        return fl, out
    flw, wr = pairs(CS + "::serializeData", True)
    flr, rd = pairs(CD + "::deserializeData", False)
    for t, h in sorted(wr.items()):
        c.count("tables")
        c.judge(rd.get(t) == h, "t|pair|" + t, "%s is written from %s and read into %s" % (t, h, rd.get(t)), "%s belongs to %s on both sides" % (t, h))
    for t, h in rd.items(): c.judge(t in wr, "t|rdonly|" + t, "%s is read but never written" % t)
    left = [h for h in cw if h not in wr.values() and "String" not in h]
    c.judge(not left, "t|left", "heaps %s are not serialised" % ", ".join(left), "all heaps serialised")
    # strings
    tab = SC + "::iv_vecStringSymbolTable"
    okw = None
    pre = [m.i for m, s2, o, a in flw.calls(lambda q: q.startswith("std::vector") and last(q) == "resize") if o is not None and o[0] == "f" and o[2] == tab and num(prog, a[0]) == 1]
    for n, st, o, a in flw.calls(lambda q: q.startswith("std::vector") and last(q) in ("push_back", "emplace_back")):
        if o is None or o[0] != "f" or o[2] != tab: continue
        v = a[0]
        ok = v is not None and v[0] == "ctor" and len(v[2]) == 2
        if ok:
            d, k = nl(v[2][0]); ln = v[2][1]
            hs = [x for x in d if heapof(x) == "iv_clTemporaryStringHeap"]
            rf = [x for x in d if isref(x)]
            ok = len(hs) == 1 and len(rf) == 1 and d == {hs[0]: 1, rf[0]: 2} and k == 0 and isref(ln)
            if ok:
                i, j = refix(rf[0]), refix(ln)
                ph = [x for x in i[0]]
                ok = len(ph) == 1 and ph[0][0] == "phi" and i == ({ph[0]: 1}, 0) and j == ({ph[0]: 1}, 1) and flw.counter(ph[0]) == (("int", 1), 2)
        ok = ok and bool(pre) and not avoid(flw.g, flw.g.entry, {n.i}, set(pre))
        okw = ok if okw is None else okw and ok
    c.judge(bool(okw), "t|strw", "string k of the table is not built from the reference pair 2k-1, 2k", "strings written from their reference pairs")
    st_ = []
    for n, st, loc, v in flr.stores():
        if loc[0] != "mem" or v is None: continue
        d, k = nl(loc[1])
        ph = [x for x in d if x[0] == "phi"]
        if d == {ph[0]: 1} if len(ph) == 1 else False:
            cn = flr.counter(ph[0])
            if cn is None: continue
            d0, k0 = nl(cn[0])
            if len(d0) == 1 and heapof(list(d0)[0]) == "iv_clTemporaryStringRefHeap": st_.append((n, st, k, k0, cn[1], v))
        elif len(ph) == 1:
            hs = [x for x in d if heapof(x) == "iv_clTemporaryStringRefHeap"]
            if hs and d[hs[0]] == 1:
                cn = flr.counter(ph[0])
                if cn is not None and num(prog, cn[0]) is not None: st_.append((n, st, k, d[ph[0]] * num(prog, cn[0]), d[ph[0]] * cn[1], v))
    kinds = {}
    for n, st, k, k0, step, v in st_:
        pos = (k + k0, step)
        tix = [y for y in subforms(v) if y[0] == "idx" and y[1][0] == "f" and y[1][2] == tab]
        ok = len(tix) >= 1 and tix[0][2][0] == "phi" and flr.counter(tix[0][2]) == (("int", 1), 1)
        kind = "ref" if v[0] == "call" and last(v[1]) == "addString" and ok and v[3] == (tix[0],) else "len" if v[0] == "call" and last(v[1]) == "length" and ok and v[2] == tix[0] else None
        c.judge(kind is not None, "t|strr|val", "%s: %s is stored in the string reference heap" % (n.loc(), show(v)), "reference pair from the string itself")
        kinds[kind] = pos
    c.judge(kinds.get("ref") == (4, 8) and kinds.get("len") == (8, 8), "t|strr", "string k of the table is not given the reference pair 2k-1, 2k", "strings read into their reference pairs")
    grow = [a for n, st, o, a in flr.calls(lambda q: q.startswith(HP) and last(q) == "increaseHeap") if o is not None and o[0] == "f" and last(o[2]) == "iv_clTemporaryStringRefHeap"]
    ok = len(grow) >= 1 and all(len(nl(ul(a[0]))[0]) == 1 and nl(ul(a[0]))[1] == -2 and list(nl(ul(a[0]))[0].values()) == [2] and list(nl(ul(a[0]))[0])[0][2] is not None and list(nl(ul(a[0]))[0])[0][2][2] == tab for a in grow)
    c.judge(ok, "t|strgrow", "the string reference heap is not enlarged by two cells per string", "two reference cells per string")

def isref(x):
    return x is not None and ((x[0] == "call" and last(x[1]) == "getHeapValue" and x[2] is not None and x[2][0] == "f" and last(x[2][2]) == "iv_clTemporaryStringRefHeap") or (x[0] in ("mem", "idx") and any(heapof(y) == "iv_clTemporaryStringRefHeap" for y in subforms(x))))
def refix(x):
    if x[0] == "call": return nl(x[3][0])
    if x[0] == "idx": return nl(x[2])
    d, k = nl(x[1])
    d = {y: v for y, v in d.items() if heapof(y) is None}
    return {y: v // 4 for y, v in d.items()}, k // 4
