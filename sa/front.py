"""Front end driver: builds the clang extractor, runs it over the library's
translation units of /repo's *current* tree, merges and caches the result.

The cache key is the content of the extractor, the flags, every header under
/repo/src and the translation unit itself, so a changed source is always
re-parsed."""
import os, sys, json, hashlib, subprocess, glob, marshal, time, fcntl, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
TOOL_SRC = os.path.join(VERIF, "tool", "extract.cpp")

class AnalysisBroken(Exception):
    pass

DEFS = r'''-DPACKAGE_NAME="uimacpp" -DPACKAGE_TARNAME="uimacpp" -DPACKAGE_VERSION="2.5.0" -DPACKAGE="uimacpp" -DVERSION="2.5.0"
-DHAVE_STDIO_H=1 -DHAVE_STDLIB_H=1 -DHAVE_STRING_H=1 -DHAVE_INTTYPES_H=1 -DHAVE_STDINT_H=1 -DHAVE_STRINGS_H=1
-DHAVE_SYS_STAT_H=1 -DHAVE_SYS_TYPES_H=1 -DHAVE_UNISTD_H=1 -DSTDC_HEADERS=1 -DHAVE_DLFCN_H=1
-DLINUX -D_REENTRANT -D_GNU_SOURCE -D_LARGEFILE64_SOURCE -DNDEBUG -DTRACEOFF -DUIMA_PREFIX= -DUIMA_VERSION= -D_UIMA_LIBRARY_'''.split()

def flags():
    inc = ["-I" + os.path.join(REPO, "src", d) for d in ("framework", "cas", "jni")]
    inc += ["-I/usr/include/xercesc", "-I/usr/include/apr-1.0"]
    for j in ("/usr/lib/jvm/java-17-openjdk-amd64/include",):
        inc += ["-I" + j, "-I" + j + "/linux"]
    return ["-std=gnu++17", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"] + DEFS + inc + ["-w", "-fno-access-control"]

def units():
    """The translation units the library build compiles: all of cas, framework, jni."""
    r = []
    for d in ("cas", "framework", "jni"):
        r += sorted(glob.glob(os.path.join(REPO, "src", d, "*.cpp")))
    if len(r) < 60:
        raise AnalysisBroken("only %d translation units found below %s/src" % (len(r), REPO))
    return r

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str): p = p.encode()
        h.update(hashlib.sha256(p).digest())
    return h.hexdigest()

def readb(p):
    with open(p, "rb") as f: return f.read()

def tool():
    os.makedirs(CACHE, exist_ok=True)
    key = sha(readb(TOOL_SRC))[:16]
    exe = os.path.join(CACHE, "extract-" + key)
    if os.path.exists(exe): return exe
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe): return exe
        tmp = exe + ".tmp%d" % os.getpid()
        cmd = ["clang++-18", "-std=c++17", "-O1", "-fno-rtti", "-I/usr/lib/llvm-18/include", TOOL_SRC,
               "-o", tmp, "-L/usr/lib/llvm-18/lib", "-l:libclang-cpp.so.18.1", "-l:libLLVM.so.18.1"]
        if not any(os.path.exists(os.path.join(d, "clang++-18")) for d in os.environ.get("PATH", "").split(":")):
            cmd[0] = "/usr/lib/llvm-18/bin/clang++"
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode: raise AnalysisBroken("extractor does not build: " + p.stderr[-2000:])
        os.rename(tmp, exe)
    return exe

def headers_hash():
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(os.path.join(REPO, "src"))):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".hpp", ".h")):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, REPO).encode()); h.update(readb(p))
    return h.hexdigest()

def run_one(exe, src, out):
    cmd = [exe, REPO, out, src, "--"] + flags()
    p = subprocess.run(cmd, capture_output=True, text=True, cwd=os.path.join(REPO, "src", "framework"))
    if p.returncode or not os.path.exists(out):
        raise AnalysisBroken("cannot parse %s: %s" % (src, (p.stderr or p.stdout)[-1500:]))
    d = json.loads(readb(out))
    if d["errors"]:
        raise AnalysisBroken("%d parse errors in %s: %s" % (d["errors"], src, p.stderr[-1500:]))
    return d

def extract_unit(exe, src, hh):
    key = sha(readb(exe) if False else os.path.basename(exe), " ".join(flags()), hh, os.path.relpath(src, REPO), readb(src))[:24]
    mp = os.path.join(CACHE, "tu-" + key + ".m")
    if os.path.exists(mp):
        try: return key, marshal.loads(readb(mp))
        except Exception: pass
    fd, out = tempfile.mkstemp(prefix="tu", suffix=".json", dir=CACHE); os.close(fd)
    try:
        d = run_one(exe, src, out)
    finally:
        if os.path.exists(out): os.unlink(out)
    d.pop("deps", None)
    tmp = mp + ".tmp%d.%d" % (os.getpid(), id(d))
    with open(tmp, "wb") as f: f.write(marshal.dumps(d))
    os.rename(tmp, mp)
    return key, d

def load_raw():
    """-> merged dict (functions by id, classes, enums, vars, units)."""
    exe = tool()
    hh = headers_hash()
    us = units()
    keys = []
    for s in us:
        keys.append(sha(os.path.basename(exe), " ".join(flags()), hh, os.path.relpath(s, REPO), readb(s))[:24])
    pk = os.path.join(CACHE, "prog-" + sha(*(keys + [open(__file__).read()]))[:24] + ".m")
    if os.path.exists(pk):
        try:
            os.utime(pk)
            return marshal.loads(readb(pk))
        except Exception: pass
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda s: extract_unit(exe, s, hh)[1], us))
    fns, classes, enums, vs, arrays = {}, {}, {}, {}, {}
    for d in res:
        for f in d["functions"]: fns.setdefault(f["u"], f)
        for c in d["classes"]: classes.setdefault(c["t"], c)
        for e in d["enums"]: enums.setdefault(e["q"] + "@" + e["file"] + str(e["line"]), e)
        for v in d["vars"]:
            if "[" in v.get("t", ""): arrays[v["q"] + "@" + v["file"]] = v["t"]
            o = vs.get(v["q"] + ("@" + v["file"] if v.get("local") else ""))
            if o is None or (v.get("def") and "init" in v and "init" not in o):
                vs[v["q"] + ("@" + v["file"] if v.get("local") else "")] = v
    m = dict(functions=list(fns.values()), classes=list(classes.values()), enums=list(enums.values()),
             vars=list(vs.values()), arrays=arrays, units=[os.path.relpath(s, REPO) for s in us])
    for old in glob.glob(os.path.join(CACHE, "prog-*.m"))+glob.glob(os.path.join(CACHE, "tu-*.m")):
        try:
            if time.time() - os.path.getmtime(old) > 3*3600: os.unlink(old)
        except OSError: pass
    tmp = pk + ".tmp%d" % os.getpid()
    with open(tmp, "wb") as f: f.write(marshal.dumps(m))
    os.rename(tmp, pk)
    return m

if __name__ == "__main__":
    t = time.time(); m = load_raw()
    print("units %d functions %d classes %d vars %d in %.1fs" % (len(m["units"]), len(m["functions"]), len(m["classes"]), len(m["vars"]), time.time() - t))
