#!/usr/bin/env python3
"""mutl.py CHECK MUTFILE: apply each mutation (file, old, new[, occurrence]) of MUTFILE to /repo/src, run CHECK, undo, report."""
import sys,subprocess,re
chk=sys.argv[1]; ns={}; exec(open(sys.argv[2]).read(),ns)
for i,m in enumerate(ns["M"]):
    if len(sys.argv)>3 and str(i) not in sys.argv[3:]: continue
    p="/repo/src/"+m[0]; s=open(p,encoding="latin1",newline="").read()
    k=m[3] if len(m)>3 else 0
    ms=list(re.finditer(r"[ \t\r\n]+".join(re.escape(w) for w in m[1].split()),s))
    if len(ms)<=k: print(i,"NOT FOUND",m[1][:60]); continue
    x=ms[k]; new=m[2].strip()
    if "\r\n" in s[max(0,x.start()-200):x.end()+200]: new=new.replace("\n","\r\n")
    t=s[:x.start()]+new+s[x.end():]
    open(p,"w",encoding="latin1",newline="").write(t)
    try:
        r=subprocess.run(["/verif/run",chk],capture_output=True,text=True)
    finally:
        open(p,"w",encoding="latin1",newline="").write(s)
    l=[x for x in r.stdout.splitlines() if x.startswith("  [")]
    print(i,"rc",r.returncode,m[1].strip()[:50].replace("\n","~"),"=>",m[2].strip()[:50].replace("\n","~"),"|",(l[0][:150] if l else (r.stderr or r.stdout).strip().splitlines()[-1][:200]),flush=True)
print(subprocess.run(["git","-C","/repo","status","--short"],capture_output=True,text=True).stdout)
