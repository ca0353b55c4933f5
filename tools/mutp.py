#!/usr/bin/env python3
"""mutp.py CHECK MUTFILE [indices]: like mutl.py, but on scratch copies of the sources, several at a time. MUT_BASE: tree to copy (default /repo)."""
import sys,subprocess,re,os,shutil,tempfile,queue,threading
base=os.environ.get("MUT_BASE","/repo"); chk=sys.argv[1]; ns={}; exec(open(sys.argv[2]).read(),ns)
work=[(i,m) for i,m in enumerate(ns["M"]) if len(sys.argv)<=3 or str(i) in sys.argv[3:]]
q=queue.Queue(); [q.put(w) for w in work]; res={}
def runner(k):
    d=tempfile.mkdtemp(prefix="mutp"); shutil.copytree(base+"/src",d+"/src",ignore=shutil.ignore_patterns("*.o","*.lo",".libs"))
    for x in os.listdir(base):
        if x not in ("src",".git","_build"): os.symlink(os.path.join(base,x),os.path.join(d,x))
    try:
        while True:
            try: i,m=q.get_nowait()
            except queue.Empty: return
            ms0=m if isinstance(m,list) else [m]; undo=[]; bad=None
            for m in ms0:
                p=d+"/src/"+m[0]; s=open(p,encoding="latin1",newline="").read(); n=m[3] if len(m)>3 else 0
                ms=list(re.finditer(r"[ \t\r\n]+".join(re.escape(w) for w in m[1].split()),s))
                if len(ms)<=n: bad=m; break
                x=ms[n]; new=m[2].strip()
                if "\r\n" in s[max(0,x.start()-200):x.end()+200]: new=new.replace("\n","\r\n")
                undo.append((p,s)); open(p,"w",encoding="latin1",newline="").write(s[:x.start()]+new+s[x.end():])
            if bad is None: r=subprocess.run(["/verif/run",chk],capture_output=True,text=True,env=dict(os.environ,SA_REPO=d,SA_EVID=d))
            for p,s in reversed(undo): open(p,"w",encoding="latin1",newline="").write(s)
            if bad is not None: res[i]="%d NOT FOUND %s"%(i,bad[1][:60]); continue
            if os.environ.get("MUTERR"): print(r.stdout[-300:], r.stderr[:900])
            l=[x for x in r.stdout.splitlines() if x.startswith("  [")]
            res[i]="%d rc %d %s => %s | %s"%(i,r.returncode,m[1].strip()[:50].replace("\n","~"),m[2].strip()[:50].replace("\n","~"),l[0][:150] if l else (r.stderr or r.stdout).strip().splitlines()[-1][:200])
    finally: shutil.rmtree(d,ignore_errors=True)
ts=[threading.Thread(target=runner,args=(k,)) for k in range(min(6,len(work)))]
[t.start() for t in ts]; [t.join() for t in ts]
for i in sorted(res): print(res[i])
