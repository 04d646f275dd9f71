import subprocess,sys,os,re,json,shutil
BASE="/repo"
class Bug:
    def __init__(s,id,prop,edits): s.id,s.prop,s.edits=id,prop,edits
BUGS=[]
def bug(id,prop,*edits): BUGS.append(Bug(id,prop,edits))
def fnspan(s,fn):
    i=s.index("func "+fn+"("); j=s.index("\n}\n",i)+3
    return i,j
def apply(W,b):
    for f,fn,o,n in b.edits:
        p=W+"/"+f; s=open(p).read()
        if fn=="+imp":
            s=s.replace("import (","import (\n\t\"%s\""%o,1)
        elif fn=="-imp":
            s=s.replace("\t\"%s\"\n"%o,"",1)
        elif fn=="+end":
            s+="\n"+o
        elif fn is None:
            assert s.count(o)>=1,(b.id,o); s=s.replace(o,n,1)
        else:
            i,j=fnspan(s,fn); t=s[i:j]
            assert t.count(o)>=1,(b.id,o)
            s=s[:i]+t.replace(o,n,1)+s[j:]
        open(p,"w").write(s)
def diff(W): return subprocess.run(["git","-C",W,"diff"],capture_output=True,text=True).stdout
BASELINE=set(json.load(open("/opt/vp/BASELINE.json")).get("stable",[]) or [])
def run(W,b,mode="own"):
    subprocess.run(["git","-C",W,"checkout","-q","."],check=True); subprocess.run(["git","-C",W,"clean","-fdq"],check=True)
    try: apply(W,b)
    except Exception as e: return b.id+" EDITFAIL "+repr(e)[:300]
    r=subprocess.run(["go","build","./..."],cwd=W,capture_output=True,text=True)
    if r.returncode: return b.id+" BUILDFAIL "+r.stderr[:400]
    t=subprocess.run("timeout 20 go test ./memdb ./resp ./server ./util 2>&1 | grep -E '^(--- FAIL|FAIL|panic)' | head -3",shell=True,cwd=W,capture_output=True,text=True,timeout=120)
    tf=t.stdout.replace("\n","|")
    r=subprocess.run(["/tmp/gv","-repo",W,"-prop",b.prop if mode=="own" else "ALL"],capture_output=True,text=True,env=dict(os.environ,GVNOEV="1"))
    L=[l.strip() for l in r.stdout.splitlines()]
    F=[l for l in L if re.match(r"C\d\d/",l)]
    own=any("VIOLATION property="+b.prop in l for l in L)
    if mode!="own":
        own=any(("REPORTED BY" in l and (b.prop+":") in l) for l in L)
    out="%s %s %s %s"%(b.id,b.prop,"caught" if own else "MISSED", ("TESTFAIL "+tf) if tf else "")
    for l in F[:2]: out+="\n      "+l[:200]
    if not own: out+="\n      "+(L[-1][:200] if L else "")+r.stderr[:200]
    return out
def main():
    import multiprocessing
    sel=sys.argv[1:]
    mode="own"
    if sel and sel[0]=="-all": mode="all"; sel=sel[1:]
    bs=[b for b in BUGS if not sel or any(b.id.startswith(x) for x in sel)]
    N=4
    import queue,threading
    q=queue.Queue()
    for b in bs: q.put(b)
    def wk(k):
        W="/tmp/bugs/w%d"%k
        if os.path.isdir(W): shutil.rmtree(W)
        subprocess.run(["cp","-a",BASE,W],check=True)
        while True:
            try: b=q.get_nowait()
            except queue.Empty: break
            try: print(run(W,b,mode),flush=True)
            except Exception as e: print(b.id,"ERR",e,flush=True)
        shutil.rmtree(W)
    ts=[threading.Thread(target=wk,args=(k,)) for k in range(N)]
    [t.start() for t in ts]; [t.join() for t in ts]
