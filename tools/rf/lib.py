import subprocess,sys,re
W="/tmp/w"
def reset(): subprocess.run(["git","-C",W,"checkout","-q","."],check=True); subprocess.run(["git","-C",W,"clean","-fdq"],check=True)
def rd(f): return open(W+"/"+f).read()
def wr(f,s): open(W+"/"+f,"w").write(s)
def sub(f,o,n,cnt=None,re_=False):
    s=rd(f)
    if re_:
        s2,k=re.subn(o,n,s)
        assert k>0,(f,o)
    else:
        k=s.count(o); assert k>0,(f,o)
        if cnt is not None: assert k==cnt,(f,o,k)
        s2=s.replace(o,n)
    wr(f,s2)
def app(f,t): wr(f,rd(f)+"\n"+t)
def imp(f,name):
    s=rd(f)
    if '"%s"'%name in s: return
    s=s.replace('import (','import (\n\t"%s"'%name,1) if 'import (' in s else s.replace('\n\n','\n\nimport "%s"\n\n'%name,1)
    wr(f,s)
def go(name):
    fm=subprocess.run("gofmt -w memdb resp server util config logger main.go && go vet ./... && bash -c 'true'",shell=True,cwd=W,capture_output=True,text=True)
    b=subprocess.run(["go","build","./..."],cwd=W,capture_output=True,text=True)
    if b.returncode: print("!!",name,"BUILD",b.stderr[:1500]); return
    t=subprocess.run("go test ./... 2>&1 | grep -v 'no test files' | grep -i 'fail' | head -5",shell=True,cwd=W,capture_output=True,text=True)
    r=subprocess.run(["/tmp/gv","-repo",W,"-prop","ALL"],capture_output=True,text=True)
    print("==",name, t.stdout.replace("\n","|")[:200])
    print("\n".join(l[:330] for l in r.stdout.splitlines()[:40]), r.stderr[:800])
