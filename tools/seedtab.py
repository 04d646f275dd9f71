import os,json,subprocess,re,sys
from concurrent.futures import ThreadPoolExecutor
def one(i):
    d="/verif/seeded/"+i; w="/tmp/st/"+i
    subprocess.run("mkdir -p /tmp/st; rm -rf %s; cp -a /repo %s; cd %s && git apply %s/patch.diff"%(w,w,w,d),shell=True,check=True)
    r=subprocess.run(["/tmp/gv","-repo",w,"-prop","ALL"],capture_output=True,text=True)
    subprocess.run(["rm","-rf",w])
    m=re.search(r"REPORTED BY map\[(.*)\]",r.stdout)
    return i,json.load(open(d+"/meta.json"))["property"],m.group(1) if m else "?"
ids=sys.argv[1:] or sorted(os.listdir("/verif/seeded"))
out=[]
with ThreadPoolExecutor(3) as ex:
    for i,p,m in ex.map(one,ids):
        print(i,p,"OK" if re.search(p+":",m) else "MISSED",m,flush=True)
