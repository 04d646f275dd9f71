#!/usr/bin/env python3
"""mkseed.py ID PROP: takes the uncommitted changes of /tmp/w (a copy of /repo) as a planted bug,
with the demonstration in /tmp/demo.py (or files in /tmp/demo/), and keeps it after confirming it.
Usage: mkseed.py ID PROPERTY "needs" "what it breaks" """
import sys, os, subprocess, shutil, json
id, prop, needs, breaks = sys.argv[1:5]
W = "/tmp/w"; D = "/verif/seeded/" + id
L = "/verif/tools/seedlib"
def sh(c, cwd=None, **k): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)
diff = sh("git diff", W).stdout
assert diff.strip(), "no change"
tmp = "/tmp/seedtmp"; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
if os.path.isdir("/tmp/demo"):
    for f in os.listdir("/tmp/demo"): shutil.copy("/tmp/demo/" + f, tmp)
else:
    for f in os.listdir(L): shutil.copy(os.path.join(L, f), tmp)
    shutil.copy("/tmp/demo.py", tmp)
os.chmod(tmp + "/demo.sh", 0o755)
# tests with the change
r = sh("go build ./... && go vet ./... >/dev/null 2>&1; go test ./... 2>&1 | grep -E '^(---|FAIL|ok)'", W, env=dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off"))
base = json.load(open("/opt/vp/BASELINE.json"))
t = sh("go test -json ./... ", W, env=dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off")).stdout
passed = set()
for l in t.splitlines():
    try: j = json.loads(l)
    except Exception: continue
    if j.get("Action") == "pass" and j.get("Test"): passed.add(j["Package"] + ":" + j["Test"]); passed.add(j["Test"])
names = base.get("passed") or base.get("tests") or base.get("stable") or []
miss = [n for n in names if not any(n == q or n.endswith(q) or q.endswith(n.split("::")[-1].split(".")[-1].split("/")[-1]) for q in passed)]
print("baseline missing:", miss[:5])
bad = sh("bash %s/demo.sh" % tmp, W)
good = sh("bash %s/demo.sh" % tmp, "/repo")
print("with change rc=%d %s" % (bad.returncode, (bad.stdout + bad.stderr)[-300:]))
print("without     rc=%d %s" % (good.returncode, (good.stdout + good.stderr)[-300:]))
if bad.returncode == 0 or good.returncode != 0 or miss:
    print("NOT KEPT"); sys.exit(1)
shutil.rmtree(D, ignore_errors=True); shutil.copytree(tmp, D)
open(D + "/patch.diff", "w").write(diff)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(D + "/meta.json", "w"), indent=1)
assert sh("git apply --check %s/patch.diff" % D, "/repo").returncode == 0
print("kept", D)
