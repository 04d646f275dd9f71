# apply a bug to /tmp/w: one.py FILE ID
import sys,subprocess,lib,re
src=open(sys.argv[1]).read().replace("\nmain()\n","\n")
exec(src)
for b in lib.BUGS:
    if b.id.startswith(sys.argv[2]):
        subprocess.run("git -C /tmp/w checkout -q . ; git -C /tmp/w clean -fdq",shell=True); lib.apply("/tmp/w",b); print(b.id,b.prop); break
