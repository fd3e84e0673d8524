#!/bin/bash
# blame.sh ID...: do the seeded patches change lines of the original repository only?
base=$(git -C /repo rev-list --max-parents=0 HEAD)
for id in "$@"; do
  python3 - "$id" "$base" <<'P'
import re,subprocess,sys
id,base=sys.argv[1:]
f=None
for l in open("/verif/seeded/%s/patch.diff"%id,errors="replace"):
    if l.startswith("--- a/"): f=l[6:].strip()
    m=re.match(r"@@ -(\d+)",l)
    if m: n=int(m.group(1)); continue
    if f is None or l.startswith(("+++","---","diff","index")): continue
    if l.startswith("-"):
        b=subprocess.run(["git","-C","/repo","blame","-l","-s","-L%d,%d"%(n,n),f],stdout=subprocess.PIPE,text=True).stdout
        if not b.lstrip("^").startswith(base[:39]): print(id,"changes a line of a fix:",f,n,b.strip())
    if not l.startswith("+"): n+=1
P
done
