#!/bin/bash
# mutate.sh <mutants.py> [ids...] : applies each mutant to /tmp/seedrepo and says which of its properties' checks notice.
# Uses a copy of the committed /verif in /tmp/vh, bound to /tmp/seedrepo.
f=$1; shift
mkdir -p /tmp/vh
(cd /verif && git archive HEAD) | tar -x -C /tmp/vh
grep -rlI '/repo' /tmp/vh --include=Cargo.toml --include=*.sh --include=*.py --include=config.toml | grep -v /target/ | xargs perl -pi -e 's#(?<![\w])/repo(?![\w-])#/tmp/seedrepo#g'
rm -rf /tmp/vh/seeded
cat >/tmp/mut.py <<'P'
import sys,subprocess,runpy,time
f=sys.argv[1]; ids=sys.argv[2:]
M=runpy.run_path(f)['M']; R='/tmp/seedrepo/'
def sh(c): return subprocess.run(c,shell=True,capture_output=True,text=True)
for i,props,edits in M:
    if ids and i not in ids: continue
    sh(f'git -C {R} checkout -q -- .')
    ok=True
    for (fn,old,new,n) in edits:
        s=open(R+fn).read()
        parts=s.split(old)
        if len(parts)<2 or (n is not None and len(parts)<n+2): print(i,'NO SUCH TEXT',fn,repr(old[:60]),len(parts)-1,flush=True); ok=False; break
        if n is None: s=new.join(parts)
        else: s=old.join(parts[:n+1])+new+old.join(parts[n+1:])
        open(R+fn,'w').write(s)
    if not ok: continue
    res=[]
    for p in props:
        t=time.time(); r=sh(f'cd /tmp/vh && VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check.sh {p} quick')
        if r.returncode==2 or r.returncode>2:
            res.append(f'{p}:rc{r.returncode}'); print('\n'.join(l for l in r.stderr.splitlines() if l.startswith('error'))[:600]); break
        v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        res.append(f'{p}:{"CAUGHT" if r.returncode==1 and v else "-"}({time.time()-t:.0f}s)')
        if v: break
    print(i,'CAUGHT' if any('CAUGHT' in x for x in res) else 'BROKEN' if any(':rc' in x for x in res) else 'MISSED',*res,flush=True)
sh(f'git -C {R} checkout -q -- .')
P
python3 /tmp/mut.py "$f" "$@"
