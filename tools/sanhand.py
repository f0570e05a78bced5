"""sanhand.py LANE FILE.py PROP [NAMES]: as hand.py, for the checks that need a sanitizer (P29, P30)."""
import os,subprocess,sys
LANE,FILE,PROP=sys.argv[1:4]; ONLY=sys.argv[4:]
W=f"/tmp/w/{LANE}"; R=f"{W}/repo"; KR=f"{W}/root"; os.makedirs(KR,exist_ok=True); os.makedirs(R,exist_ok=True)
os.system(f"rsync -a --delete --exclude target --exclude .git /repo/ {R}/; rsync -a --delete --exclude target /verif/harness/ {W}/harness/; cp /verif/env.sh {W}/; cp /verif/known_findings.txt {KR}/")
b={'P29':'kvsafe','P30':'kvrace'}[PROP]
SC=os.environ.get("MUT_SCALE","1")
def ns(cmd,t=900):
    full=f"unshare -Urm bash -c 'mount --bind {R} /repo && cd {W} && export KV_TARGET={W}/target && . ./env.sh && export KV_ROOT={KR} VERIF_SEED=1 KV_SCALE={SC} && {cmd}'"
    try: return subprocess.run(full,shell=True,capture_output=True,text=True,timeout=t,cwd=KR)
    except subprocess.TimeoutExpired: return None
d={}; exec(open(FILE).read(),d)
out=open(f"/tmp/w/{LANE}.res","a")
for name,_,edits in d['MUT']:
    if ONLY and name not in ONLY: continue
    saved={}; ok=True
    for f,o,n in edits:
        p=f"{R}/{f}"; t=open(p).read(); saved.setdefault(p,t)
        if t.count(o)!=1: print(name,'EDIT',f,t.count(o),file=out,flush=True); ok=False; break
        open(p,'w').write(t.replace(o,n))
    if ok:
        r=ns(f"build {b}")
        if r is None or r.returncode: print(name,"BUILD",((r.stderr if r else 'timeout').split('\nerror')+['',''])[1][:400].replace('\n',' '),file=out,flush=True)
        else:
            r=ns(f"cd {KR}; $(binary {b}) {PROP}")
            if r is None: print(name,'timeout',file=out,flush=True)
            else: print(name,r.returncode,[x for x in r.stdout.split('\n') if ' case ' in x][:2],r.stdout.strip().split('\n')[-1][-60:],file=out,flush=True)
    for p,t in saved.items(): open(p,'w').write(t)
print('END',file=out,flush=True)
