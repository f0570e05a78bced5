#!/usr/bin/env python3
"""Hand-written mutants: python3 tools/hand.py LANE FILE.py
FILE.py defines MUT=[(name, props, [(file, old, new), ...]), ...] (old must occur once). Each is applied
to a private copy of /repo, bind-mounted over /repo in a namespace of its own, and the checks of its
properties are run on it. Results go to /tmp/w/LANE.res. Nothing outside /tmp/w is written."""
import os, subprocess, sys, shutil
LANE, FILE = sys.argv[1:3]; ONLY=sys.argv[3:]
W=f"/tmp/w/{LANE}"; os.makedirs(W, exist_ok=True); R=f"{W}/repo"; KR=f"{W}/root"; os.makedirs(KR, exist_ok=True)
SCALE=os.environ.get("MUT_SCALE","1"); JOBS=os.environ.get("MUT_JOBS","6")
BIN={l.split()[0]:l.split()[1] for l in open("/verif/harness/bins.txt") if l.strip()}
os.system(f"mkdir -p {R}; rsync -a --delete --exclude target --exclude .git /repo/ {R}/; rsync -a --delete --exclude target /verif/harness/ {W}/harness/; cp /verif/env.sh {W}/; cp /verif/known_findings.txt {KR}/")
def ns(cmd, timeout=900):
    full=f"unshare -Urm bash -c 'mount --bind {R} /repo && cd {W} && . ./env.sh && export CARGO_TARGET_DIR={W}/target KV_ROOT={KR} VERIF_SEED=1 VERIF_TIER=quick KV_SCALE={SCALE} && {cmd}'"
    try: return subprocess.run(full, shell=True, capture_output=True, text=True, timeout=timeout, cwd=KR)
    except subprocess.TimeoutExpired: return None
d={'__file__':FILE}; exec(open(FILE).read(), d)
out=open(f"/tmp/w/{LANE}.res","a")
for name, props, edits in d['MUT']:
    if ONLY and name not in ONLY: continue
    props=os.environ.get('MUT_PROPS',props)
    saved={}; ok=True
    for f,o,n in edits:
        p=f"{R}/{f}"; t=open(p).read(); saved.setdefault(p,t)
        if t.count(o)!=1: print(name,'EDIT',f,t.count(o),file=out,flush=True); ok=False; break
        open(p,'w').write(t.replace(o,n))
    if ok:
        res=[]
        for pr in props.split(','):
            b=BIN[pr]
            r=ns(f"cargo build --offline --locked --release --quiet --manifest-path harness/Cargo.toml --bin {b} -j {JOBS}")
            if r is None or r.returncode: res.append(f"{pr}:BUILD "+((r.stderr if r else 'timeout').split('error')+['',''])[1][:300].replace('\n',' ')); break
            r=ns(f"cd {KR} && timeout 600 {W}/target/release/{b} {pr}")
            if r is None: res.append(f"{pr}:timeout"); continue
            if r.returncode==0: res.append(f"{pr}:SURVIVED"); continue
            l=[x for x in r.stdout.split('\n') if ' case ' in x][:1]
            res.append(f"{pr}:caught({r.returncode}) {l[0][:90] if l else ''}"); break
        print(name, ' | '.join(res), file=out, flush=True)
    for p,t in saved.items(): open(p,'w').write(t)
print('END', file=out, flush=True)
