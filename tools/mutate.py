#!/usr/bin/env python3
"""Mutation testing of the checks: python3 tools/mutate.py LANE SEED COUNT FILE[=P01,P02..]...
Makes COUNT random one-line mutants of each FILE (relative to /repo) in a private copy of /repo that
is bind-mounted over /repo in a namespace of its own, and runs the checks of the properties on each.
Results are appended to /tmp/w/LANE.tsv. Nothing outside /tmp/w is written."""
import os, re, subprocess, sys, random, shutil, time, hashlib
LANE=sys.argv[1]; SEED=int(sys.argv[2]); COUNT=int(sys.argv[3])
W=f"/tmp/w/{LANE}"; os.makedirs(W, exist_ok=True)
R=f"{W}/repo"
SCALE=os.environ.get("MUT_SCALE","0.1")
JOBS=os.environ.get("MUT_JOBS","4")
BIN={l.split()[0]:l.split()[1] for l in open("/verif/harness/bins.txt") if l.strip()}
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
sh(f"rsync -a --delete --exclude target --exclude .git /repo/ {R}/ || (rm -rf {R}; mkdir -p {R}; cd /repo; git archive HEAD | tar x -C {R})")
KR=f"{W}/root"; os.makedirs(KR, exist_ok=True); shutil.copy("/verif/known_findings.txt", KR)
sh(f"rsync -a --delete --exclude target /verif/harness/ {W}/harness/; cp /verif/env.sh {W}/")
def ns(cmd, timeout=600):
    full=f"unshare -Urm bash -c 'mount --bind {R} /repo && cd {W} && . ./env.sh && export CARGO_TARGET_DIR={W}/target KV_ROOT={KR} VERIF_SEED=1 VERIF_TIER=quick && {cmd}'"
    try: return subprocess.run(full, shell=True, capture_output=True, text=True, timeout=timeout, cwd=KR)
    except subprocess.TimeoutExpired: return None
OPS=[]
def op(name, pat, rep): OPS.append((name, re.compile(pat), rep))
op('<',  r' < (?!\w*>)', ' <= '); op('<=', r' <= ', ' < '); op('>', r' > ', ' >= '); op('>=', r' >= ', ' > ')
op('==', r' == ', ' != '); op('!=', r' != ', ' == ')
op('+', r' \+ ', ' - '); op('-', r' - ', ' + '); op('*', r' \* ', ' + '); op('/', r' / ', ' * '); op('%', r' % ', ' / ')
op('+=', r' \+= ', ' -= '); op('-=', r' -= ', ' += '); op('*=', r' \*= ', ' += ')
op('&&', r' && ', ' || '); op('||', r' \|\| ', ' && ')
op('true', r'\btrue\b', 'false'); op('false', r'\bfalse\b', 'true')
op('0', r'(?<![\w.])0(?![\w.])', '1'); op('1', r'(?<![\w.])1(?![\w.])', '2'); op('1b', r'(?<![\w.])1(?![\w.])', '0')
op('+1', r' \+ 1\b', ''); op('-1', r' - 1\b', '')
op('Z', r'F::ZERO', 'F::ONE'); op('O', r'F::ONE', 'F::ZERO')
op('min', r'\.min\(', '.max('); op('max', r'\.max\(', '.min(')
op('if', r'\bif (?!let\b)(.+) \{$', r'if !(\1) {')
op('iff', r'\bif (?!let\b)(.+) \{$', r'if false && (\1) {')
op('ift', r'\bif (?!let\b)(.+) \{$', r'if true || (\1) {')
op('+rng', r'\.\.=', '..'); 
def mutants(path):
    src=open(path).read().split('\n'); out=[]
    depth_test=False
    for i,l in enumerate(src):
        s=l.strip()
        if s.startswith('#[cfg(test)]') or s.startswith('mod tests'): break
        if not s or s.startswith('//') or s.startswith('#[') or s.startswith('use ') or s.startswith('pub use') or s.startswith('*') or s.startswith('/*'): continue
        if re.match(r'(pub(\([^)]*\))? )?(fn|struct|enum|impl|trait|mod|type|where|const fn|unsafe impl)\b', s): continue
        if 'rt_log!' in s or 'eprintln' in s or 'debug_assert' in s or 'assert!' in s: continue
        code=l.split(' //')[0]
        for n,p,r in OPS:
            for m in p.finditer(code):
                new=code[:m.start()]+m.expand(r) +code[m.end():]
                if new!=code: out.append((i,n,new))
        if s.endswith(';') and not re.match(r'(let|return|use|type|const|static|pub|break|continue)\b', s) and s.count('(')==s.count(')') and s.count('{')==s.count('}') and not s.startswith('}') and not s.startswith(')') and not s.startswith('.'):
            out.append((i,'del',''))
        if s in ('return;','break;','continue;'): out.append((i,'del',''))
    return src,out
def props_for(spec): return spec.split(',')
log=open(f"/tmp/w/{LANE}.tsv","a")
rng=random.Random(SEED)
for spec in sys.argv[4:]:
    f,props=spec.split('='); props=props_for(props); p=f"{R}/{f}"
    orig=open(p).read(); src,ms=mutants(p); rng.shuffle(ms)
    # at most one mutant per (line) first, spread over the file
    seen={}; pick=[]
    for m in ms:
        if seen.get(m[0],0)<1: seen[m[0]]=seen.get(m[0],0)+1; pick.append(m)
    pick=pick[:COUNT]
    bins=[]
    for q in props:
        if BIN[q] not in bins: bins.append(BIN[q])
    for (i,n,new) in pick:
        lines=list(src); lines[i]=new
        open(p,'w').write('\n'.join(lines))
        t0=time.time(); res='survived'
        built=set()
        for q in props:
            b=BIN[q]
            if b not in built:
                r=ns(f"cargo build -j {JOBS} --offline --locked --release --quiet --manifest-path {W}/harness/Cargo.toml --bin {b}")
                if r is None or r.returncode!=0: res='nobuild'; break
                built.add(b)
            r=ns(f"cd {KR} && KV_SCALE={SCALE} KV_NOSHRINK=1 timeout 90 {W}/target/release/{b} {q}", 400)
            if r is None: res=f'killed:{q}:timeout'; break
            if r.returncode==1: 
                mm=re.search(r'sig[=:] ?(.*)', r.stdout); res=f'killed:{q}'; break
            if r.returncode in (124,137): res=f"killed:{q}:timeout"; break
            if r.returncode!=0: res=f'odd:{q}:{r.returncode}'; break
        log.write(f"{res}\t{f}:{i+1}\t{n}\t{src[i].strip()}\t=>\t{new.strip()}\t{time.time()-t0:.0f}s\n"); log.flush()
    open(p,'w').write(orig)
