"""mkseed.py: reads seed descriptions (python: ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO)
from the files given and writes /verif/seeded/<id>/. Leaves /repo as it was."""
import sys, os, subprocess, json, shutil
R=os.environ.get('SEED_REPO','/repo')
for f in sys.argv[1:]:
    ns={}; ns["__file__"]=f; exec(open(f).read(), ns)
    for s in ns['SEEDS']:
        assert not subprocess.check_output(['git','-C',R,'status','--porcelain']).strip()
        d='/verif/seeded/'+s['id']; os.makedirs(d, exist_ok=True)
        for (p,o,n) in s['edits']:
            t=open(R+'/'+p).read()
            assert t.count(o)==1, (s['id'], p, t.count(o))
            open(R+'/'+p,'w').write(t.replace(o,n))
        subprocess.check_call(['cargo','fmt','--all'], cwd=R) if s.get('fmt') else None
        diff=subprocess.check_output(['git','-C',R,'diff'])
        open(d+'/patch.diff','wb').write(diff)
        subprocess.check_call(['git','-C',R,'checkout','-q','--','.'])
        open(d+'/demo.rs','w').write(s['demo'])
        shutil.copy('/verif/tools/demo.sh', d+'/demo.sh')
        json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']}, open(d+'/meta.json','w'), indent=1)
        print('wrote', s['id'], len(diff))
