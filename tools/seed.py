#!/usr/bin/env python3
"""tools/seed.py <seed spec.py> : creates and validates /verif/seeded/<id> from a spec
(id, prop, edits=[(file, old, new)], demo, needs, breaks, libs)."""
import sys, os, subprocess, json, shutil
ROOT='/verif'; REPO='/repo'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main(path, only=None, nocheck=False):
    ns={}
    exec(open(path).read(), ns)
    for s in ns['SEEDS']:
        if only and s['id'] not in only: continue
        d=f"{ROOT}/seeded/{s['id']}"
        os.makedirs(d, exist_ok=True)
        assert sh('git -C /repo status --porcelain').stdout=='' , 'repo dirty'
        blame_bad=False
        try:
            for f,old,new in s['edits']:
                p=f'{REPO}/{f}'; t=open(p).read()
                assert t.count(old)==1, (s['id'], f, t.count(old))
                open(p,'w').write(t.replace(old,new))
            diff=sh('git -C /repo diff').stdout
        finally:
            sh('git -C /repo checkout -- .')
        open(d+'/patch.diff','w').write(diff)
        shutil.copy(f'{ROOT}/tools/seedlib/env.h', d+'/env.h')
        shutil.copy(f'{ROOT}/tools/seedlib/demo.sh', d+'/demo.sh'); os.chmod(d+'/demo.sh',0o755)
        open(d+'/demo.c','w').write(s['demo'])
        if s.get('libs'): open(d+'/libs','w').write(s['libs']+'\n')
        json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']}, open(d+'/meta.json','w'), indent=1)
        a=sh(f'cd /repo && bash {d}/demo.sh')
        assert a.returncode==0, (s['id'],'demo fails on base', a.stdout[-800:]+a.stderr[-1500:])
        try:
            r=sh(f'git -C /repo apply {d}/patch.diff'); assert r.returncode==0, r.stderr
            b=sh('bash /opt/vp/test.sh /tmp/seed.json')
            n=len(json.load(open('/tmp/seed.json'))['passed'])
            assert n==47, (s['id'],'tests',n,b.stderr[-500:])
            c=sh(f'cd /repo && bash {d}/demo.sh')
            assert c.returncode!=0, (s['id'],'demo passes with the patch')
            assert 'does not build' not in c.stdout, c.stderr[-500:]
            line=(c.stderr.strip().split('\n') or [''])[0][:120]
            if not nocheck:
                k=sh(f'cd {ROOT} && python3 vf.py check {s["prop"]} --tier quick')
                v=[l for l in k.stdout.split('\n') if l.startswith('VIOLATION')]
                print(s['id'], s['prop'], 'CAUGHT' if k.returncode==1 and v else 'MISSED rc=%d'%k.returncode, '|', line, '|', '; '.join(v)[:300], flush=True)
            else: print(s['id'],'valid |',line, flush=True)
        finally:
            sh('git -C /repo checkout -- .')
    sh('bash /opt/vp/build.sh')
if __name__=='__main__':
    a=sys.argv[1:]
    nc='--nocheck' in a
    a=[x for x in a if x!='--nocheck']
    main(a[0], set(a[1:]) or None, nc)
