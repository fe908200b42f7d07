"""plant.py DEFS.py [ids]: makes and verifies seeded bugs from definitions."""
import sys, os, subprocess, shutil, json, tempfile, runpy
BASE='dbb565d'
OUT='/verif/seeded'
ns=runpy.run_path(sys.argv[1]); defs=ns['SEEDS']; only=sys.argv[2:]
def sh(cmd,**k): return subprocess.run(cmd,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
scratch=tempfile.mkdtemp(prefix='plant-',dir='/tmp')
repo=scratch+'/repo'
sh('git -C /repo worktree prune'); 
r=sh(f'git clone -q /repo {repo}'); assert r.returncode==0,r.stdout
bsh=scratch+'/build.sh'; tsh=scratch+'/test.sh'
for a,b in (('/opt/vp/build.sh',bsh),('/opt/vp/test.sh',tsh)):
    open(b,'w').write(open(a).read().replace('/repo',repo))
def passed(path):
    o=json.load(open(path))
    for k in ('passed','pass','stable'):
        if k in o: return set(o[k])
    t=o.get('tests',o); return {k for k,v in t.items() if v in('passed','pass',True)}
base=passed('/opt/vp/BASELINE.json')
for d in defs:
    if only and d['id'] not in only: continue
    sh('git checkout -q -- . && git clean -fdq',cwd=repo)
    bad=[]
    for f,a,b in d['edits']:
        p=repo+'/sbclassifier/'+f; s=open(p).read()
        if s.count(a)!=1: bad.append('edit %s matches %d: %r'%(f,s.count(a),a[:60])); continue
        open(p,'w').write(s.replace(a,b))
    if bad: print(d['id'],bad); continue
    diff=sh('git diff',cwd=repo).stdout
    # blame of removed lines
    orig=0; mine=0
    cur=None; ln=0
    for l in sh('git diff -U0',cwd=repo).stdout.splitlines():
        if l.startswith('--- a/'): cur=l[6:]
        elif l.startswith('@@'):
            seg=l.split()[1][1:].split(','); st=int(seg[0]); n=int(seg[1]) if len(seg)>1 else 1
            for k in range(st,st+n):
                bl=sh(f'git blame -s -L{k},{k} HEAD -- {cur}',cwd=repo).stdout
                if bl.lstrip('^').startswith(BASE): orig+=1
                else: mine+=1
    folder=f'{OUT}/{d["id"]}'
    shutil.rmtree(folder,ignore_errors=True); os.makedirs(folder)
    open(folder+'/patch.diff','w').write(diff)
    open(folder+'/demo.py','w').write(d['demo'].lstrip('\n'))
    open(folder+'/demo.sh','w').write('#!/bin/bash\n# Exit 0: the property holds on the case that this change breaks.\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent\nexec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(folder+'/demo.sh',0o755)
    json.dump({'property':d['property'],'needs':d['needs'],'what_it_breaks':d['breaks']},open(folder+'/meta.json','w'),indent=1)
    r1=sh('bash '+bsh); 
    r2=sh(f'bash {tsh} {scratch}/o.json'); missing=base-passed(scratch+'/o.json')
    r3=sh(f'bash {folder}/demo.sh',cwd=repo)
    sh('git checkout -q -- . && git clean -fdq',cwd=repo)
    r4=sh(f'bash {folder}/demo.sh',cwd=repo)
    r5=sh(f'git apply --check {folder}/patch.diff',cwd='/repo')
    ok= r1.returncode==0 and not missing and r3.returncode!=0 and r4.returncode==0 and r5.returncode==0 and orig and not mine
    print(d['id'],'OK' if ok else 'BAD','build',r1.returncode,'missing',len(missing),list(missing)[:2],'demo+',r3.returncode,'demo-',r4.returncode,'apply',r5.returncode,'orig',orig,'mine',mine)
    if not ok:
        if r4.returncode: print(r4.stdout[-800:])
        if r3.returncode==0: print(r3.stdout[-300:])
        shutil.rmtree(folder)
    elif '-v' in os.environ.get('V',''): print(r3.stdout[-300:])
shutil.rmtree(scratch)
