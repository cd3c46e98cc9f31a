"""usage: mut.py Cxx file <<< 'old\n====\nnew' : run check on a scratch mutated copy"""
import sys,os,subprocess,shutil,tempfile
sys.path.insert(0,'/verif/selftest')
import run
pids=sys.argv[1].split(','); f=sys.argv[2]
edits=[]
for blk in sys.stdin.read().split('\n####\n'):
    old,new=blk.rstrip('\n').split('\n====\n') if '\n====\n' in blk else (blk.rstrip('\n').split('\n====')[0],'')
    ff=f
    if old.startswith('FILE '):
        l,old=old.split('\n',1); ff=l[5:]
    edits.append((ff,old,new))
import json
name=os.environ.get('NAME'); ref=os.environ.get('REF')
d=run.scratch(edits)
if name:
    path='/verif/selftest/cases.jsonl'
    L=[json.loads(x) for x in open(path)] if os.path.exists(path) else []
    L=[x for x in L if x['name']!=name]
    L.append({'name':name,'kind':'refactor' if ref else 'mutant','properties':pids,'edits':edits})
    open(path,'w').write(''.join(json.dumps(x)+'\n' for x in L))
for p in pids:
    rc,t=run.one(p,d)
    print(p,'rc',rc, '' if rc==(0 if ref else 1) else '   <<<<<<<<<<<<'); print('\n'.join(l for l in t.splitlines() if (l.strip().startswith('violated')) or 'BROKEN' in l or 'VIOLA' in l and 0 or 'Error' in l or 'KNOWN' in l)[:3000])
shutil.rmtree(d)
