#!/usr/bin/env python3
"""plant.py SPEC... : makes /verif/seeded/<name>/ out of a specification (see tools/README)."""
import sys, os, json, subprocess, shutil, tempfile
def parse(p):
    s=open(p).read(); head,_,rest=s.partition('\n@@EDIT ')
    meta={}
    for l in head.strip().splitlines():
        k,_,v=l.partition(':'); meta[k.strip()]=v.strip()
    body,_,demo=rest.partition('\n@@DEMO\n')
    edits=[]
    for e in body.split('\n@@EDIT '):
        f,_,r=e.partition('\n'); old,_,new=(r+'\n').partition('\n====\n')
        edits.append((f.strip(),old.strip('\n'),new.strip('\n')))
    return meta,edits,demo
for spec in sys.argv[1:]:
    meta,edits,demo=parse(spec); name=meta['name']
    d=f'/verif/seeded/{name}'; os.makedirs(d,exist_ok=True)
    for f in ('kit.go',): shutil.copy(f'/verif/tools/seedkit/{f}',d)
    shutil.copy('/verif/tools/seedkit/run.sh',d+'/demo.sh'); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.go','w').write(demo)
    subprocess.run(['gofmt','-w',d+'/demo.go'],check=True)
    t=tempfile.mkdtemp(); r=t+'/repo'
    subprocess.run(['git','clone','-q','/repo',r],check=True)
    for f,o,n in edits:
        s=open(f'{r}/{f}').read()
        if s.count(o)!=1: sys.exit(f'{name}: {f}: {s.count(o)} matches of: {o}')
        open(f'{r}/{f}','w').write(s.replace(o,n))
    subprocess.run(['gofmt','-w']+sorted({f'{r}/{f}' for f,_,_ in edits}),check=True)
    diff=subprocess.run(['git','-C',r,'diff'],check=True,capture_output=True,text=True).stdout
    open(d+'/patch.diff','w').write(diff)
    json.dump({'property':meta['property'],'needs':meta['needs'],'what_it_breaks':meta['breaks']},open(d+'/meta.json','w'),indent=1)
    shutil.rmtree(t); print('planted',name)
