#!/usr/bin/env python3
# campaign.py FILE [name...]: tries edits (planted bugs or behaviour-preserving
# changes) on scratch copies of /repo and reports which checks raise an alarm.
# FILE defines EDITS = [(name, [(file, old, new), ...], [properties], expect)]
# (the edit list may also be the path of a patch)
# expect: 1 an alarm is due, 0 silence is due.
import sys,os,subprocess,shutil,tempfile,concurrent.futures as cf
env=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',HOME='/root',VERIF_SEED='1',VERIF_TIER='quick')
ns={}
exec(open(sys.argv[1]).read(),ns)
want=sys.argv[2:]
verif=tempfile.mkdtemp(prefix='campv.',dir='/tmp') # a snapshot: /verif may change meanwhile
def one(e):
    name,edits,props,exp=e
    t=tempfile.mkdtemp(prefix='camp.',dir='/tmp')
    out=[]
    try:
        r=t+'/repo'; shutil.copytree('/repo',r,symlinks=True)
        subprocess.run(['git','checkout','-q','--','.'],cwd=r)
        if isinstance(edits,str):
            subprocess.run(['git','apply',edits],cwd=r,check=True); edits=[]
        for f,o,n in edits:
            p=f'{r}/pkg/scte35/{f}' if not f.startswith('cmd/') else f'{r}/{f}'
            s=open(p).read()
            if s.count(o)<1: return f'{name}: text not found in {f}: {o!r}'
            open(p,'w').write(s.replace(o,n,1))
        q=subprocess.run(['go','build','./...'],cwd=r,env=env,capture_output=True,text=True)
        if q.returncode: return f'{name}: does not build: {q.stderr[:300]}'
        q=subprocess.run(['go','test','-vet=off','-count=1','./...'],cwd=r,env=env,capture_output=True,text=True)
        tests='' if q.returncode==0 else ' [existing tests FAIL]'
        v=t+'/verif'; os.mkdir(v)
        for d in ('contracts','replay','KNOWN_FINDINGS','check.sh','build','govc','properties.jsonl','tools'):
            if os.path.exists(f'{verif}/{d}'): os.symlink(f'{verif}/{d}',f'{v}/{d}')
        os.mkdir(t+'/cache')
        for p in props:
            e2=dict(env,GOVC_REPO=r,GOVC_DEVCACHE=t+'/cache')
            try:
                q=subprocess.run([verif+'/build/govc','check',v,p,'quick'],env=e2,capture_output=True,text=True,timeout=900)
                rc=q.returncode; o=q.stdout
            except subprocess.TimeoutExpired: rc='timeout'; o=''
            vs=[l for l in o.splitlines() if l.startswith('VIOLATION')]
            rep=sum('no-failing-input' not in l for l in vs)
            ok='ok ' if rc==exp else 'BAD'
            first=[l for l in o.splitlines() if not l.startswith(('VIOLATION','KNOWN'))][:1]
            out.append(f'{ok} {name}{tests} {p}: rc={rc} violations={len(vs)} replayed={rep} {first[0][:140] if first else ""}')
    finally: shutil.rmtree(t,ignore_errors=True)
    return '\n'.join(out)
subprocess.run(['bash','/verif/check.sh','build'],check=True)
for d in ('contracts','replay','build','govc','tools'): shutil.copytree('/verif/'+d,verif+'/'+d)
for f in ('KNOWN_FINDINGS','check.sh','properties.jsonl'): shutil.copy('/verif/'+f,verif)
es=[e for e in ns['EDITS'] if not want or e[0] in want]
with cf.ThreadPoolExecutor(int(os.environ.get('JOBS','2'))) as ex:
    for r in ex.map(one,es): print(r,flush=True)
shutil.rmtree(verif,ignore_errors=True)
