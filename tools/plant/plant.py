import subprocess, os, sys, json, shutil, importlib, re
sys.path.insert(0,'/verif/tools/plant')
import glob
BUGS=[]
for f in sorted(glob.glob('/verif/tools/plant/bugs*.py')):
    BUGS += importlib.import_module(os.path.basename(f)[:-3]).BUGS
WT='/tmp/wt'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def names(o): return set(o['passed'])
BASE=json.load(open('/opt/vp/BASELINE.json'))
def basenames():
    b=BASE
    if isinstance(b,dict):
        for k in ('passed','pass','stable','tests'):
            if k in b: return set(map(str,b[k]))
    return set(map(str,b))
def fresh():
    if not os.path.exists(WT): sh(f'cp -a /repo {WT}')
    r=sh(f'git -C {WT} checkout -q -- . && git -C {WT} status --short'); assert not r.stdout.strip(), r.stdout
    h1=sh('git -C /repo rev-parse HEAD').stdout; h2=sh(f'git -C {WT} rev-parse HEAD').stdout
    if h1!=h2: sh(f'git -C {WT} fetch -q /repo HEAD && git -C {WT} reset -q --hard FETCH_HEAD')
def tests():
    env='. /opt/vp/env.sh; export CARGO_TARGET_DIR=/tmp/wt/target;'
    ok=set()
    for n,a in (('simd','--features simd'),('default',''),('no_std','--no-default-features --tests')):
        r=sh(f'{env} cd {WT} && timeout 240 cargo test --offline --no-fail-fast {a} -- --test-threads 8')
        if 'error: could not compile' in r.stderr: return None, r.stderr[-2500:]
        for m in re.finditer(r'^test (.+?) \.\.\. ok',r.stdout,re.M): ok.add(f'{n}/'+m.group(1))
    return ok, ''
def one(b):
    fresh()
    for f,o,n in b['edits']:
        p=f'{WT}/src/{f}'; s=open(p).read()
        c=s.count(o)
        want=b.get('count',{}).get((f,o),1)
        if c!=1 and not (f,o) in b.get('multi',[]): return f'EDIT: {f}: {c} matches of {o[:60]!r}'
        open(p,'w').write(s.replace(o,n))
    d=f'/verif/seeded/{b["id"]}'
    tmp=f'/tmp/plant/out/{b["id"]}'; os.makedirs(tmp,exist_ok=True)
    diff=sh(f'git -C {WT} diff').stdout
    open(f'{tmp}/patch.diff','w').write(diff)
    open(f'{tmp}/demo.rs','w').write('mod util;\nuse util::*;\n'+b['demo'].lstrip('\n'))
    shutil.copy('/verif/tools/plant/util.rs',f'{tmp}/util.rs')
    feats=''
    if b.get('features') is not None:
        feats=', default-features = false' if b['features']=='nostd' else ', features = ["%s"]'%b['features']
    if b.get('demosh'): open(f'{tmp}/demo.sh','w').write(b['demosh'])
    else: open(f'{tmp}/demo.sh','w').write(open('/verif/tools/plant/demo.sh').read().replace('@FEATURES@',feats))
    os.chmod(f'{tmp}/demo.sh',0o755)
    json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(f'{tmp}/meta.json','w'),indent=1)
    ok,err=tests()
    if ok is None: return 'COMPILE '+err
    miss={m for m in basenames() if 'src/lib.rs::' in m and m.split('/')[0]+'/'+m.split('src/lib.rs::')[1] not in ok}
    if miss or len(ok)<len(basenames()): return f'TESTS FAIL: {len(ok)} {sorted(miss)[:5]}'
    r=sh(f'timeout 300 bash {tmp}/demo.sh',cwd=WT)
    if r.returncode==0: return 'DEMO PASSES ON PATCHED'
    if 'could not compile' in r.stderr: return 'DEMO DOES NOT COMPILE '+r.stderr[-3000:]
    msg=r.stderr.strip()[-300:]
    r=sh(f'timeout 300 bash {tmp}/demo.sh',cwd='/repo')
    if r.returncode!=0: return 'DEMO FAILS ON CLEAN '+r.stderr[-1500:]
    if sh('git -C /repo status --short').stdout.strip(): return 'DEMO DIRTIES REPO'
    os.makedirs('/verif/seeded',exist_ok=True)
    if os.path.exists(d): shutil.rmtree(d)
    shutil.copytree(tmp,d)
    return 'OK  '+msg.replace('\n',' | ')
def check(id,prop):
    r=sh(f'git -C /repo apply /verif/seeded/{id}/patch.diff')
    if r.returncode: return 'NOAPPLY '+r.stderr
    try:
        r=sh(f'timeout 900 ./check {prop}',cwd='/verif')
    finally:
        sh('git -C /repo checkout -- .')
    v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    mine=[l for l in v if f'property={prop} ' in l]
    return f'rc={r.returncode} violations={len(v)} {"CAUGHT" if r.returncode==1 and mine else "MISSED"} ' + (r.stdout.strip().splitlines() or [''])[0][:200] + (r.stderr[-300:] if r.returncode not in (0,1) else '')
if __name__=='__main__':
    mode=sys.argv[1]; ids=sys.argv[2:]
    for b in BUGS:
        if ids and not any(b['id'].startswith(i) for i in ids): continue
        if mode in ('make','both'):
            if mode=='make' and not ids and os.path.exists(f'/verif/seeded/{b["id"]}'): continue
            res=one(b); print(b['id'],res,flush=True)
            if not res.startswith('OK'): continue
        if mode in ('check','both'):
            if not os.path.exists(f'/verif/seeded/{b["id"]}'): continue
            print(b['id'],b['prop'],check(b['id'],b['prop']),flush=True)
