import sys,os,subprocess,json,shutil
sys.path.insert(0,'/tmp/plant')
mods=sys.argv[1].split(',')
only=set(sys.argv[2:])
for m in mods: __import__(m)
from bugs1 import B
R='/tmp/r1'
def sh(c,**k): return subprocess.run(c,shell=True,text=True,capture_output=True,**k)
env="export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2025-05-06 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only; cd /tmp/r1; "
for b in B:
    if not only and b['mod']!=mods[-1]: continue
    if only and b['id'] not in only: continue
    sh('git checkout -q -- .',cwd=R)
    ok=True
    for f,old,new in b['edits']:
        p=os.path.join(R,f); s=open(p).read()
        n=s.count(old)
        if n<1: print(b['id'],'EDIT NOT FOUND',f); ok=False; break
        if n>1: print(b['id'],'note: edit matches',n)
        open(p,'w').write(s.replace(old,new,1))
    if not ok: continue
    d=f"/tmp/vw/seeded/{b['id']}"
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    open(d+'/patch.diff','w').write(sh('git diff',cwd=R).stdout)
    json.dump({"property":b['prop'],"needs":b['needs'],"what_it_breaks":b['breaks']},open(d+'/meta.json','w'),indent=1)
    T=os.environ.get('T','/verif/tools/demo/')
    if b['plugin']:
        for f in ('plugin.sh','plugin-'+b['plugin']+'.js','host.js','replay.js','session.json'):
            src='session-'+b['plugin']+'.json' if f=='session.json' and os.path.exists(T+'session-'+b['plugin']+'.json') else f
            shutil.copy(T+src,d+'/'+('demo.sh' if f=='plugin.sh' else 'demo.js' if f.startswith('plugin-') else f))
    else:
        for f in ('demo.sh','Cargo.toml'): shutil.copy(T+f,d)
        if b['js']:
            shutil.copy(T+'lib.js',d); shutil.copy(T+'main.rs',d); open(d+'/demo.js','w').write(b['js']+'\n')
        else: (open(d+'/main.rs','w').write(b['rs']), open(d+'/Cargo.toml','w').write(open(T+'Cargo.toml').read().replace('istanbul-oxide" }','istanbul-oxide", features = ["verif-hooks"] }')))
    r=sh(env+"cargo test --workspace --no-fail-fast --locked --offline -- --test-threads 8 2>&1 | grep -E '^test result|FAILED|failed|^error' ")
    passed=sum(int(l.split(' passed')[0].split()[-1]) for l in r.stdout.splitlines() if l.startswith('test result'))
    if b['plugin']: sh(env+'cargo build -p swc-plugin-coverage --target wasm32-wasip1 --locked --offline')
    bad=sh(env+f"bash {d}/demo.sh")
    sh('git checkout -q -- .',cwd=R)
    print(b['id'],b['prop'],'tests',passed,'(want 31)','demo patched rc',bad.returncode,(bad.stdout+bad.stderr).strip().splitlines()[-6:] if bad.returncode in(0,3) else '', flush=True)
    if passed!=31: print(r.stdout)
    if b['plugin']: sh(env+'cargo build -p swc-plugin-coverage --target wasm32-wasip1 --locked --offline')
    good=sh(env+f"bash {d}/demo.sh")
    print('   unchanged rc',good.returncode, '' if good.returncode==0 else (good.stdout+good.stderr)[-1500:],flush=True)
