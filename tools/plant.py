#!/usr/bin/env python3
"""plant.py <dir with plan.py>... : writes /verif/seeded/<id>/ from a plan and confirms it.
A plan defines: id, property, needs, breaks, kit ('svc'|'lib'|'sdk'|'ts'), edits [(file, old, new)], main (rust source)."""
import sys, os, subprocess, json, shutil, runpy, re
V='/verif'; K=V+'/tools/seedkit'
LIBCARGO='''[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[[bin]]
name = "demo"
path = "main.rs"

[dependencies]
%s
num-bigint = "0.4"
num-integer = "0.1"
num-traits = "0.2"

[workspace]
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def write(p):
    d=f'{V}/seeded/{p["id"]}'; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d+('/main.mjs' if p['kit']=='ts' else '/main.rs'),'w').write(p['main'].lstrip('\n'))
    if p['kit']=='ts':
        for f in ['kit.mjs','demo.sh']: shutil.copy(f'{K}/ts/{f}',d)
    elif p['kit']=='svc':
        for f in ['kit.rs','Cargo.toml','contract.toml','demo.sh']: shutil.copy(f'{K}/svc/{f}',d)
        for f in ['rt.rs','api.rs','codec.rs']: shutil.copy(f'{V}/monitor/src/{f}',d)
        open(d+'/Cargo.lock','w').write(open(V+'/monitor/Cargo.lock').read().replace('name = "monitor"','name = "demo"'))
        shutil.copy(V+'/contract/Cargo.lock',d+'/contract.lock'); shutil.copy(V+'/contract/src/lib.rs',d)
    else:
        shutil.copy(K+'/lib/demo.sh',d)
        lock='mathcheck' if p['kit']=='lib' else 'sdkcheck'
        deps=open(f'{V}/{lock}/Cargo.toml').read().split('[dependencies]\n')[1].split('\n\n')[0].split('\n')
        deps=[l for l in deps if not l.startswith('num-')]
        nums='num-' in open(f'{V}/{lock}/Cargo.toml').read()
        c=LIBCARGO % '\n'.join(deps)
        if not nums: c=re.sub(r'num-.*\n','',c)
        open(d+'/Cargo.toml','w').write(c)
        open(d+'/Cargo.lock','w').write(open(f'{V}/{lock}/Cargo.lock').read().replace(f'name = "{lock}"','name = "demo"'))
    json.dump({'property':p['property'],'needs':p['needs'],'what_it_breaks':p['breaks']},open(d+'/meta.json','w'),indent=1)
    for f,o,n in p['edits']:
        s=open('/repo/'+f).read()
        assert s.count(o)==1,(f,s.count(o),o)
        open('/repo/'+f,'w').write(s.replace(o,n))
    open(d+'/patch.diff','w').write(sh('git -C /repo diff').stdout)
    return d
def clean(): sh('git -C /repo checkout -- .')
def confirm(d, tests=True):
    out=[]
    clean()
    a=sh(f'bash {d}/demo.sh',cwd='/repo'); out.append(f'clean={a.returncode}')
    if a.returncode: print(a.stdout[-1500:],a.stderr[-1500:])
    assert sh(f'git -C /repo apply {d}/patch.diff').returncode==0
    b=sh(f'bash {d}/demo.sh',cwd='/repo'); out.append(f'planted={b.returncode}')
    print((b.stdout+b.stderr)[-300:])
    if tests:
        t=sh('bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh /tmp/plant.json | tail -1',cwd='/repo'); out.append(t.stdout.strip())
    return ' '.join(out), a.returncode==0 and b.returncode not in (0,3)
if __name__=='__main__':
    assert not sh('git -C /repo status --porcelain').stdout.strip()
    for f in sys.argv[1:]:
        ns=runpy.run_path(f)
        for p in ns['plans']:
            try:
                d=write(p); clean()
                r,ok=confirm(d)
                c=sh(f'./check.sh {p["property"]} quick',cwd=V)
                caught='CAUGHT' if c.returncode==1 else f'MISSED rc={c.returncode}'
                print(p['id'],r,'OK' if ok else 'BAD-DEMO',caught, [l for l in c.stdout.split('\n') if l.startswith('  ')][:1],flush=True)
            except Exception as e: print(p['id'],'ERROR',repr(e),flush=True)
            finally: clean()
