#!/usr/bin/env python3
"""mutate.py <workers> <max> <seed> [path regex]: mutation testing of the monitors.
Small syntactic changes are planted one by one in private copies of the repository (never in /repo itself); a change
that compiles is shown to the monitors (reduced workloads first, then the quick tiers); one that no monitor reports is given to the stable unit tests,
and listed as SURVIVED when those pass too. Results: /tmp/mut/results.jsonl"""
import sys, os, re, random, json, subprocess, multiprocessing as mp, shutil, hashlib
V='/verif'; M='/tmp/mut'; B=M+'/base/'
if not os.path.exists(B): subprocess.run(f'mkdir -p {B}; git -C /repo archive HEAD | tar x -C {B}',shell=True)
ENV=dict(os.environ, PATH='/root/.cargo/bin:'+os.environ['PATH'], RUSTUP_TOOLCHAIN='1.81', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', CARGO_PROFILE_DEV_DEBUG='line-tables-only')
FILES=[f for f in subprocess.run("git -C /repo ls-files 'src/*.rs' 'calc/decimal/src/*.rs' 'calc/decimal/decimal_core/src/*.rs' 'calc/math/*.rs' 'sdk/src/wasm/*.rs'",shell=True,capture_output=True,text=True).stdout.split() if not re.search(r'test_helpers|storage/errors|contracts/errors|/wasm/build|build\.rs|tests?/|/tests?\.rs|wasm_wrapper|entrypoints',f)]
PAIRS=[(r'(?<![<=>-])<(?= )','<='),(r'(?<![<=>])<=','<'),(r'(?<![-=>])>(?= )','>='),(r'(?<![>])>=','>'),('==','!='),('!=','=='),(r'&&','||'),(r'\|\|(?= )','&&'),
 (r' \+ ',' - '),(r' - ',' + '),(r' \+= ',' -= '),(r' -= ',' += '),(r' \* ',' / '),(r' / ',' * '),(r'\btrue\b','false'),(r'\bfalse\b','true'),(r'!(?=[a-z(])',''),
 (r'_up\(','('),(r'\b(big_mul|mul|div|big_div|from_decimal|to_value|big_mul_to_value)\(',r'\1_up('),(r'_x\b','_y'),(r'_y\b','_x'),(r'\blower','upper'),(r'\bupper','lower'),
 (r'checked_add','checked_sub'),(r'checked_sub','checked_add'),(r'unchecked_add','unchecked_sub'),(r'unchecked_sub','unchecked_add'),(r' (\d+)\b(?!\.)',lambda m:' '+str(int(m[1])+1)),(r' >> ',' << '),(r' << ',' >> '),(r' \| ',' & '),(r' & ',' | '),
 (r'\bmin\(','max('),(r'\bmax\(','min('),(r'\bamount_in\b','amount_out'),(r'\bamount_out\b','amount_in'),(r'\btoken_0\b','token_1'),(r'\btoken_1\b','token_0')]
def strip_tests(s):
    i=re.search(r'#\[cfg\(test\)\]\s*(pub )?mod ',s)
    return s[:i.start()] if i else s
def mutants():
    out=[]
    for f in FILES:
        s=open(B+f).read(); body=strip_tests(s); pos=0
        for ln,line in enumerate(body.split('\n')):
            st=line.strip()
            if st and not re.match(r'(//|use |pub use |#\[|mod |pub mod |extern|\}|\)|pub (async )?fn|fn |impl|pub struct|pub enum|struct|enum|where|type |pub trait|trait )',st):
                for p,r in PAIRS:
                    for m in re.finditer(p,line):
                        if '//' in line[:m.start()] : continue
                        a=m.expand(r) if isinstance(r,str) else r(m)
                        out.append((f,ln,line,line[:m.start()]+a+line[m.end():]))
                if st.endswith(';') and not re.match(r'(let|const|pub const|static|return|break|continue)\b',st) and line.count('(')==line.count(')') and not st.startswith(')') and not st.startswith('.'):
                    out.append((f,ln,line,''))
                if re.match(r'(if|else if|\} else if) .*\{$',st) and 'let ' not in st:
                    out.append((f,ln,line,re.sub(r'if (.*) \{$',r'if false && (\1) {',line)))
                    out.append((f,ln,line,re.sub(r'if (.*) \{$',r'if true || (\1) {',line)))
    return out
CONTRACT='C05 C14 C15 C23 C24 C03 C12 C11 C01 C29 C02 C13 C25 C22 C09 C10 C16 C04 C06 C07 C08 C27 C28 C32 C26 C20'.split()
MATH='C30 C18 C17 C19 C31 C21'.split()
def run(c,d,t,cores):
    try: return subprocess.run(f'taskset -c {cores} timeout -k 5 {t} {c}',shell=True,cwd=d,env=ENV,capture_output=True,text=True)
    except Exception as e: return None
def setup(k):
    d=f'{M}/{k}'
    if os.path.exists(d+'/ready'): return d
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d+'/v/target',exist_ok=True)
    subprocess.run(f'cp -a /opt/vara-ws {d}/ws; rsync -rlpc --exclude .git --exclude /target --exclude node_modules --exclude /Cargo.toml --exclude /Cargo.lock --exclude /extended-vft {B}src {B}calc {B}sdk {d}/ws/ ; for x in contract; do cp -a {V}/$x {d}/v/; done; for x in mathcheck sdkcheck monitor common; do cp -a /verif/$x {d}/v/; done; cp -a {V}/target/contract-release {V}/target/contract-checked {V}/target/mathcheck {V}/target/sdkcheck {V}/target/monitor {d}/v/target/; sed -i "s#\\"/repo#\\"{d}/ws#" {d}/v/*/Cargo.toml',shell=True)
    return d
def build(d,what,cores):
    t=d+'/v/target'
    for w in what:
        if w=='release' or w=='checked': c=f'cargo rustc --offline --locked --profile {w} --target wasm32-unknown-unknown -- -C link-arg=--import-memory -C linker-plugin-lto -C link-arg=--export=__stack_pointer'; cwd=d+'/v/contract'; td=f'{t}/contract-{w}'
        else: c='cargo build --offline --locked --release'; cwd=f'{d}/v/{w}'; td=f'{t}/{w}'
        r=run(f'env CARGO_INCREMENTAL=0 CARGO_TARGET_DIR={td} {c}',cwd,900,cores)
        if r.returncode: return r.stderr
    return None
def parts(f):
    if f.startswith('sdk/'): return ['sdkcheck'],['C33','C20']
    if f.startswith('calc/'): return ['release','checked','mathcheck'],MATH+CONTRACT+['C33']
    if re.search('tickmap|liquidity_result',f): return ['release','checked','mathcheck'],['C19','C21','C31']+CONTRACT
    return ['release','checked'],CONTRACT
def checks(d,props,cores,n):
    for p in props:
        math=p in MATH or p=='C33'
        b=f'{d}/v/target/mathcheck/release/mathcheck' if math else f'{d}/v/target/monitor/release/monitor'
        r=run(f'{b} run --prop {p} --out {d}/ev --target {d}/v/target '+('' if math or not n else f'--n {n}'),d,500,cores)
        if r.returncode==1: return p, (r.stdout.split('\n') or [''])[1][:200]
        if r.returncode not in (0,1): return p+'!rc%d'%r.returncode, (r.stdout+r.stderr)[-200:]
    return None
def worker(k,nw,q,lock):
    per=max(1,8//nw); cores=f'{k*per}-{k*per+per-1}'
    d=setup(k)
    if not os.path.exists(d+'/ready'):
        e=build(d,['release','checked','mathcheck','sdkcheck','monitor'],cores)
        if e: print('setup failed',e[-2000:]); return
        c=checks(d,MATH+CONTRACT+['C33'],cores,25)
        if c: print('not quiet on the clean tree',c); return
        open(d+'/ready','w')
    while True:
        try: m=q.get(timeout=3)
        except Exception: return
        f,ln,old,new=m; src=open(B+f).read().split('\n')
        L=list(src); assert L[ln]==old; L[ln]=new
        def put(x):
            for z in (f'{d}/ws/{f}',): open(z,'w').write('\n'.join(x))
        put(L); what,props=parts(f); res='?';info=''
        e=build(d,what,cores)
        if e is not None: res='nobuild'; info=e[:0]
        else:
            c=checks(d,props,cores,40)
            if not c:
                t=run('cargo test --workspace --exclude invariant --exclude invariant-wasm --offline -- --test-threads 4',d+'/ws',900,cores)
                u=run(f'env CARGO_TARGET_DIR={d}/ws/target-sdk cargo test --workspace --locked --offline -- --test-threads 4',d+'/ws/sdk/src/wasm',900,cores) if not t.returncode else None
                if t.returncode or u.returncode: res='unit'; info=str(re.findall(r'test (\S+) \.\.\. FAILED',t.stdout+(u.stdout if u else '')))[:150]
                else:
                    c=checks(d,props,cores,0)
                    if not c: res='SURVIVED'
            if c: res='caught '+c[0]; info=c[1]
        put(src)
        with lock:
            open(M+'/results.jsonl','a').write(json.dumps(dict(file=f,line=ln+1,old=old.strip(),new=new.strip(),res=res,info=info))+'\n')
if __name__=='__main__':
    nw,mx,seed=int(sys.argv[1]),int(sys.argv[2]),int(sys.argv[3]); pat=sys.argv[4] if len(sys.argv)>4 else '.'
    if nw==0: L=[m for m in mutants() if re.search(pat,m[0])]; print(len(L)); from collections import Counter; print(Counter(m[0] for m in L)); sys.exit()
    os.makedirs(M,exist_ok=True)
    done=set()
    if os.path.exists(M+'/results.jsonl'):
        for l in open(M+'/results.jsonl'): j=json.loads(l); done.add((j['file'],j['line'],j['new']))
    L=[m for m in mutants() if re.search(pat,m[0]) and (m[0],m[1]+1,m[3].strip()) not in done]
    random.Random(seed).shuffle(L)
    q=mp.Queue(); lock=mp.Lock()
    for m in L[:mx]: q.put(m)
    ps=[mp.Process(target=worker,args=(k,nw,q,lock)) for k in range(nw)]
    [p.start() for p in ps]; [p.join() for p in ps]
