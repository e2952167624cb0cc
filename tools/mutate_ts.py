#!/usr/bin/env python3
"""mutate_ts.py <workers> <max> <seed>: mutation testing of the TypeScript monitors (C34, C35) on private copies of sdk/src.
Results: /tmp/mutts/results.jsonl"""
import sys, os, re, random, json, subprocess, multiprocessing as mp, shutil
V='/verif'; M='/tmp/mutts'; B=M+'/base/'
if not os.path.exists(B): os.makedirs(M,exist_ok=True); shutil.copytree('/repo/sdk/src',B)
FILES=['invariant.ts','erc20.ts','utils.ts','wasm-serializer.ts','consts.ts','computed-consts.ts','invariant-contract.ts','erc20-token.ts']
PAIRS=[(r' < ',' <= '),(r' <= ',' < '),(r' > ',' >= '),(r' >= ',' > '),('===','!=='),('!==','==='),('&&','||'),(r'\|\|','&&'),(r' \+ ',' - '),(r' - ',' + '),(r' \* ',' / '),(r' / ',' * '),(r'\btrue\b','false'),(r'\bfalse\b','true'),
 (r'\b(\d+)n\b',lambda m:f'{int(m[1])+1}n'),(r'(?<=[ (\[])(\d+)(?=[,)\] ;])',lambda m:f'{int(m[1])+1}'),(r'\bx\b','y'),(r'\by\b','x'),(r'X\b','Y'),(r'Y\b','X'),(r'\blower','upper'),(r'\bupper','lower'),(r'!(?=[a-z(])',''),(r'>>','<<'),(r'<<','>>'),(r' & ',' | '),
 (r'Math\.ceil','Math.floor'),(r'\bawait ',''),(r'BigInt\(','Number('),(r'integerSafeCast\(','('),(r"'(u\d+|U256|i32|bool|u128)'",lambda m:"'u8'"),(r'U256','u128'),(r'\.map\((\w+)\)$',''),(r', DEFAULT_ADDRESS',', undefined')]
def mutants():
    out=[]
    for f in FILES:
        for ln,line in enumerate(open(B+f).read().split('\n')):
            st=line.strip()
            if not st or re.match(r'(//|import|export (type|interface|enum|class)|interface|type |\*|/\*)',st): continue
            for p,r in PAIRS:
                for m in re.finditer(p,line):
                    a=m.expand(r) if isinstance(r,str) else r(m)
                    out.append((f,ln,line,line[:m.start()]+a+line[m.end():]))
            if re.match(r'[\w.\[\]]+ = .*[^{(,]$',st) and not st.endswith('=>') : out.append((f,ln,line,''))
            if re.match(r'if \(.*\) \{$',st): out += [(f,ln,line,re.sub(r'if \((.*)\) \{$',r'if (false && (\1)) {',line)),(f,ln,line,re.sub(r'if \((.*)\) \{$',r'if (true || (\1)) {',line))]
    return out
def worker(k,nw,q,lock):
    per=max(1,8//nw); cores=f'{k*per}-{k*per+per-1}'
    d=f'{M}/{k}'; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    while True:
        try: f,ln,old,new=q.get(timeout=3)
        except Exception: break
        shutil.rmtree(d+'/sdk',ignore_errors=True); os.makedirs(d+'/sdk'); shutil.copytree(B,d+'/sdk/src')
        p=f'{d}/sdk/src/{f}'; s=open(p).read().split('\n'); assert s[ln]==old; s[ln]=new; open(p,'w').write('\n'.join(s))
        res='SURVIVED'; info=''
        order=[('C35',40),('C34',60)] if f in('utils.ts','wasm-serializer.ts','consts.ts','computed-consts.ts') else [('C34',60)]
        for prop,n in order:
            r=subprocess.run(f'taskset -c {cores} timeout -k 5 400 node {V}/tscheck/main.mjs run --prop {prop} --target {V}/target --out {d}/ev --n {n} --sdk {d}/sdk',shell=True,capture_output=True,text=True)
            if r.returncode==1: res='caught '+prop; info=(r.stdout.split('\n')+[''])[1][:200]; break
            if r.returncode==3: res='nobuild'; break
            if r.returncode: res=f'{prop} rc{r.returncode}'; info=(r.stdout+r.stderr)[-300:]; break
        with lock: open(M+'/results.jsonl','a').write(json.dumps(dict(file=f,line=ln+1,old=old.strip(),new=new.strip(),res=res,info=info))+'\n')
if __name__=='__main__':
    nw,mx,seed=int(sys.argv[1]),int(sys.argv[2]),int(sys.argv[3]); os.makedirs(M,exist_ok=True)
    done={(r['file'],r['line'],r['new']) for r in map(json.loads,open(M+'/results.jsonl'))} if os.path.exists(M+'/results.jsonl') else set()
    ms=[m for m in mutants() if (m[0],m[1]+1,m[3].strip()) not in done]; random.Random(seed).shuffle(ms); print(len(ms),'mutants')
    q=mp.Queue(); lock=mp.Lock()
    for m in ms[:mx]: q.put(m)
    ps=[mp.Process(target=worker,args=(k,nw,q,lock)) for k in range(nw)]
    [p.start() for p in ps]; [p.join() for p in ps]
