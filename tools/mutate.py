#!/usr/bin/env python3
"""Mutation campaign: small random changes of the library that compile and pass its tests; which checks notice?
usage: mutate.py SLOT SEED COUNT OUT.jsonl [file-filter]"""
import sys,os,re,random,subprocess,json,time,shutil
slot,seed,count,out=sys.argv[1],int(sys.argv[2]),int(sys.argv[3]),sys.argv[4]
flt=sys.argv[5] if len(sys.argv)>5 else ''
S=f'/tmp/mu/{slot}';R=S+'/repo';V=S+'/verif'
FILES={'yam-core/src/parsing/scanner.rs':10,'yam-core/src/parsing/parser.rs':8,'yam-core/src/parsing/parser_iter.rs':1,'yam-core/src/parsing/source.rs':2,'yam-core/src/parsing/buffered_source.rs':2,'yam-core/src/parsing/char_utils.rs':1,'yam-core/src/parsing/mod.rs':1,'yam-core/src/prelude/loader.rs':2,'yam-serde/src/de.rs':2,'yam-serde/src/ser.rs':1,'yam-core/src/saphyr_emitter/mod.rs':1,'yam-core/src/node/scalar.rs':2,'yam-core/src/node/yaml.rs':1,'yam-core/src/node/yaml_data.rs':1,'yam-serde/src/lib.rs':1,'yam-serde/src/binary.rs':1,'yam-core/src/util/mod.rs':1}
if flt: FILES={f:w for f,w in FILES.items() if flt in f}
def sh(c,t=600,**k):
    try:
        p=subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t,text=True,errors='replace',start_new_session=True,**k)
        return p.returncode,p.stdout
    except subprocess.TimeoutExpired as e:
        subprocess.run(f'pkill -f {S}/',shell=True)
        return 124,''
ENV='. /opt/vp/env.sh; export CARGO_BUILD_JOBS=4; '
if not os.path.isdir(R):
    os.makedirs(S,exist_ok=True)
    sh(f'git -C /repo worktree add -q --detach {R} HEAD')
sh(f'git -C {R} checkout -q --detach $(git -C /repo rev-parse HEAD); git -C {R} checkout -q -- .')
os.makedirs(V,exist_ok=True)
sh(f'mkdir -p {V}/sim; rsync -a --delete --exclude target /verif/sim/ {V}/sim/')
rnd=random.Random(seed)
REL=[('<=','<'),('>=','>'),(' < ',' <= '),(' > ',' >= '),('==','!='),('!=','=='),('&&','||'),('||','&&'),(' + 1',''),(' - 1',''),(' + 1',' + 2'),('true','false'),('false','true'),(' + ',' - '),(' - ',' + '),('is_some()','is_none()'),('is_none()','is_some()'),('break;','{}'),('continue;','{}'),('.saturating_sub','.wrapping_add'),('.max(','.min('),('.min(','.max(')]
def mutants(path):
    src=open(f'{R}/{path}').read()
    lines=src.split('\n')
    res=[];test=False
    for i,l in enumerate(lines):
        t=l.strip()
        if 'cfg(test)' in t: test=True
        if test: continue
        if t.startswith(('//','#','use ','pub use','debug_assert','assert','fn ','pub fn','impl','struct','enum')) or 'yam_sim' in t: continue
        if 'debug_assert' in t: continue
        code=l.split('//')[0]
        for a,b in REL:
            for m in re.finditer(re.escape(a),code):
                if a in ('<','>') : continue
                new=code[:m.start()]+b+code[m.end():]
                if a=='||' and '|' in t and re.search(r'\|\w*\|',t): continue
                res.append((i,new))
        if re.match(r'(self\.|recv\.|\w+\.(push|clear|extend|extend_from_slice|insert|pop|skip)\w*\(|\*?\w+(\.\w+)* [+-]?= )',t) and t.endswith(';') :
            res.append((i,code[:len(code)-len(code.lstrip())]+'{}'))
        m=re.match(r'(\s*(?:\} else )?if )(?!let)(.*)( \{)$',code)
        if m:
            res.append((i,f'{m[1]}!({m[2]}){m[3]}'))
            res.append((i,f'{m[1]}false && ({m[2]}){m[3]}'))
            res.append((i,f'{m[1]}true || ({m[2]}){m[3]}'))
        for m in re.finditer(r"b'(\\?.)'",code):
            alt=rnd.choice([c for c in ["b' '","b'-'","b'x'","b':'"] if c!=m[0]])
            res.append((i,code[:m.start()]+alt+code[m.end():]))
            # drop an alternative of a pattern
        for m in re.finditer(r"( \| b'\\?.')|(b'\\?.' \| )|( \| (TokenType|Event|State)::\w+)",code):
            res.append((i,code[:m.start()]+code[m.end():]))
        for m in re.finditer(r'State::(\w+)',code):
            if 'self.state =' in code or 'push_state' in code:
                alt=rnd.choice(['DocumentEnd','BlockNode','BlockMappingKey','FlowMappingKey','FlowSequenceEntry','BlockMappingValue','FlowMappingValue'])
                if alt!=m[1]: res.append((i,code[:m.start()]+'State::'+alt+code[m.end():]))
        for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])',code):
            res.append((i,code[:m.start()]+str(int(m[1])+1)+code[m.end():]))
    return lines,res
pool=[]
for f,w in FILES.items():
    lines,res=mutants(f)
    rnd.shuffle(res)
    pool.append((f,w,lines,res))
IDS=['C%02d'%i for i in range(1,17)]+['C18']
done=0
ok_fail=None
def tests():
    rc,o=sh(ENV+f'cd {R} && cargo nextest run --workspace --offline --no-fail-fast --no-tests pass --test-threads 4 -E "not binary(yaml_test_suite)" 2>&1',120)
    if rc==124: return 'hang'
    if 'error: could not compile' in o or 'error[' in o: return 'build'
    return frozenset(re.findall(r'(?:FAIL|SIGSEGV|SIGABRT|TIMEOUT) \[.*?\] (.*)',o))
base=tests()
print('baseline failing',base,flush=True)
def check(id,scale):
    env=f'cd {V}/sim && VERIF_DIR={V} YSIM_QUICK_REPORT=1 YSIM_SCALE_PERMILLE={scale} timeout 170 ./target/debug/ysim check {id} quick'
    return sh(env,180)
while done<count:
    tot=sum(w for _,w,_,r in pool if r)
    if not tot: break
    x=rnd.uniform(0,tot)
    for f,w,lines,res in pool:
        if not res: continue
        x-=w
        if x<=0: break
    i,new=res.pop()
    if new==lines[i]: continue
    L=list(lines);L[i]=new
    open(f'{R}/{f}','w').write('\n'.join(L))
    t0=time.time()
    t=tests()
    rec={'file':f,'line':i+1,'old':lines[i].strip(),'new':new.strip()}
    if t=='build': rec['status']='build'
    elif t!=base: rec['status']='tests'
    else:
        done+=1
        rc,o=sh(ENV+f'cd {V}/sim && cargo build --quiet --offline 2>&1',400)
        if rc: rec['status']='harness-build'
        else:
            caught=[]
            for scale in (10,200):
                for id in IDS:
                    rc,o=check(id,scale)
                    if rc: caught.append(id if rc==1 else f'{id}:{rc}')
                    if scale>10 and caught: break
                if caught: break
            rec['status']='caught' if caught else 'SURVIVED'
            rec['by']=caught
            rec['scale']=scale
    rec['s']=round(time.time()-t0)
    if rec['status'] not in('build',):
        open(out,'a').write(json.dumps(rec)+'\n')
    sh(f'git -C {R} checkout -q -- .')
