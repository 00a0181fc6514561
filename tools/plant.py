#!/usr/bin/env python3
"""Turn a list of planted bugs into /verif/seeded/<id>/ and verify each one.
usage: plant.py SPEC.py [ID...]      SPEC.py defines BUGS, a list of dicts:
  id, property, needs, breaks, edits=[(file, old, new)...], main=<rust main.rs of the demonstration>
For each bug: apply the edits in a scratch worktree, build, run the stable tests, run the demonstration
with and without the patch, then (CHECK=1) run the check of its property (or CHECK="C01 C02")."""
import sys,os,subprocess,json
spec={};exec(open(sys.argv[1]).read(),spec)
only=sys.argv[2:]
R='/tmp/pl/repo';SEED='/verif/seeded'
def sh(c,t=900):
    try:
        p=subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t,text=True,errors='replace')
        return p.returncode,p.stdout
    except subprocess.TimeoutExpired: return 124,''
ENV='. /opt/vp/env.sh; '
if not os.path.isdir(R):
    os.makedirs('/tmp/pl',exist_ok=True); sh(f'git -C /repo worktree add -q --detach {R} HEAD')
sh(f'git -C {R} checkout -q --detach $(git -C /repo rev-parse HEAD); git -C {R} checkout -q -- .')
BASE=sh("git -C /repo rev-list --max-parents=0 HEAD")[1].split()[0][:7]
DEMO='''#!/bin/bash
# Demonstration: exit 0 when the behaviour holds, nonzero when it is broken. Run with cwd = the repository.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'find "$T" -depth -delete' EXIT
mkdir -p "$T/src" && cp "$D/main.rs" "$T/src/main.rs" || exit 2
cat > "$T/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[dependencies]
yam-core = { path = "$R/yam-core" }
yam-serde = { path = "$R/yam-serde" }
serde = "1"
[workspace]
TOML
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$T/Cargo.lock"
cd "$T" || exit 2
export CARGO_TARGET_DIR="$T/target" RUSTFLAGS="--cfg yam_sim" CARGO_INCREMENTAL=0
cargo build --offline --quiet 2>"$T/log" || { cat "$T/log"; exit 2; }
ulimit -v 8000000
timeout 60 "$T/target/debug/demo"
'''
def tests():
    rc,o=sh(ENV+f'cd {R} && cargo nextest run --workspace --offline --no-fail-fast --no-tests pass --test-threads 8 -E "not binary(yaml_test_suite)" 2>&1; cargo test --workspace --doc --offline --no-fail-fast 2>&1')
    import re
    bad=re.findall(r'(?:FAIL|SIGSEGV|SIGABRT|TIMEOUT) \[.*?\] (.*)',o)+re.findall(r'^test (.*) \.\.\. FAILED',o,re.M)
    if 'could not compile' in o: bad.append('BUILD '+'\n'.join([l for l in o.split('\n') if l.startswith('error')][:5]))
    return sorted(set(bad))
for b in spec['BUGS']:
    if only and b['id'] not in only: continue
    sh(f'git -C {R} checkout -q -- .')
    d=f'{SEED}/{b["id"]}';os.makedirs(d,exist_ok=True)
    ok=True
    for f,old,new in b['edits']:
        s=open(f'{R}/{f}').read()
        if s.count(old)!=1: print(b['id'],'edit matches',s.count(old),'times:',old[:60]);ok=False;break
        open(f'{R}/{f}','w').write(s.replace(old,new))
    if not ok: continue
    sh(ENV+f'cd {R} && for f in $(git diff --name-only); do rustfmt --edition 2024 --config skip_children=true $f; done') if b.get('fmt') else None
    diff=sh(f'git -C {R} diff')[1]
    open(d+'/patch.diff','w').write(diff)
    open(d+'/main.rs','w').write(b['main'].lstrip('\n'))
    open(d+'/demo.sh','w').write(DEMO.replace('yam-core" }','yam-core"'+b.get('features','')+' }')); os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
    # which lines does the patch remove / are they original
    rm=[]
    for f in set(e[0] for e in b['edits']):
        bl=sh(f'git -C /repo blame -s HEAD -- {f}')[1].split('\n')
        import re
        n=0;
        for l in sh(f'git -C {R} diff -U0 -- {f}')[1].split('\n'):
            m=re.match(r'@@ -(\d+)(?:,(\d+))?',l)
            if m:
                a=int(m[1]);c=int(m[2] or 1)
                rm+= [bl[i-1].split()[0] for i in range(a,a+c)]
    orig=sum(x.lstrip('^').startswith(BASE) for x in rm)
    bad=tests()
    rcp,op=sh(f'cd {R} && bash {d}/demo.sh',400)
    sh(f'git -C {R} checkout -q -- .')
    rcu,ou=sh(f'cd {R} && bash {d}/demo.sh',400)
    good=not bad and rcp not in(0,2) and rcu==0 and orig>0
    print(f'{b["id"]}: {"OK" if good else "BAD"} removed={len(rm)} original={orig} tests={bad[:4]} patched={rcp} clean={rcu}',flush=True)
    if not good: print('   patched:',op[-300:],'\n   clean:',ou[-300:],flush=True)
    if good and os.environ.get('CHECK'):
        ids=os.environ['CHECK'] if os.environ['CHECK']!='1' else b['property']
        print('   ',sh(f'SB={os.environ.get("SB","/tmp/sb")} /verif/tools/sandbox.sh {d}/patch.diff {ids}')[1].strip().replace('\n','\n    '),flush=True)
