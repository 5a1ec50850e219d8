#!/usr/bin/env python3
"""Makes seeded/<id>/ from a spec (python file with BUGS = [dict(id, property, edits, needs, breaks, main)]),
after confirming in a scratch copy that it builds, passes the stable tests and that the demo tells."""
import sys,os,subprocess,json,shutil,re
S='/tmp/pl'
ENV=dict(os.environ,RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu',CARGO_NET_OFFLINE='true',CARGO_PROFILE_DEV_DEBUG='line-tables-only',CARGO_TERM_COLOR='never',RUST_BACKTRACE='0')
DEMO='''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock" 2>/dev/null
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
mirror-mirror = { path = "$repo/crates/mirror-mirror" }
%s
[profile.dev]
debug = 0
[workspace]
EOF
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target"
cd "$t" && cargo build --offline -q || exit 3
timeout %d "$t/target/debug/demo"
'''
def sh(c,cwd,**k): return subprocess.run(c,shell=True,cwd=cwd,env=ENV,capture_output=True,text=True,**k)
def main(spec,only):
    ns={}; exec(open(spec).read(),ns)
    if not os.path.exists(S): subprocess.check_call(['cp','-a','/repo',S])
    head=sh('git rev-parse HEAD','/repo').stdout
    if sh('git rev-parse HEAD',S).stdout!=head:
        sh('git fetch -q /repo HEAD && git checkout -q FETCH_HEAD',S)
    stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for b in ns['BUGS']:
        if only and b['id'] not in only: continue
        sh('git checkout -q -- .',S)
        for f,o,n in b['edits']:
            p=f'{S}/{f}'; s=open(p).read()
            if s.count(o)!=1: print(b['id'],'edit matches',s.count(o),'times:',o[:60]); break
            open(p,'w').write(s.replace(o,n))
        else:
            diff=sh('git diff',S).stdout
            r=sh('cargo test --workspace --all-features --no-run --offline && cargo test --workspace --no-run --offline && cargo check --workspace --no-default-features --offline',S)
            if r.returncode: print(b['id'],'DOES NOT BUILD'); print('\n'.join(l for l in r.stderr.splitlines() if 'error' in l)[:800]); continue
            r=sh(f'cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 > {S}/target/log 2>&1',S,timeout=600)
            sh(f'python3 /opt/vp/results.py /tmp/pl-res.json cargo:{S}/target/log',S)
            lost=stable-set(json.load(open('/tmp/pl-res.json'))['passed'])
            if lost: print(b['id'],'TESTS NOTICE:',sorted(lost)[:4]); continue
            d=f'/verif/seeded/{b["id"]}'; os.makedirs(d,exist_ok=True)
            open(d+'/patch.diff','w').write(diff)
            open(d+'/main.rs','w').write(b['main'])
            open(d+'/demo.sh','w').write(DEMO%(b.get('deps',''),b.get('limit',60))); os.chmod(d+'/demo.sh',0o755)
            json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
            bad=sh(f'bash {d}/demo.sh',S); good=sh(f'bash {d}/demo.sh','/repo')
            ok=bad.returncode not in (0,3) and good.returncode==0
            print(b['id'],'ok' if ok else 'DEMO', 'bad',bad.returncode,'good',good.returncode, flush=True)
            if not ok:
                print(bad.stderr[-250:],'|| good:',good.stderr[-250:]); shutil.rmtree(d)
    sh('git checkout -q -- .',S)
main(sys.argv[1],sys.argv[2:])
