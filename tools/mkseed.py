"""Helper to write one planted change: seed(id, property, [(file, old, new)], demo_rs, needs, breaks)."""
import os,subprocess,json,shutil,tempfile
DEMO='''#!/bin/bash
# Builds demo.rs (beside this file) against the crate in the current directory and runs it.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$(pwd)"
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset CARGO_TARGET_DIR RUSTFLAGS
w="$(mktemp -d)" || exit 2
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src" && cp "$here/demo.rs" "$w/src/main.rs"
cat >"$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
static-math = { path = "$repo"@FEAT@ }
num = { version = "0.4", default-features = false }
T
cargo build --offline --quiet --manifest-path "$w/Cargo.toml" --target-dir "$w/target" || exit 2
timeout 120 "$w/target/debug/demo"
'''
def seed(id,prop,edits,demo,needs,breaks,feat=""):
    d=f"/verif/seeded/{id}"
    t=tempfile.mkdtemp(prefix="mkseed")
    for r in ("a","b"):
        shutil.copytree("/repo/src",f"{t}/{r}/src"); 
    for f,old,new in edits:
        p=f"{t}/b/{f}"; s=open(p).read(); n=s.count(old)
        assert n==1,(id,f,n,old)
        open(p,"w").write(s.replace(old,new))
    r=subprocess.run(["git","diff","--no-index","a","b"],cwd=t,capture_output=True,text=True).stdout
    r=r.replace("a/a/","a/").replace("b/b/","b/")
    shutil.rmtree(t)
    os.makedirs(d,exist_ok=True)
    open(d+"/patch.diff","w").write(r)
    open(d+"/demo.rs","w").write("#![allow(unused)]\n"+demo.strip()+"\n")
    open(d+"/demo.sh","w").write(DEMO.replace("@FEAT@",feat))
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
