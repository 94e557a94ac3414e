#!/usr/bin/env python3
"""Writes seeded/<id>/ from a description file (Python, defining SEEDS).

Each seed: id, prop, edits [(file, old, new)], needs, breaks, and one of
  main: Rust program (fn main with exit status), deps: crates of /repo it uses
  files: {name: text} with its own demo.sh
The patch is made against /repo's HEAD in a scratch worktree."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/plant-wt"
DEPS = {
    "eip7594": ("rust_eth_kzg", "eip7594"),
    "bls": ("crate_crypto_internal_eth_kzg_bls12_381", "cryptography/bls12_381"),
    "poly": ("crate_crypto_internal_eth_kzg_polynomial", "cryptography/polynomial"),
    "rs": ("crate_crypto_internal_eth_kzg_erasure_codes", "cryptography/erasure_codes"),
    "kzg": ("crate_crypto_kzg_multi_open_fk20", "cryptography/kzg_multi_open"),
    "c": ("c_eth_kzg", "bindings/c"),
}
ALIAS = {"eip7594": "rust_eth_kzg", "bls": "bls12_381", "poly": "polynomial", "rs": "erasure_codes", "kzg": "kzg_multi_open", "c": "c_eth_kzg"}
RUST_DEMO = """#!/bin/bash
# exit 0 when the behaviour is right, 1 when it is not
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$(pwd)
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
mkdir "$W/src"
cp "$HERE/main.rs" "$W/src/main.rs"
cp "$HERE/Cargo.lock" "$W/Cargo.lock"
sed "s|@REPO@|$REPO|" "$HERE/Cargo.toml.in" > "$W/Cargo.toml"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$W/target" RUSTFLAGS=
cd "$W"
cargo build --release --offline -q || exit 2
timeout %d "$W/target/release/demo"
"""

def sh(*a, **k):
    return subprocess.run(a, check=True, capture_output=True, text=True, **k).stdout

def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    if not os.path.isdir(WT):
        sh("git", "clone", "-q", "/repo", WT)
    for s in ns["SEEDS"]:
        if only and s["id"] not in only:
            continue
        sh("git", "-C", WT, "checkout", "-q", "--", ".")
        sh("git", "-C", WT, "fetch", "-q", "/repo", "HEAD")
        sh("git", "-C", WT, "checkout", "-q", "--detach", "FETCH_HEAD")
        for f, old, new in s["edits"]:
            p = os.path.join(WT, f)
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        d = os.path.join(V, "seeded", s["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(os.path.join(d, "patch.diff"), "w").write(sh("git", "-C", WT, "diff"))
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        for n, t in s.get("files", {}).items():
            open(os.path.join(d, n), "w").write(t)
            if n.endswith(".sh"):
                os.chmod(os.path.join(d, n), 0o755)
        if "main" in s:
            open(os.path.join(d, "main.rs"), "w").write(s["main"])
            deps = ""
            for x in s.get("deps", ["eip7594"]):
                feat = s.get("features", {}).get(x)
                deps += '%s = { package = "%s", path = "@REPO@/%s"%s }\n' % (ALIAS[x], DEPS[x][0], DEPS[x][1], ", features = %s" % json.dumps(feat) if feat else "")
            deps += s.get("extra_deps", "")
            open(os.path.join(d, "Cargo.toml.in"), "w").write('[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2021"\n\n[dependencies]\n' + deps + "\n[workspace]\n" + s.get("cargo_tail", ""))
            w = "/tmp/plant-lock"
            shutil.rmtree(w, ignore_errors=True)
            os.makedirs(w + "/src")
            open(w + "/src/main.rs", "w").write("fn main(){}")
            open(w + "/Cargo.toml", "w").write(open(os.path.join(d, "Cargo.toml.in")).read().replace("@REPO@", "/repo"))
            shutil.copy(os.path.join(V, "harness/core/Cargo.lock"), w + "/Cargo.lock")
            sh("cargo", "metadata", "--offline", "--format-version", "1", cwd=w, env=dict(os.environ, CARGO_NET_OFFLINE="true"))
            shutil.copy(w + "/Cargo.lock", os.path.join(d, "Cargo.lock"))
            open(os.path.join(d, "demo.sh"), "w").write(RUST_DEMO % 280)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
        print("planted", s["id"])
    sh("git", "-C", WT, "checkout", "-q", "--", ".")

main()
