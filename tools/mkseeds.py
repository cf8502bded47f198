#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the list of planted bugs below.

Each entry is (property, edits, needs, breaks, demo): edits are (file, old,
new) replacements that are applied to a scratch clone of /repo to make
patch.diff; the demo is the main.rs of a small crate that depends on the tree
demo.sh is run in. `mkseeds.py verify ID...` builds, tests and runs the demos
in scratch copies.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "seeded")
sys.path.insert(0, HERE)

DEMO_SH = r'''#!/bin/bash
# Builds the program beside this file against the tree in the current
# directory and runs it: it exits 0 where the property holds.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export PATH="$HOME/.cargo/bin:/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here"/*.rs "$tmp/src/"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock" 2>/dev/null
cat > "$tmp/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
voprf = { path = "$repo", features = ["danger", "std", "serde"] }
curve25519-dalek = { version = "4", default-features = false, features = ["rand_core", "zeroize"] }
digest = "0.10"
generic-array = { version = "0.14", features = ["more_lengths"] }
p256 = { version = "0.13", default-features = false, features = ["hash2curve", "voprf"] }
p384 = { version = "0.13", default-features = false, features = ["hash2curve", "voprf"] }
rand = "0.8"
serde_json = "1"
sha2 = "0.10"
subtle = "2"
zeroize = "1"
[profile.dev]
opt-level = 2
debug = false
EOT
cd "$tmp" || exit 3
CARGO_TARGET_DIR="$tmp/target" timeout 280 cargo run --offline --quiet
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), text=True,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def write(sid, seed):
    prop, edits, needs, breaks, demo = (seed[k] for k in ("property", "edits", "needs", "breaks", "demo"))
    d = os.path.join(OUT, sid)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp()
    subprocess.run(["git", "clone", "-q", "/repo", tmp + "/r"], check=True)
    for f, old, new in edits:
        p = os.path.join(tmp, "r", f)
        s = open(p).read()
        assert s.count(old) == 1, (sid, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", tmp + "/r", "diff"], stdout=subprocess.PIPE, text=True, check=True).stdout
    shutil.rmtree(tmp)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO_SH)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/main.rs", "w").write(demo.strip() + "\n")
    if "mod spec" in demo:
        open(d + "/spec.rs", "w").write(SPEC.strip() + "\n")
    if "mod toy" in demo:
        open(d + "/toy.rs", "w").write(TOY.strip() + "\n")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
              open(d + "/meta.json", "w"), indent=1)


def verify(sid):
    d = os.path.join(OUT, sid)
    tmp = tempfile.mkdtemp(prefix="seed")
    r = tmp + "/repo"
    subprocess.run(["cp", "-a", "/repo", r], check=True)
    out = []
    shutil.copytree(d, tmp + "/demo", ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    c = sh(["bash", tmp + "/demo/demo.sh"], cwd=r)
    out.append("clean demo %d" % c.returncode)
    if c.returncode:
        print(c.stdout[-3000:])
    a = sh(["git", "-C", r, "apply", d + "/patch.diff"])
    out.append("apply %d" % a.returncode)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
               PROPTEST_RNG_SEED="1", PROPTEST_DISABLE_FAILURE_PERSISTENCE="1",
               CARGO_TARGET_DIR="/tmp/seedtarget")
    for feats in ("--all-features", "--no-default-features"):
        t = sh("cargo test --workspace --offline %s" % feats, cwd=r, env=env)
        out.append("tests%s %d" % (feats, t.returncode))
        if t.returncode:
            print("\n".join(x for x in t.stdout.splitlines() if x.startswith(("error", "test ")) and " ok" not in x)[:1500])
    for feats in ("", "--no-default-features", "--no-default-features --features serde",
                  "--no-default-features --features danger"):
        t = sh("cargo build --offline %s" % feats, cwd=r, env=env)
        if t.returncode:
            out.append("build %s %d" % (feats, t.returncode))
            print("\n".join(x for x in t.stdout.splitlines() if x.startswith(("error", "test ")) and " ok" not in x)[:1500])
    c = sh(["bash", tmp + "/demo/demo.sh"], cwd=r)
    out.append("patched demo %d: %s" % (c.returncode, c.stdout.strip().splitlines()[-1:] ))
    shutil.rmtree(tmp)
    ok = "OK " if out[0] == "clean demo 0" and "error" not in c.stdout[:300] and c.returncode not in (0, 3) and not any(
        o.startswith("build") or (o.startswith("tests") and not o.endswith(" 0")) for o in out) else "BAD"
    print(ok, sid, "; ".join(out), flush=True)


from seeds import SEEDS, SPEC, TOY  # noqa: E402

if __name__ == "__main__":
    args = sys.argv[1:]
    if args and args[0] == "verify":
        for s in args[1:] or sorted(SEEDS):
            verify(s)
    else:
        for s in args or sorted(SEEDS):
            write(s, SEEDS[s])
