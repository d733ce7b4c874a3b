#!/usr/bin/env python3
"""Development aid: mkbug.py id property file <<< 'old\n====\nnew\n====\nneeds\n====\nwhat\n====\nmain.rs or #!sh demo'"""
import json, os, subprocess, sys
bid, prop, path = sys.argv[1:4]
old, new, needs, what, demo = sys.stdin.read().split("\n====\n")
full = os.path.join("/repo", path)
s = open(full).read()
assert s.count(old) == 1, "old text occurs %d times" % s.count(old)
open(full, "w").write(s.replace(old, new))
d = "/verif/seeded/" + bid
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, check=True).stdout
subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
open(d + "/patch.diff", "wb").write(diff)
json.dump(dict(property=prop, needs=needs.strip(), what_it_breaks=what.strip()), open(d + "/meta.json", "w"), indent=1)
if demo.startswith("#!"):
    open(d + "/demo.sh", "w").write(demo)
else:
    open(d + "/main.rs", "w").write(demo)
    open(d + "/demo.sh", "w").write("""#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CFLAGS="-DDEMO_HASH=h$(find extern -type f -name '*.[ch]' -print0 | LC_ALL=C sort -z | xargs -0r sha256sum | sha256sum | cut -c1-16)"
rm -rf /tmp/demo-%(id)s
mkdir -p /tmp/demo-%(id)s/src
cp "$here/main.rs" /tmp/demo-%(id)s/src/main.rs
cp Cargo.lock /tmp/demo-%(id)s/Cargo.lock
cat > /tmp/demo-%(id)s/Cargo.toml <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
scalable_mpc = { path = "$repo" }
ndarray = "0.15"
rand = "0.8"
tokio = { version = "1", features = ["full"] }
bincode = "1"
T
cd /tmp/demo-%(id)s && timeout 250 cargo run --release --offline --config profile.release.opt-level=1
rc=$?
rm -rf /tmp/demo-%(id)s
exit $rc
""" % dict(id=bid))
