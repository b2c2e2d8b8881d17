"""new_bug.py ID PROP FEATURES -- reads /tmp/pl/ID.rs (demo), the diff of the private copy; writes /verif/seeded/ID.
Usage: edit /tmp/plant/repo, write /tmp/pl/ID.rs, then run this with NEEDS and BREAKS in the environment."""
import os, subprocess, sys, json, shutil
i, prop, feats = sys.argv[1:4]
d = os.environ.get("VERIF_DIR", "/verif") + "/seeded/" + i
os.makedirs(d, exist_ok=True)
W = os.environ.get("PLANT_DIR", "/tmp/plant") + "/repo"
diff = subprocess.run(["git", "-C", W, "diff"], capture_output=True, text=True).stdout
assert diff.strip()
open(d + "/patch.diff", "w").write(diff)
subprocess.run(["git", "-C", W, "checkout", "-q", "--", "."], check=True)
shutil.copy("/tmp/pl/%s.rs" % i, d + "/main.rs")
shutil.copy(os.environ.get("VERIF_DIR", "/verif") + "/harness/gen/Cargo.lock", d + "/Cargo.lock")
open(d + "/demo.sh", "w").write('''#!/bin/bash
# Run in /repo: builds the program beside this script against the crate there and runs it.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
S=$(mktemp -d)
trap 'find "$S" -delete' EXIT
mkdir -p "$S/src"
cp "$D/main.rs" "$S/src/main.rs"
cp "$D/Cargo.lock" "$S/Cargo.lock"
cat > "$S/Cargo.toml" <<T
[package]
name = "seq"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
fieldx = { path = "$R/fieldx", features = [%s] }
tokio = { version = "1", features = ["sync", "rt", "rt-multi-thread", "time", "macros"] }
async-trait = "0.1"
parking_lot = "0.12"
serde = { version = "1", features = ["derive"] }
serde_json = "1"
T
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
export CARGO_TARGET_DIR="$S/target" CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
cd "$S" && cargo build -q --offline || exit 3
timeout 120 "$S/target/debug/seq"
''' % ", ".join('"%s"' % f for f in feats.split(",") if f))
json.dump({"property": prop, "needs": os.environ["NEEDS"], "what_it_breaks": os.environ["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
print(diff)
