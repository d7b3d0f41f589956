#!/usr/bin/env python3
"""mkseed.py <dir with seed.py>: builds /verif/seeded/<id>/ from a compact description.
usage: mkseed.py NAME  reads tools/seeds/NAME.py defining
  PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEPS (Cargo dependency lines), MAIN (rust source)
The demo crate carries its own copies of the stand-in crates it needs."""
import sys, os, subprocess, json, shutil, tempfile, runpy
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
name = sys.argv[1]
sys.path.insert(0, f"{HERE}/tools/seeds")
d = runpy.run_path(f"{HERE}/tools/seeds/{name}.py")
out = f"{HERE}/seeded/{name}"
shutil.rmtree(out, ignore_errors=True)
os.makedirs(out)
tmp = tempfile.mkdtemp(prefix="mkseed-")
subprocess.check_call(["git", "clone", "-q", "/repo", tmp + "/r"])
for f, old, new in d["EDITS"]:
    p = f"{tmp}/r/{f}"
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    # only lines of the original repository are changed
    base = subprocess.check_output(["git", "-C", tmp + "/r", "rev-list", "--max-parents=0", "HEAD"], text=True).split()[0]
    s0 = s.split(old)[0].count("\n") + 1
    b = subprocess.check_output(["git", "-C", tmp + "/r", "blame", "-l", "--root", "-s", f"-L{s0},+{old.rstrip(chr(10)).count(chr(10)) + 1}", "HEAD", "--", f], text=True)
    gone = set(old.split("\n")) - set(new.split("\n"))
    for line in b.splitlines():
        if any(g.strip() and g.strip() in line for g in gone):
            assert line.startswith(base), ("not an original line", line)
    open(p, "w").write(s.replace(old, new))
open(f"{out}/patch.diff", "w").write(subprocess.check_output(["git", "-C", tmp + "/r", "diff"], text=True))
shutil.rmtree(tmp)
json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(f"{out}/meta.json", "w"), indent=1)
os.makedirs(f"{out}/demo/src")
ign = shutil.ignore_patterns("target", "Cargo.lock", "tests")
for c in d.get("CRATES", []):
    shutil.copytree(f"{HERE}/{c}", f"{out}/demo/{c}", ignore=ign)
open(f"{out}/demo/Cargo.toml", "w").write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\n' + d["DEPS"] + '\n[profile.dev]\nopt-level = 1\ndebug = false\n')
open(f"{out}/demo/src/main.rs", "w").write(d["MAIN"])
for fn, text in d.get("FILES", {}).items():
    open(f"{out}/demo/{fn}", "w").write(text)
open(f"{out}/demo.sh", "w").write('''#!/bin/bash
# Exit 0 when the behaviour is right, nonzero when it is broken.
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
cp -r "$here/demo" "$scratch/demo"
cd "$scratch/demo" || exit 3
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$scratch/target" RUSTFLAGS=-Awarnings
cargo build --offline -q 2>"$scratch/log" || { tail -20 "$scratch/log"; exit 4; }
"$scratch/target/debug/demo"
''')
os.chmod(f"{out}/demo.sh", 0o755)
# the lock file
env = dict(os.environ, RUSTUP_TOOLCHAIN="nightly", CARGO_NET_OFFLINE="true")
src_lock = d.get("LOCK", "h-common")
shutil.copy(f"{HERE}/{src_lock}/Cargo.lock", f"{out}/demo/Cargo.lock")
subprocess.check_call(["cargo", "generate-lockfile", "--offline", "--manifest-path", f"{out}/demo/Cargo.toml"], env=env) if False else subprocess.check_call(["cargo", "metadata", "--offline", "--format-version", "1", "--manifest-path", f"{out}/demo/Cargo.toml"], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
print("seeded", name)
