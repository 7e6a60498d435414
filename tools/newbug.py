#!/usr/bin/env python3
"""newbug.py SPEC.py: writes seeded/<id>/ from a spec that sets id, property,
needs, breaks, edits=[(file, old, new)], and main (+ optional h, cc) for a demo
crate. The patch is made against /repo's HEAD."""
import sys, os, json, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = {"h": "", "cc": "", "build": None, "gen": False, "demo": None, "files": {}}
exec(open(sys.argv[1]).read(), S)
d = f"{V}/seeded/{S['id']}"
shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
import tempfile
t = tempfile.mkdtemp()
diff = ""
for f in dict.fromkeys(e[0] for e in S["edits"]):
    src = subprocess.check_output(["git", "-C", "/repo", "show", "HEAD:" + f], text=True)
    new = src
    first = set(subprocess.check_output(["git", "-C", "/repo", "show", "ac35c5e:" + f], text=True).splitlines())
    for g, old, rep in S["edits"]:
        if g == f:
            for l in old.splitlines():
                if l not in first: print("warning: not an original line:", l)
    for g, old, rep in S["edits"]:
        if g == f:
            assert new.count(old) >= 1, (f, old)
            if new.count(old) > 1: print("warning: several matches", f, old[:60])
            new = new.replace(old, rep, 1)
    for n, x in (("a", src), ("b", new)):
        os.makedirs(os.path.dirname(f"{t}/{n}/{f}"), exist_ok=True); open(f"{t}/{n}/{f}", "w").write(x)
r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=t, capture_output=True, text=True).stdout
open(f"{d}/patch.diff", "w").write(r)
shutil.rmtree(t)
json.dump({"property": S["property"], "needs": S["needs"], "what_it_breaks": S["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
for n, x in S["files"].items():
    os.makedirs(os.path.dirname(f"{d}/{n}"), exist_ok=True); open(f"{d}/{n}", "w").write(x)
if S["demo"]:
    open(f"{d}/demo.sh", "w").write(S["demo"])
if "main" in S:
    c = f"{d}/crate"; os.makedirs(c + "/src", exist_ok=True)
    g = S["gen"]
    open(c + "/src/main.rs", "w").write(S["main"])
    if S["h"]: open(c + "/src/demo.h", "w").write(S["h"])
    if S["cc"]: open(c + "/src/demo.cc", "w").write(S["cc"])
    if not g: open(c + "/build.rs", "w").write(S["build"] or 'fn main() {\n    cxx_build::bridge("src/main.rs")%s.std("c++17").compile("demo");\n    println!("cargo:rerun-if-changed=src");\n}\n' % ('.file("src/demo.cc")' if S["cc"] else ""))
    open(c + "/Cargo.toml.in", "w").write('[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2021"\n\n[dependencies]\n' + ('cxx-gen = { path = "@REPO@/gen/lib" }\nproc-macro2 = { version = "1", features = ["span-locations"] }\n\n[workspace]\n' if g else 'cxx = { path = "@REPO@", features = ["c++17"] }\n\n[build-dependencies]\ncxx-build = { path = "@REPO@/gen/build" }\n\n[workspace]\n'))
    shutil.copy(V + ("/tools/demo-gen.lock" if g else "/tools/demo.lock"), c + "/Cargo.lock")
    if not S["demo"]: open(f"{d}/demo.sh", "w").write('''#!/bin/bash
# Run in the repository after the build: exit 0 when the property holds.
export RUSTUP_TOOLCHAIN=nightly-2025-04-08 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export PATH="$HOME/.cargo/bin:$PATH"
unset RUSTFLAGS CARGO_TARGET_DIR CXXFLAGS
R="$PWD"; H="$(cd "$(dirname "$0")" && pwd)"
D="$(mktemp -d)"; trap '/bin/rm -rf "$D"' EXIT
cp -r "$H/crate/." "$D" && sed "s#@REPO@#$R#" "$H/crate/Cargo.toml.in" > "$D/Cargo.toml" && cd "$D" || exit 2
cargo build --offline -q 2>&1 | tail -30
[ -x target/debug/demo ] || exit 1
timeout 60 ./target/debug/demo
''')
print(d)
