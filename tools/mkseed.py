#!/usr/bin/env python3
"""mkseed.py SPEC.json|SPEC.py : builds /verif/seeded/<id>/ and confirms it in a scratch copy of /repo.
SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (body of main: Rust code that panics when the property is broken)."""
import sys, os, subprocess, json, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(sys.argv[1])))
spec = {}
exec(open(sys.argv[1]).read(), spec)
ID = spec["ID"]
SCR = "/tmp/seedrepo"
d = "/verif/seeded/" + ID
def sh(c, **kw): return subprocess.run(c, shell=True, capture_output=True, text=True, **kw)
if not os.path.exists(SCR): sh("cp -a /repo %s" % SCR)
sh("git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (SCR, SCR, SCR))
for f, a, b in spec["EDITS"]:
  p = os.path.join(SCR, f); s = open(p).read()
  n = s.count(a)
  if n != 1: sys.exit("edit of %s matches %d times: %r" % (f, n, a))
  open(p, "w").write(s.replace(a, b))
diff = sh("git -C %s diff" % SCR).stdout
os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "w").write(diff)
open(d + "/demo.rs", "w").write(spec["DEMO"])
open(d + "/demo.sh", "w").write('''#!/bin/bash
# builds and runs demo.rs against the library in the current directory; exit 0: property holds
set -e
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"; cp "$here/demo.rs" "$w/src/main.rs"; cp "$repo/Cargo.lock" "$w/Cargo.lock" 2>/dev/null || true
cat > "$w/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
japanese_law_xml_schema = { path = "$repo" }
EOF
cd "$w" && CARGO_TARGET_DIR="$w/target" cargo build --offline -q 2>"$w/log" || { cat "$w/log" >&2; exit 99; }
timeout 60 "$w/target/debug/demo"
''')
os.chmod(d + "/demo.sh", 0o755)
json.dump(dict(property=spec["PROPERTY"], needs=spec["NEEDS"], what_it_breaks=spec["BREAKS"]), open(d + "/meta.json", "w"), indent=1, ensure_ascii=False)
b = sh("cargo build --offline -q", cwd=SCR)
if b.returncode: sys.exit("does not build: " + b.stderr[-1500:])
t = sh("cargo test --offline 2>&1 | grep 'test result' | head -3", cwd=SCR)
print(t.stdout.strip()[:300])
r1 = sh("bash %s/demo.sh" % d, cwd=SCR)
r0 = sh("bash %s/demo.sh" % d, cwd="/repo")
print(ID, "with bug:", r1.returncode, "unchanged:", r0.returncode, (r0.stderr[-400:] if r0.returncode else ""), r1.stderr[-160:].replace("\n", " "))
sh("git -C %s checkout -q -- ." % SCR)
sys.exit(0 if r0.returncode == 0 and r1.returncode not in (0, 99) else 1)
