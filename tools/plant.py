#!/usr/bin/env python3
"""plant.py SPEC: writes seeded/<id>/ from a spec file.

SPEC is a python file defining ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new[, nth])], MAIN (rust main.rs), DEPS (crate names),
"""
import json, os, shutil, subprocess, sys
V = "/verif"; R = "/repo"
def sh(*a, **k): return subprocess.run(a, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
BASE = "d6e2150"
for spec in sys.argv[1:]:
    g = {}
    exec(open(spec).read(), g)
    d = f"{V}/seeded/{g['ID']}"
    assert sh("git", "-C", R, "status", "--short").stdout == "", "repo not clean"
    for e in g["EDITS"]:
        p = f"{R}/{e[0]}"; s = open(p).read()
        n = s.count(e[1])
        if len(e) == 4:
            i = -1
            for _ in range(e[3] + 1): i = s.index(e[1], i + 1)
        else:
            assert n == 1, (e[0], e[1], n)
            i = s.index(e[1])
        # every removed line must be original
        l0 = s[:i].count("\n"); 
        old_lines = e[1].split("\n"); new_lines = e[2].split("\n")
        blame = sh("git", "-C", R, "blame", "-s", f"{BASE}..HEAD", "--", e[0]).stdout.split("\n")
        for k, ol in enumerate(old_lines):
            if ol.strip() and ol not in new_lines and not blame[l0 + k].startswith("^"):
                print("  NOT ORIGINAL:", e[0], l0 + k + 1, ol)
        open(p, "w").write(s[:i] + e[2] + s[i + len(e[1]):])
    diff = sh("git", "-C", R, "diff").stdout
    sh("git", "-C", R, "checkout", "--", ".")
    assert diff
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(diff)
    json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
    if "MAIN" in g:
        open(f"{d}/main.rs.txt", "w").write(g["MAIN"].lstrip("\n"))
        feats = {"facet-core": ', features = ["std"]'}
        deps = "\n".join(f'{c} = {{ path = "/repo/{c}"{feats.get(c, "")} }}' for c in g["DEPS"])
        open(f"{d}/Cargo.toml.txt", "w").write(f'[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2024"\n[workspace]\n[dependencies]\n{deps}\n')
        shutil.copy(f"{V}/harness/Cargo.lock", f"{d}/Cargo.lock.txt")
        open(f"{d}/demo.sh", "w").write("""#!/bin/bash
# exit 0 if the property holds for this demonstration, nonzero otherwise
here="$(cd "$(dirname "$0")" && pwd)"
w="$(mktemp -d)"; trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$here/main.rs.txt" "$w/src/main.rs"; cp "$here/Cargo.toml.txt" "$w/Cargo.toml"; cp "$here/Cargo.lock.txt" "$w/Cargo.lock"
cd "$w" || exit 2
CARGO_TARGET_DIR="$w/target" CARGO_NET_OFFLINE=true RUSTFLAGS="-Awarnings" cargo build -q --offline || exit 3
timeout 60 "$w/target/debug/demo"
""")
        os.chmod(f"{d}/demo.sh", 0o755)
    print("wrote", d)
