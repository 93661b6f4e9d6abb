#!/usr/bin/env python3
"""Writes /verif/seeded/* from the definitions in tools/seeds/*.py (never read by a check).

mkseed.py [id...]: for each seed, edit a scratch copy of /repo, diff it, write demo and meta.
"""
import glob, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = {}
for f in sorted(glob.glob(V + "/tools/seeds/*.py")):
    g = {"SEEDS": SEEDS}
    exec(open(f).read(), g)

DEMO = """#!/bin/bash
# Exits 0 when the property holds on /repo, nonzero otherwise.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
%s
cd "$t" && timeout 100 ./demo
"""
REAL = """g++ -std=c++17 -O1 -w -iquote "$PWD" -I"$PWD" "$here/demo.cc" %s -o "$t/demo" $(pkg-config --libs absl_str_format absl_strings absl_optional absl_variant absl_flat_hash_map absl_flat_hash_set absl_span absl_memory) || exit 1"""
SHIM = """for f in "$here/demo.cc" %s; do echo "$f"; done | xargs -P 8 -I{} sh -c 'g++ -std=c++20 -O0 -w -I"$0/shim" -iquote "$2" -I"$2" -c "{}" -o "$1/$(basename {} .cc).o"' "$here" "$t" "$PWD" || exit 1
g++ "$t"/*.o -o "$t/demo" || exit 1"""

only = sys.argv[1:]
for sid, s in SEEDS.items():
    if only and sid not in only: continue
    d = f"{V}/seeded/{sid}"
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs(d)
    with tempfile.TemporaryDirectory() as t:
        subprocess.check_call(["git", "clone", "-q", "/repo", t + "/r"])
        for path, old, new in s["edits"]:
            p = f"{t}/r/{path}"
            x = open(p).read()
            assert x.count(old) == 1, (sid, path, x.count(old), old)
            open(p, "w").write(x.replace(old, new))
        diff = subprocess.check_output(["git", "-C", t + "/r", "diff"], text=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.cc", "w").write(s["demo"].lstrip("\n"))
        build = (SHIM if s.get("shim") else REAL) % " ".join(f'"$PWD/{x}"' for x in s["srcs"])
        if s.get("tool"): build = build.replace('g++ "$t"/*.o', f'objcopy --redefine-sym main=tool_main "$t/{s["tool"]}.o" || exit 1\ng++ "$t"/*.o')
        if s.get("extra"): build = build.replace(" -o ", f" {s['extra']} -o ", 1)
        open(d + "/demo.sh", "w").write(DEMO % build)
        os.chmod(d + "/demo.sh", 0o755)
        if s.get("shim"): shutil.copytree(V + "/shim", d + "/shim")
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r = [subprocess.run(["bash", d + "/demo.sh"], cwd=c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for c in ("/repo", t + "/r")]
        ok = r[0].returncode == 0 and r[1].returncode != 0
        print("ok " if ok else "BAD", sid, r[0].returncode, r[1].returncode, "" if ok else (r[0].stdout + r[1].stdout)[-1500:], flush=True)
