#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from a description: mkseed.py ID PROPERTY FILE OLD NEW DEMO.cc "SRCS" NEEDS BREAKS (development helper).
Usage from Python: seed(id, property, [(file, old, new)], demo_cc, srcs, needs, breaks)."""
import json, os, subprocess, sys, tempfile, shutil
V = "/verif"
MATH = "src/maliput/math/*.cc"
BASE = "src/maliput/common/maliput_abort_and_throw.cc"

def seed(id, prop, edits, demo, srcs, needs, breaks):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed_")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", w + "/r"], check=True)
        for f, a, b in edits:
            p = os.path.join(w, "r", f)
            s = open(p).read()
            assert s.count(a) == 1, (id, f, s.count(a))
            open(p, "w").write(s.replace(a, b))
        diff = subprocess.run(["git", "-C", w + "/r", "diff"], capture_output=True, text=True).stdout
    finally:
        shutil.rmtree(w)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.cc", "w").write(demo)
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# run in /repo; compiles demo.cc against the sources there
d="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -w -Iinclude -Isrc -I/usr/include/eigen3 "$d/demo.cc" %s %s -o "$t/demo" -Wl,--unresolved-symbols=ignore-all -lyaml-cpp -ldl -lpthread || exit 3
timeout 60 "$t/demo"
''' % (srcs, BASE))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
