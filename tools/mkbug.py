#!/usr/bin/env python3
"""mkbug.py: library to write seeded/<id>/ from edits. Used by tools/bugs_*.py."""
import os, subprocess, tempfile, shutil, json
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Run with cwd at the repository: exit 0 when the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:$PATH GOROOT=/opt/veriftools/go1.27.3
export GOTOOLCHAIN=local GOFLAGS=-mod=vendor GOPROXY=off GOCACHE=${GOCACHE:-/root/.cache/go-build}
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
echo "{\\"Replace\\": {\\"$PWD/zz_demo/main.go\\": \\"$here/main.go\\"}}" > "$tmp/overlay.json"
go build -buildvcs=false -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zz_demo || exit 3
mkdir "$tmp/scratch" && cd "$tmp/scratch" && timeout 120 "$tmp/demo"
'''
def bug(id, prop, edits, needs, breaks, main, demo=None):
    d = tempfile.mkdtemp()
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", d + "/r"])
        for f, a, b in edits:
            p = os.path.join(d, "r", f)
            s = open(p).read()
            assert s.count(a) == 1, (id, f, s.count(a), a)
            open(p, "w").write(s.replace(a, b))
        diff = subprocess.check_output(["git", "-C", d + "/r", "diff"], text=True)
        o = os.path.join(HERE, "seeded", id)
        os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(diff)
        open(o + "/demo.sh", "w").write(demo or DEMO)
        os.chmod(o + "/demo.sh", 0o755)
        open(o + "/main.go", "w").write(main)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(o + "/meta.json", "w"), indent=1)
    finally:
        shutil.rmtree(d)
