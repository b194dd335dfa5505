#!/usr/bin/env python3
"""mkseed.py BUGS.py [ID...]: confirms planted bugs in scratch copies of /repo and files them under /verif/seeded.
BUGS.py defines BUGS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, sh=..., go=...)]"""
import sys, os, subprocess, shutil, json, tempfile, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build GOTOOLCHAIN=local GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off GOPROXY=off
R=$PWD
fail() { echo "demo: $*"; exit 1; }
'''
GO = '''printf '{"Replace":{"%s/zz_demo/main.go":"%s/demo.go"}}' "$R" "$D" > "$T/o.json"
go build -overlay "$T/o.json" RACE -o "$T/demo" ./zz_demo || exit 3
cd "$T" && timeout 120 ./demo
'''
CLI = '''go build -o "$T/k" . || exit 3
cd "$T"
'''
env = dict(os.environ, HOME="/root", PATH="/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOWORK="off", GOPROXY="off")
def run(c, cwd, **k): return subprocess.run(c, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, shell=isinstance(c, str), **k)
def one(b):
    s = tempfile.mkdtemp(prefix="seed-", dir="/tmp"); r = s + "/repo"; d = s + "/demo"; os.mkdir(d)
    try:
        shutil.copytree("/repo", r, symlinks=True)
        body = HEAD
        if "cli" in b: body += CLI + b["cli"]
        elif "go" in b: body += GO.replace("RACE", "-race" if b.get("race") else ""); open(d + "/demo.go", "w").write(b["go"])
        else: body += b["sh"]
        for n, t in b.get("files", {}).items(): open(d + "/" + n, "w").write(t)
        open(d + "/demo.sh", "w").write(body); os.chmod(d + "/demo.sh", 0o755)
        p = run(["bash", d + "/demo.sh"], r, timeout=300)
        if p.returncode != 0: return f"demo fails on the unchanged tree ({p.returncode}): {p.stdout[-800:]}"
        for f, old, new in b["edits"]:
            t = open(r + "/" + f).read()
            if t.count(old) != 1: return f"{f}: {t.count(old)} occurrences of {old[:60]!r}"
            open(r + "/" + f, "w").write(t.replace(old, new))
        p = run("gofmt -l cmd kfparser schema utils wasm main.go", r)
        if p.stdout.strip(): print("   gofmt:", p.stdout.strip())
        p = run("go build ./... && GOOS=js GOARCH=wasm go build -o /dev/null ./wasm && go vet ./cmd ./kfparser ./schema ./utils", r)
        if p.returncode: return "does not build: " + p.stdout[-800:]
        p = run("go test -count=1 ./...", r, timeout=600)
        if p.returncode: return "existing tests fail: " + p.stdout[-800:]
        p = run(["bash", d + "/demo.sh"], r, timeout=300)
        if p.returncode == 0: return "demo passes with the bug: " + p.stdout[-400:]
        msg = p.stdout.strip()[-200:]
        diff = run("git diff", r).stdout
        o = f"{V}/seeded/{b['id']}"; shutil.rmtree(o, ignore_errors=True); shutil.copytree(d, o)
        open(o + "/patch.diff", "w").write(diff)
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(o + "/meta.json", "w"), indent=1)
        return "ok: " + msg.replace("\n", " | ")
    finally: shutil.rmtree(s, ignore_errors=True)
for b in runpy.run_path(sys.argv[1])["BUGS"]:
    if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]: continue
    try: print(b["id"], b["prop"], one(b), flush=True)
    except Exception as e: print(b["id"], "ERROR", repr(e), flush=True)
