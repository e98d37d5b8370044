#!/usr/bin/env python3
"""Plants the bugs described in a definitions file into scratch copies of /repo.

usage: plant.py DEFS.py [id ...]      (writes /verif/seeded/<id>/ and confirms each)

A definitions file sets BUGS = [dict(id, prop, edits=[(file, old, new), ...],
pkg, test (Go test source), race (bool), needs, breaks)].
Confirmed means: the patch applies, builds, passes the repository's tests, and
demo.sh exits 0 without and nonzero with it. The property's quick check is run
on the patched copy as well and its verdict printed.
"""
import json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
ENV = dict(os.environ, PATH="/opt/veriftools/go1.23.12/bin:" + os.environ["PATH"], GOTOOLCHAIN="local",
           GOPROXY="off", GOFLAGS="-mod=mod -buildvcs=false", GOWORK="off")

DEMO = '''#!/bin/bash
# run with cwd = the repository; exit 0 when it behaves, nonzero when it does not
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
ov=$(mktemp) || exit 2
trap 'rm -f "$ov"' EXIT
printf '{"Replace": {"%%s": "%%s"}}' "$repo/%(pkg)s/zz_demo_test.go" "$here/demo_test.go" > "$ov"
go test -vet=off -overlay "$ov" -count=1 -timeout 240s -run '^TestDemo$' %(race)s./%(pkg)s
'''

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=kw.pop("env", ENV), capture_output=True, text=True, **kw)

def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        tmp = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
        try:
            plant(b, tmp)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

def plant(b, tmp):
    repo = tmp + "/repo"
    subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
    d = tmp + "/bug"
    os.mkdir(d)
    open(d + "/demo_test.go", "w").write(b["test"].lstrip("\n"))
    open(d + "/demo.sh", "w").write(DEMO % dict(pkg=b["pkg"], race="-race " if b.get("race") else ""))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    r = sh(["bash", d + "/demo.sh"], repo)
    if r.returncode:
        return print(b["id"], "DEMO FAILS ON CLEAN\n", r.stdout[-3000:], r.stderr[-2000:])
    for f, old, new in b["edits"]:
        p = repo + "/" + f
        s = open(p).read()
        if s.count(old) != 1:
            return print(b["id"], "EDIT MATCHES", s.count(old), f, repr(old[:60]))
        open(p, "w").write(s.replace(old, new))
    diff = sh(["git", "diff"], repo).stdout
    open(d + "/patch.diff", "w").write(diff)
    r = sh(["go", "build", "./..."], repo)
    if r.returncode:
        return print(b["id"], "NO BUILD\n", r.stderr)
    r = sh(["go", "test", "-vet=off", "-count=1", "-timeout", "5m", "./..."], repo)
    if r.returncode:
        return print(b["id"], "TESTS FAIL\n", r.stdout[-2500:])
    n = 0
    for _ in range(3):
        try:
            r = sh(["bash", d + "/demo.sh"], repo, timeout=300)
            n += r.returncode != 0
        except subprocess.TimeoutExpired:
            print("demo timeout")
    if n < 3:
        return print(b["id"], "DEMO FAILED ONLY", n, "OF 3")
    dst = VERIF + "/seeded/" + b["id"]
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(d, dst)
    r = sh([sys.executable, VERIF + "/check.py", b["prop"]], VERIF, env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick"))
    lines = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print(b["id"], b["prop"], "CAUGHT" if r.returncode == 1 and lines else "MISSED", "rc", r.returncode, (lines or [r.stdout[-300:]])[0], flush=True)

main()
