#!/usr/bin/env python3
"""plant.py DEF.py...: makes /verif/seeded/<id>/ from a definition, confirms it in a scratch copy of /repo,
and runs the property's check on the changed copy. A definition is Python that sets
ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (a Go main program), PKGFILES={path in the module: Go source}.
plant.py --recheck [ID...]: confirms and checks existing ones again."""
import json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
ENV = dict(os.environ, HOME="/root", LANG="C.UTF-8", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOENV="off", GOPATH="/root/go",
           GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", PATH="/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin")
DEMO_SH = r'''#!/bin/bash
# Builds main.go as a program of the module in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOENV=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
tmp=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
cp go.mod "$tmp/go.mod"
cp "$here/go.sum.txt" "$tmp/go.sum"
{
  echo '{"Replace":{'
  echo "\"$PWD/zzdemo/main.go\":\"$here/main.go.txt\"@EXTRA@"
  echo '}}'
} > "$tmp/overlay.json"
export GOFLAGS="-mod=mod -modfile=$tmp/go.mod"
go build -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zzdemo || exit 3
mkdir "$tmp/scratch"
timeout 240 "$tmp/demo" "$tmp/scratch"
'''


def run(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)


def scratch(id):
    d = "/tmp/sd/" + id
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/sd", exist_ok=True)
    subprocess.check_call(["git", "-c", "advice.detachedHead=false", "clone", "-q", "/repo", d])
    return d


def confirm(id):
    s = os.path.join(SEEDED, id)
    d = scratch(id)
    meta = json.load(open(s + "/meta.json"))
    demo_clean = run(["bash", s + "/demo.sh"], d)
    p = run(["git", "apply", s + "/patch.diff"], d)
    if p.returncode:
        return print(id, "PATCH DOES NOT APPLY", p.stdout)
    shutil.copy("/opt/vp/gofer.sum", "/tmp/sd/%s.sum" % id)
    shutil.copy(d + "/go.mod", "/tmp/sd/%s.mod" % id)
    e = dict(ENV, GOFLAGS="-mod=mod -modfile=/tmp/sd/%s.mod" % id)
    pk = [x for x in run(["go", "list", "-e", "./..."], d, e).stdout.split() if x.startswith("github.com/donnie4w/gofer") and not x.endswith("/image")]
    b = run(["go", "build"] + pk, d, e)
    t = run(["go", "test", "-json", "-vet=off", "-count=1", "-skip", "^Test_treeMap2$"] + pk, d, e)
    t2 = run(["go", "test", "-json", "-vet=off", "-count=1", "-cpu", "1", "-run", "^Test_treeMap2$", "./hashmap"], d, e)
    ok = set()
    for l in (t.stdout + t2.stdout).splitlines():
        try:
            j = json.loads(l)
        except ValueError:
            continue
        if j.get("Action") == "pass" and j.get("Test"):
            ok.add(j["Package"] + "/" + j["Test"])
    missing = [x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"] if x not in ok]
    t0 = time.time()
    demo = run(["bash", s + "/demo.sh"], d)
    good = b.returncode == 0 and not missing and demo_clean.returncode == 0 and demo.returncode not in (0, 3)
    print(id, "GOOD" if good else "BAD", "build", b.returncode, b.stdout[-300:] if b.returncode else "", "missing", missing, "demo clean", demo_clean.returncode, demo_clean.stdout[-200:] if demo_clean.returncode else "",
          "demo bug", demo.returncode, demo.stdout.strip()[-200:], "%.0fs" % (time.time() - t0), flush=True)
    if good and not os.environ.get("NOCHECK"):
        for pid in os.environ.get("PIDS", meta["property"]).split():
            t0 = time.time()
            c = run(["python3", "run.py", pid], HERE, dict(ENV, VERIF_REPO=d, VERIF_BUILD="/tmp/sd/b_" + id, VERIF_EVIDENCE="/tmp/sd/ev_" + id, VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
            out = [l for l in c.stdout.splitlines() if "VIOLATION" in l or "ERROR" in l]
            print("   ", pid, "rc", c.returncode, {0: "MISSED", 1: "caught"}.get(c.returncode, "NO ANSWER"), "%.0fs" % (time.time() - t0), " | ".join(out)[:300] if c.returncode < 2 else c.stdout[-800:], flush=True)
            shutil.rmtree("/tmp/sd/b_" + id, ignore_errors=True)
    shutil.rmtree(d, ignore_errors=True)


def make(path):
    g = {"PKGFILES": {}}
    exec(open(path).read(), g)
    id = g["ID"]
    s = os.path.join(SEEDED, id)
    shutil.rmtree(s, ignore_errors=True)
    os.makedirs(s)
    d = scratch(id)
    for f, old, new in g["EDITS"]:
        p = os.path.join(d, f)
        x = open(p).read()
        if x.count(old) != 1:
            raise SystemExit("%s: %d matches of %r in %s" % (id, x.count(old), old, f))
        open(p, "w").write(x.replace(old, new))
    fm = run(["gofmt", "-l"] + sorted({f for f, _, _ in g["EDITS"]}), d)
    if fm.stdout.strip():
        run(["gofmt", "-w"] + fm.stdout.split(), d)
    open(s + "/patch.diff", "w").write(run(["git", "diff"], d).stdout)
    open(s + "/main.go.txt", "w").write(g["DEMO"])
    shutil.copy("/opt/vp/gofer.sum", s + "/go.sum.txt")
    extra = ""
    for i, (f, src) in enumerate(g["PKGFILES"].items()):
        n = "extra%d.go.txt" % i
        open(s + "/" + n, "w").write(src)
        extra += ',\\"$PWD/%s\\":\\"$here/%s\\"' % (f, n)
    open(s + "/demo.sh", "w").write(DEMO_SH.replace("@EXTRA@", extra))
    json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(s + "/meta.json", "w"), indent=1)
    confirm(id)


if sys.argv[1] == "--recheck":
    for i in sys.argv[2:] or sorted(os.listdir(SEEDED)):
        confirm(i)
else:
    for f in sys.argv[1:]:
        make(f)
