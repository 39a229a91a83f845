"""Scratch copies of /repo: .build/raw (unchanged sources) and .build/ins (instrumented)."""
import os, shutil, subprocess, hashlib, fcntl, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
INS_PKGS = "lock,hashmap,cache,pool/gopool,pool/buffer,buffer,fastio,mmap,uuid,keystore"


class InfraError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(HOME="/root", LANG="C.UTF-8", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOENV="off",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
             GOFLAGS="-mod=mod", GONOSUMDB="*", GOFLAGS_EXTRA="")
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin"
    return e


def sh(cmd, cwd=None, timeout=600, check=True, **kw):
    p = subprocess.run(cmd, cwd=cwd, env=kw.pop("env", None) or env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, text=True, errors="replace", **kw)
    if check and p.returncode != 0:
        raise InfraError("command failed (%d): %s\n%s" % (p.returncode, " ".join(map(str, cmd)), p.stdout[-4000:]))
    return p


def copy_tree(dst):
    """Copies the non-test sources of /repo to dst, with a go.mod that resolves offline."""
    if os.path.exists(dst):
        shutil.rmtree(dst)
    os.makedirs(dst)
    for d, ds, fs in os.walk(REPO):
        ds[:] = [x for x in ds if x != ".git" and not x.startswith(".")]
        rel = os.path.relpath(d, REPO)
        for f in fs:
            if f.endswith("_test.go"):
                continue
            if f.endswith(".go") or f in ("go.mod",) or f.endswith(".s"):
                os.makedirs(os.path.join(dst, rel), exist_ok=True)
                shutil.copy(os.path.join(d, f), os.path.join(dst, rel, f))
    shutil.copy("/opt/vp/gofer.sum", os.path.join(dst, "go.sum"))
    # github.com/donnie4w/ico is not in the module cache: a stand-in, for package image
    os.makedirs(os.path.join(dst, "zzico"))
    shutil.copy(os.path.join(VERIF, "ico", "ico.go.txt"), os.path.join(dst, "zzico", "ico.go"))
    open(os.path.join(dst, "zzico", "go.mod"), "w").write("module github.com/donnie4w/ico\n\ngo 1.23\n")
    open(os.path.join(dst, "go.mod"), "a").write("\nreplace github.com/donnie4w/ico => ./zzico\n")
    return dst


def put_zzv(dst):
    z = os.path.join(dst, "zzv")
    for d, ds, fs in os.walk(os.path.join(VERIF, "zzv")):
        rel = os.path.relpath(d, os.path.join(VERIF, "zzv"))
        for f in fs:
            os.makedirs(os.path.join(z, rel), exist_ok=True)
            shutil.copy(os.path.join(d, f), os.path.join(z, rel, f))


_lockf = None


def lock():
    global _lockf
    os.makedirs(BUILD, exist_ok=True)
    _lockf = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(_lockf, fcntl.LOCK_EX)


def build_instr():
    out = os.path.join(BUILD, "bin", "instr")
    e = env()
    e["GOFLAGS"] = ""
    os.makedirs(os.path.dirname(out), exist_ok=True)
    sh(["go", "build", "-o", out, "."], cwd=os.path.join(VERIF, "instr"), env=e)
    return out


def raw_tree():
    dst = os.path.join(BUILD, "raw")
    copy_tree(dst)
    z = os.path.join(dst, "zzv")
    put_zzv(dst)
    for x in os.listdir(z):
        if x.startswith("c_"):
            shutil.rmtree(os.path.join(z, x))
    return dst


def ins_tree(pkgs=INS_PKGS):
    """Instrumented tree. A change in /repo that instr can't follow is an infrastructure error."""
    raw = os.path.join(BUILD, "raw")
    dst = os.path.join(BUILD, "ins")
    copy_tree(dst)
    put_zzv(dst)
    for x in os.listdir(os.path.join(dst, "zzv")):
        if x.startswith("r_"):
            shutil.rmtree(os.path.join(dst, "zzv", x))
    instr = build_instr()
    sh([instr, "-src", raw, "-dst", dst, "-pkgs", pkgs], cwd=raw)
    return dst


def go_build(tree, pkg, name, race=False):
    out = os.path.join(BUILD, "bin", name)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    cmd = ["go", "build"] + (["-race"] if race else []) + ["-o", out, "./" + pkg]
    sh(cmd, cwd=tree)
    return out
