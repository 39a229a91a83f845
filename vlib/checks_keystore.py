"""C23: KeyStore; C24: StoreAdmin."""
import random
from .core import *
from .checks_map import sc, B, K, V


def crashes(name, cfg, before, ops, after, points=range(1, 12), parts=("0", "400", "999")):
    """ops with a {p}: a crash at every file operation of a Write, also in the middle of one."""
    out = []
    for i, op in enumerate(ops):
        for k in points:
            for p in parts:
                n = "%s %d at %d+%s" % (name, i, k, p)
                x = sc(n, cfg, [op.replace("{p}", "%d %s" % (k, p)) + "; " + after], pre=before, maxpb=1)
                x.update(budget=0.002, maxpb=1)
                out.append(x)
    return out


def impl(ctx, name, procs, atomic=True, expect=None):
    algo(ctx, name, "KeystoreImpl", {"Procs": {k: {"h": h, "ops": o} for k, (h, o) in procs.items()}, "Atomic": atomic}, ["ReadsWhole", "Survives"], expect=expect)


def c23(ctx):
    impl(ctx, "one handle", {"a": ("x", ["1", "r", "2"]), "b": ("x", ["r", "3", "r"])})
    impl(ctx, "two handles", {"a": ("x", ["1", "r", "2"]), "b": ("y", ["r", "3", "r"]), "c": ("y", ["r", "4"])})
    impl(ctx, "in place, crash", {"a": ("x", ["1", "2"])}, atomic=False, expect="Survives")
    algo(ctx, "in place, two handles", "KeystoreImpl", {"Procs": {"a": {"h": "x", "ops": ["1", "2"]}, "b": {"h": "y", "ops": ["r"]}}, "Atomic": False}, ["ReadsWhole"], expect="ReadsWhole")
    ctx.ins_pkgs = "keystore,util"
    g = seq_model(ctx, "keystore", "KeystoreSpec", {"Contents": {"1:5", "2:3000", "0:0"}, "Handles": {"1", "2", "3", "4"}, "Points": {"1"}})
    seq = {"n": g["n"], "init": g["init"], "trans": {k: v for k, v in g["trans"].items() if '"cwrite"' not in k[1]}}
    replay(ctx, "Keystore", "d_keystore", seq, [{"kind": "store"}], walks=40, budget=B(4, 30))
    big = {"Contents": set(), "Handles": set(), "Points": set()}
    h = walk(ctx, "keystore", "d_keystore", {"cfgs": [{"kind": "store"}], "runs": B(12, 100), "len": B(150, 300)})
    validate(ctx, "KeystoreWalks", "KeystoreSpec", big, h)
    s, c = [], {"kind": "store"}
    for a, b in (("1:900", "3:20"), ("2:5000", "4:100"), ("0:0", "3:9"), ("3:10", "0:0"), ("1:70000", "5:40000")):
        s += [sc("two " + a, c, ["write 1 %s; read 1" % a, "read 1; write 1 %s; read 1" % b], pre="write 1 7:50", post="read 1; read 2", budget=3),
              sc("handles " + a, c, ["write 1 %s; read 1; read 2" % a, "read 2; write 2 %s; read 2" % b], post="read 1; read 2", budget=3),
              sc("reader " + a, c, ["write 1 %s; write 2 %s" % (a, b), "read 2; read 1; read 2", "read 1; read 2"], pre="write 2 7:50", post="read 1; read 2", budget=3)]
    for a, b in (("1:900", "3:20"), ("2:5000", "5:4000"), ("0:0", "1:70000")):
        s += [sc("stores %s %s" % (a, x), c, ["write 1 %s; read 1" % a, "write %s %s; read %s" % (x, b, x), "read 2"], pre="write 1 7:50; write %s 4:60" % x, post="read 1; read 2; read 3; read 4", budget=2) for x in "34"]
        s.append(sc("four " + a, c, ["write 1 %s; read 1" % a, "write 3 %s; read 3" % b, "write 4 9:40; read 4"], post="read 2; read 3; read 4", budget=2, maxpb=1))
    h = explore(ctx, "keystore", "d_keystore", s)
    validate(ctx, "KeystoreConc", "KeystoreSpec", big, h)
    s, after = [], "reopen; read 1; read 2; write 2 9:33; read 1; write 1 11:8; reopen; read 2"
    for before in ("", "write 1 1:900", "write 1 2:70000", "write 2 1:20; write 1 0:0", "write 1 3:40; read 2; write 2 5:1000"):
        s += crashes("crash after '%s'" % before, c, before, ["cwrite 1 7:2000 {p}", "cwrite 2 4:50 {p}", "cwrite 1 0:0 {p}", "cwrite 2 13:60000 {p}"], after)
        s += crashes("crash beside %s" % before, c, before + "; write 3 6:70; write 4 8:90", ["cwrite 1 7:2000 {p}", "cwrite 3 4:50 {p}"], after + "; read 3; read 4", parts=("500",))
    # several crashes in one history
    rng = random.Random(SEED)
    for i in range(B(60, 600)):
        ops = []
        for j in range(8):
            t = rng.randrange(20) + 1
            ops.append(rng.choice(["write %d %d:%d" % (rng.randrange(2) + 1, t, rng.choice((9, 500, 20000))),
                                   "cwrite %d %d:%d %d %d; reopen" % (rng.randrange(2) + 1, t, rng.choice((9, 500, 20000)), rng.randrange(1, 9), rng.choice((0, 1, 500, 999))),
                                   "read 1; read 2"]))
        x = sc("crashes %d" % i, c, ["; ".join(ops)], post="read 1; read 2; reopen; read 1")
        x.update(budget=0.002, maxpb=1)
        s.append(x)
    h = explore(ctx, "crash", "d_keystore", s)
    n = sum(1 for x in h for e in x["ev"] if e["e"] == "ret" and e["r"] == ["crashed"])
    ctx.part(crash_points_taken=n)
    if n == 0:
        raise InfraError("no crash happened")
    validate(ctx, "KeystoreCrash", "KeystoreSpec", big, h, what="after a crash during Write the store has neither content")


def c24(ctx):
    ctx.ins_pkgs = "keystore,util"
    cs = {"Names": {"1", "2"}, "Vals": {"1/0"}, "Points": {"1"}}
    seq_model(ctx, "storeadmin", "StoreAdminSpec", cs, emit=False)
    g = seq_model(ctx, "storeadmin1", "StoreAdminSpec", {"Names": {"1"}, "Vals": {"1/0", "1/5", "2/-128"}, "Points": set()})
    keys = ["plain", "bin", "uni", "empty", "long", "near"]
    replay(ctx, "StoreAdmin", "d_keystore", g, [{"kind": "admin", "keys": k} for k in keys], walks=20, budget=B(8, 60))
    big = {"Names": set(), "Vals": set(), "Points": set()}
    h = walk(ctx, "storeadmin", "d_keystore", {"cfgs": [{"kind": "admin", "keys": k, "second": z} for k in keys for z in "01"], "runs": B(3, 20), "len": B(120, 300)}, par=False)
    validate(ctx, "StoreAdminWalks", "StoreAdminSpec", big, h)
    s = []
    tables = ["admin", "client", "mq", "other"]
    for i, t in enumerate(tables):
        u = tables[(i + 1) % 4]
        c = {"kind": "admin", "keys": keys[i], "second": str(i % 2)}
        post = "get %s 1; get %s 2; get %s 1; get %s 2; list admin; list client; list mq; fresh; restart; fresh; stored" % (t, t, u, u)
        ls = "; list " + t if t != "other" else ""
        s += [sc("puts " + t, c, ["put %s 1 1/0; get %s 1" % (t, t), "put %s 1 2/1; get %s 1; put %s 2 3/5" % (t, t, t)], post=post),
              sc("tables " + t, c, ["put %s 1 1/0; get %s 1" % (t, u), "put %s 1 2/1; get %s 1" % (u, t), "fresh"], post=post, maxpb=1, maxhist=800),
              sc("del " + t, c, ["del %s 1; get %s 1%s" % (t, t, ls), "put %s 2 2/1; get %s 2%s" % (t, t, ls), "get %s 1%s" % (t, ls)], pre="put %s 1 5/5" % t, post=post, maxpb=1, maxhist=800),
              sc("load " + t, c, ["put %s 1 1/0; get %s 1" % (t, t), "load; get %s 1; put %s 2 2/1" % (t, t)], pre="put %s 3 5/5" % t, post=post),
              sc("fresh " + t, c, ["put %s 1 1/0; del %s 3" % (t, t), "fresh; fresh"], pre="put %s 3 5/5; put %s 3 4/127" % (t, u), post=post)]
    h = explore(ctx, "storeadmin", "d_keystore", s)
    validate(ctx, "StoreAdminConc", "StoreAdminSpec", big, h)
    s = []
    for i, t in enumerate(tables):
        c = {"kind": "admin", "keys": keys[i]}
        s += crashes("crash " + t, c, "put admin 1 5/5; put client 1 6/5; put mq 2 7/5; put other 2 8/5", ["cput %s 1 1/0 {p}" % t, "cdel %s 1 {p}" % t, "cput %s 2 2/0 {p}" % t],
                     "restart; fresh; list admin; get admin 1; get other 1; put client 2 3/1; fresh; restart; fresh", parts=("0", "500"))
    h = explore(ctx, "crash", "d_keystore", s)
    n = sum(1 for x in h for e in x["ev"] if e["e"] == "ret" and e["r"] == ["crashed"])
    ctx.part(crash_points_taken=n)
    if n == 0:
        raise InfraError("no crash happened")
    validate(ctx, "StoreAdminCrash", "StoreAdminSpec", big, h)


CHECKS = {"C23": c23, "C24": c24}
