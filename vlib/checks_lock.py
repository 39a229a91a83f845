"""C04-C09: package lock."""
from .core import *
from .checks_map import sc, B

LOCKPKGS = "lock,hashmap,cache,buffer,pool/buffer"


def aw(name, kind, threads, pre="", post="", punctual=1, mux=2, ids="pos", ctor="", **kw):
    cfg = {"kind": kind, "mux": str(mux), "punctual": str(punctual), "ids": ids, "maxsteps": "60000",
           "retry": "1000" if kind == "await" else "3000", "margin": "50" if kind == "await" else "200"}
    if ctor:
        cfg["ctor"] = ctor
    s = sc("%s %s %s" % (name, kind, "p" if punctual else "r"), cfg, threads, pre=pre, post=post, **kw)
    s["kind"] = "await"
    return s


def us(x):
    """A duration of a scenario (milliseconds, or microseconds: 450u) in microseconds."""
    return str(min(int(x[:-1]) if x.endswith("u") else int(x) * 1000, 10 ** 9))


def in_us(h):
    for x in h:
        if "timeout" in x["cfg"]:
            x["cfg"] = dict(x["cfg"], timeout=us(x["cfg"]["timeout"]))
        x["ev"] = [dict(e, c=min(e["c"], 11 * 10 ** 11)) for e in x["ev"]]
        x["ev"] = [dict(e, o=e["o"][:2] + [us(e["o"][2])] + ["c" + c[1:] if c[0] == "k" else c for c in e["o"][3:]])
                   if e["o"] and e["o"][0] in ("wait", "waitc", "swait", "deadline") else e for e in x["ev"]]
    return h


def awalgo(ctx, name, threads, fast=False, stripes=1, retry=1, locked=True, cleans=True, marks=True, expect=None):
    """Threads: name -> calls like w1 (a wait with a time limit), W1 (without), p1x (a put of x), c1 (a close)."""
    ops = {"w": ("wait", True), "W": ("wait", False), "p": ("put", False), "c": ("close", False)}
    th = {t: [{"op": ops[x[0]][0], "id": int(x[1]), "v": x[2:] or "-", "timed": ops[x[0]][1]} for x in l.split()] for t, l in threads.items()}
    algo(ctx, ("FastAwait " if fast else "Await ") + name, "AwaitImpl",
         {"Threads": th, "Fast": fast, "Stripes": stripes, "Retry": retry, "Locked": locked, "Cleans": cleans, "Marks": marks},
         ["OwnValue", "Once", "NoZero", "Reachable", "NothingLeft", "Kept", "Honest", "Prompt"], deadlock=True, expect=expect)


def awcheck(ctx, scens):
    ctx.ins_pkgs = LOCKPKGS
    h = explore(ctx, "await", "c_await", scens)
    validate(ctx, "Await", None, {}, in_us(h), module="AwaitTrace")


def c04(ctx):
    awalgo(ctx, "put and wait", {"a": "W1", "b": "p1x"}, retry=2)
    awalgo(ctx, "an id used again", {"a": "w1 W1", "b": "p1x", "c": "p1y"})
    awalgo(ctx, "two ids, one stripe", {"a": "w1 w2", "b": "w2", "c": "p1x p2y"})
    awalgo(ctx, "put and close", {"a": "w1 w1", "b": "p1x", "c": "c1"})
    awalgo(ctx, "signals without the mutex", {"a": "w1 W1", "b": "p1x", "c": "p1y"}, locked=False, expect="Reachable")
    if not B(1, 0):
        awalgo(ctx, "two ids, two stripes", {"a": "w1 W2", "b": "w2 w1", "c": "p1x p2y", "d": "p1z"}, stripes=2)
        awalgo(ctx, "three waits", {"a": "w1 w1 W1", "b": "p1x p1y", "c": "p1z c1"}, retry=2)
    k = "await"
    s = []
    for d in (0, 1, 500, 900):
        s += [aw("early%d" % d, k, ["put 1 a", "sleep %d; wait 1 500; has 1" % d]),
              aw("late%d" % d, k, ["wait 1 %d; has 1" % (d + 100), "sleep %d; put 1 a" % d]),
              aw("cearly%d" % d, k, ["close 1", "sleep %d; wait 1 0; has 1" % d]),
              aw("clate%d" % d, k, ["waitc 1 %d bg; has 1" % (d + 100), "sleep %d; close 1" % d])]
    post = "has 1; has 2; has 3"
    for mux in (1, 2, 64):
        for ids in ("pos", "neg", "big", "hi32", "edge"):
            s += [aw("two%d%s" % (mux, ids), k, ["wait 1 500; wait 1 500", "wait 2 500", "put 2 x; put 1 a", "put 1 b"], post=post, mux=mux, ids=ids)]
        s += [aw("reuse%d" % mux, k, ["wait 1 10; wait 1 500; wait 1 10", "sleep 20; put 1 a", "wait 2 600"], post=post, mux=mux),
              aw("reuse2%d" % mux, k, ["wait 1 0; wait 1 0; wait 1 0", "put 1 a; put 1 b; close 1"], post=post, mux=mux),
              aw("burst%d" % mux, k, ["wait 1 300; wait 1 300; wait 1 300; wait 1 300", "put 1 a", "put 1 b", "close 1"], post=post, mux=mux),
              aw("cross%d" % mux, k, ["wait 1 0; put 2 x", "wait 2 0; put 3 y", "wait 3 0", "put 1 a"], post=post, mux=mux)]
    s += [aw("swait", k, ["swait 1 500; swait 2 0", "swait 3 100", "wgwait; has 1", "put 1 a; put 2 b", "put 3 c"], post=post),
          aw("swaitg", k, ["swait 1 500", "swait 2 0; swait 3 400", "wgwait; has 1; has 3; put 1 a; has 2", "put 2 b; sleep 100; has 3; put 3 c"], post=post),
          aw("swaitn", k, ["swait 1 500 n; swait 2 0 n", "put 2 a; put 1 b", "put 1 a"], post=post),
          aw("waitc", k, ["waitc 1 500 c1; waitc 1 0 c2", "put 1 a; sleep 10; put 1 b", "sleep 300; cancel c1"], post=post)]
    for p in (0, 1):
        s += [aw("race", k, ["wait 1 1; wait 1 1; wait 1 1", "put 1 a", "put 1 b", "wait 2 1"], post=post, punctual=p, maxpb=1),
              aw("race2", k, ["wait 1 2; waitc 1 2 c1", "put 1 a; close 1", "sleep 1; put 1 b; cancel c1"], post=post, punctual=p, maxpb=1),
              aw("raceinf", k, ["wait 1 0; wait 1 0", "put 1 a", "put 1 b"], post=post, punctual=p, mux=1)]
    awcheck(ctx, s)



def c05(ctx):
    awalgo(ctx, "two puts", {"a": "w1", "b": "p1x", "c": "p1y"}, fast=True)
    awalgo(ctx, "two ids", {"a": "w1 w2", "b": "p1x p2y", "c": "c1"}, fast=True)
    awalgo(ctx, "completed ids forgotten", {"a": "w1", "b": "p1x"}, fast=True, marks=False, expect="Prompt")
    if not B(1, 0):
        awalgo(ctx, "two ids, four threads", {"a": "w1 w2", "b": "p1x p2y", "c": "c1", "d": "p2z"}, fast=True, retry=2)
    k = "fast"
    s = []
    for d in (0, 1, 500, 2700):
        s += [aw("early%d" % d, k, ["put 1 a", "sleep %d; wait 1 1500; put 1 b" % d]),
              aw("late%d" % d, k, ["wait 1 %d; put 1 b; close 1" % (d + 300), "sleep %d; put 1 a" % d]),
              aw("cearly%d" % d, k, ["close 1", "sleep %d; wait 1 0; close 1" % d]),
              aw("clate%d" % d, k, ["waitc 1 %d bg; close 1" % (d + 300), "sleep %d; close 1" % d])]
    for ids in ("pos", "neg", "big", "zero", "hi32", "hi8", "edge"):
        s += [aw("two" + ids, k, ["wait 1 500; wait 3 500", "wait 2 500", "put 2 x; put 1 a", "put 3 b"], ids=ids),
              aw("after" + ids, k, ["wait 1 0; sleep 300; put 3 z", "put 1 a; sleep 100; put 2 b", "sleep 300; wait 2 900", "sleep 700; wait 3 900"], ids=ids),
              aw("many" + ids, k, ["wait 1 500; wait 2 0; wait 3 0; wait 4 400", "put 3 x; put 4 y", "put 1 a; close 2"], ids=ids)]
    s += [aw("burst", k, ["wait 1 500; wait 2 0", "put 1 a; put 2 x", "put 1 b; put 2 y", "close 1; close 2"]),
          aw("burst0", k, ["wait 1 0; put 1 z", "put 1 a", "put 1 b", "put 1 c"]),
          aw("closes", k, ["wait 1 0; put 1 z", "close 1", "close 1", "close 1"]),
          aw("cross", k, ["wait 1 0; put 2 x", "wait 2 0; put 3 y", "wait 3 0; put 1 z", "put 1 a"]),
          aw("waitc", k, ["waitc 1 500 c1; waitc 2 0 c2", "put 1 a; sleep 10; put 2 b", "sleep 300; cancel c1"]),
          aw("done", k, ["put 1 a; put 2 b; put 3 c; close 1; close 2", "put 2 d", "close 3"], pre="wait 1 10; wait 2 10; waitc 3 10 c1"),
          aw("nobody", k, ["put 1 a; wait 2 10; put 2 x", "close 3"])]
    # the constructor with the default size
    s += [aw("default" + i, k, t, ctor="1", ids=i, maxpb=1, budget=3) for i in ("pos", "edge", "big")
          for t in (["wait 1 500; wait 3 500", "wait 2 500", "put 2 x; put 1 a", "put 3 b"],)]
    s += [aw("defaultdone", k, ["put 1 a; put 2 b; put 3 c; close 1; close 2", "put 2 d", "close 3"], pre="wait 1 10; wait 2 10; waitc 3 10 c1", ctor="1", maxpb=1, budget=3)]
    for p in (0, 1):
        s += [aw("race", k, ["wait 1 1; wait 2 1", "put 1 a; close 2", "put 1 b", "wait 3 1"], punctual=p, maxpb=1, maxhist=700),
              aw("race2", k, ["wait 1 2; waitc 2 2 c1; put 1 z", "put 1 a; close 2", "sleep 1; put 1 b; cancel c1"], punctual=p, maxpb=1, maxhist=700),
              aw("raceinf", k, ["wait 1 0; wait 2 0", "put 1 a; put 2 x", "put 1 b; put 2 y"], punctual=p, maxhist=700)]
    awcheck(ctx, s)


def c06(ctx):
    for fast in (False, True):
        awalgo(ctx, "time limits", {"a": "w1", "b": "w2", "c": "p1x p2y", "d": "c1"}, fast=fast)
        awalgo(ctx, "registration left behind", {"a": "w1", "b": "p1x"}, fast=fast, cleans=False, expect="NothingLeft")
    s = []
    for k in ("await", "fast"):
        for p in (1, 0):
            def add(name, threads, post="", **kw):
                if k == "fast":      # each id is waited on once; there is no Has
                    n = {}
                    def tr(t):
                        out = []
                        for op in t.split(";"):
                            f = op.split()
                            if f[0] == "has":
                                continue
                            out.append(" ".join(f))
                        return "; ".join(out)
                    threads, post = [tr(t) for t in threads], ""
                s.append(aw(name, k, threads, post=post, punctual=p, maxhist=500 if p == 0 else 800, **kw))
            post = "has 1; has 2; has 3"
            for T in (1, 5, 40):
                add("timeout%d" % T, ["wait 1 %d; has 1; waitc 2 %d c1; has 2; waitc 3 %d bg" % (T, T, T), "wait 4 %d; has 4" % T], post)
                add("atthesametime%d" % T, ["wait 1 %d; has 1" % T, "sleep %d; put 1 a" % T], post)
                add("atthesametime2%d" % T, ["waitc 1 %d c1; has 1" % T, "sleep %d; close 1" % T, "sleep %d; cancel c1" % T], post)
                add("after%d" % T, ["wait 1 %d; has 1" % T, "sleep %d; put 1 a" % (T + 1), "sleep %d; close 1" % (T + 2)], post, maxpb=1)
            for T in ("450u", "1u", "1499u", "1500u", "999999u"):
                add("fine" + T, ["wait 1 %s; has 1; waitc 2 %s c1; has 2; wait 3 %s" % (T, T, T), "sleep %s; put 1 a" % T, "wait 4 %s; has 4" % T], post, maxpb=1)
            if p == 1:   # (durations beyond the clock of the trace specification are clamped: nothing may time out)
              add("long", ["wait 1 90000000000; has 1", "waitc 2 90000000000 c1; has 2", "sleep 3; put 1 a; put 2 b"], post, maxpb=1)
            for T in (0, -1, 30):
                add("cancel%d" % T, ["waitc 1 %d c1; has 1; waitc 2 %d c2; has 2" % (T, T), "cancel c1; sleep 5; cancel c2"], post)
                add("cancelbefore%d" % T, ["cancel c1; waitc 1 %d c1; has 1" % T, "waitc 2 %d c1; has 2" % T], post)
                add("cancelput%d" % T, ["waitc 1 %d c1; has 1; waitc 2 %d c1; has 2" % (T, T), "sleep 2; cancel c1", "sleep 2; put 1 a", "sleep 2; put 1 b"], post, maxpb=1)
                add("deadline%d" % T, ["deadline d1 7; waitc 1 %d d1; has 1" % T, "deadline d2 9; waitc 2 %d d2; has 2" % T, "sleep 8; put 1 a; put 2 b"], post, maxpb=1)
                add("child%d" % T, ["waitc 1 %d k1; has 1" % T, "sleep 2; cancel c1; waitc 2 %d k1; has 2" % T, "sleep 2; put 1 a"], post, maxpb=1)
                add("cancelafter%d" % T, ["waitc 1 %d c1; has 1; put 1 z" % T, "put 1 a; cancel c1"], post)
            add("forever", ["wait 1 0", "waitc 2 0 c1", "put 3 a; cancel c2"], "")
            add("two", ["wait 1 3; has 1", "sleep 3; put 1 a", "sleep 3; put 1 b", "sleep 3; close 1"], post, maxpb=1)
            if k == "await":
                add("swaitfine", ["swait 1 2600u; has 1; swait 2 700u n; has 2", "wgwait; sleep 2; put 1 a"], post)
                add("swait", ["swait 1 5; has 1; swait 2 5 n; has 2", "wgwait; sleep 5; put 1 a"], post)
                add("reuse", ["wait 1 2; wait 1 2; has 1; wait 1 0", "sleep 2; put 1 a; sleep 2; put 1 b; put 1 c"], post, mux=1, maxpb=1)
    awcheck(ctx, s)


# ---------------------------------------------------------------- locks

NUMKEYS = ["small", "neg", "mod", "edge", "same"]


def c07(ctx):
    ctx.ins_pkgs = LOCKPKGS
    g = seq_model(ctx, "numlock", "NumlockSpec", {"Keys": {"1", "2", "3"}, "Now": True})
    cfgs = [{"kind": "num", "mux": m, "keys": k} for m in ("1", "2", "3", "7", "64", "1000") for k in NUMKEYS]
    replay(ctx, "Numlock", "d_lock", g, cfgs, walks=20, walklen=40, budget=B(4, 30))
    s = []
    for m, k in (("1", "small"), ("2", "neg"), ("3", "mod"), ("7", "edge"), ("64", "same"), ("2", "edge"), ("1", "neg"), ("5", "small")):
        c = {"kind": "num", "mux": m, "keys": k}
        t = m + k
        post = "trylock 1; u? 1; trylock 2; u? 2; trylock 3; u? 3"
        s += [sc("excl" + t, c, ["lock 1; unlock 1; trylock 2; u? 2", "lock 1; munlock 1", "lock 1; unlock 1"]),
              sc("keys" + t, c, ["lock 1; unlock 1; lock 2; munlock 2", "lock 2; unlock 2", "lock 3; munlock 3; lock 1; unlock 1"], post=post),
              sc("kept" + t, c, ["lock 1; trylock 1", "trylock 1", "lock 1"]),
              sc("try" + t, c, ["trylock 1; trylock 2; u? 2; trylock 3", "trylock 1; trylock 3; u? 3"]),
              sc("tryun" + t, c, ["lock 1; unlock 1", "trylock 1; u? 1; trylock 2; u? 2", "trylock 1; u? 1"], post=post),
              sc("wait" + t, c, ["unlock 1; lock 1; unlock 1", "lock 1; munlock 1; lock 2; unlock 2", "lock 1; unlock 1"], pre="lock 1", post=post),
              sc("cross" + t, c, ["lock 1; munlock 1", "unlock 2", "lock 2; unlock 2"], pre="trylock 2", post=post)]
    h = explore(ctx, "num", "d_lock", s)
    validate(ctx, "Numlock", "NumlockSpec", {"Keys": {"1", "2", "3"}, "Now": False}, h)


def c08(ctx):
    ctx.ins_pkgs = LOCKPKGS
    g = seq_model(ctx, "strlock", "StrlockSpec", {"Keys": {"1", "2", "3"}, "Readers": 2, "Now": True})
    cfgs = [{"kind": "str", "mux": m, "keys": k} for m in ("1", "2", "3", "7", "64", "1000") for k in ("plain", "empty", "long", "bin")]
    replay(ctx, "Strlock", "d_lock", g, cfgs, walks=20, walklen=60, budget=B(6, 40))
    s = []
    for m, k in (("1", "plain"), ("2", "empty"), ("3", "long"), ("64", "bin"), ("2", "plain"), ("7", "empty")):
        c = {"kind": "str", "mux": m, "keys": k}
        t = m + k
        post = "trylock 1; u? 1; trylock 2; u? 2; tryrlock 3; ru? 3"
        s += [sc("excl" + t, c, ["lock 1; unlock 1; trylock 2; u? 2", "lock 1; munlock 1", "rlock 1; runlock 1"]),
              sc("readers" + t, c, ["rlock 1", "rlock 1; tryrlock 1", "tryrlock 1; trylock 1"]),
              sc("rw" + t, c, ["rlock 1; mrunlock 1; lock 1; unlock 1", "lock 1; munlock 1; rlock 2; runlock 2", "rlock 1; runlock 1"], post=post),
              sc("kept" + t, c, ["lock 1; tryrlock 1", "rlock 1", "trylock 1"], ),
              sc("rkept" + t, c, ["trylock 1; tryrlock 1", "lock 1", "tryrlock 1"], pre="rlock 1"),
              sc("try" + t, c, ["trylock 1; tryrlock 2; trylock 3", "tryrlock 1; trylock 3", "tryrlock 2"]),
              sc("tryun" + t, c, ["lock 1; unlock 1", "tryrlock 1; ru? 1", "trylock 1; u? 1; tryrlock 1; ru? 1"], post=post),
              sc("tryrr" + t, c, ["unlock 1", "tryrlock 1; rlock 2; runlock 2; ru? 1", "tryrlock 1; ru? 1"], pre="lock 1", post=post),
              sc("wait" + t, c, ["runlock 1; lock 1; unlock 1", "lock 1; munlock 1; lock 2; unlock 2", "rlock 1; mrunlock 1"], pre="rlock 1", post=post),
              sc("upg" + t, c, ["unlock 1", "lock 1; munlock 1", "rlock 1; runlock 1"], pre="lock 1", post=post)]
    h = explore(ctx, "str", "d_lock", s)
    validate(ctx, "Strlock", "StrlockSpec", {"Keys": {"1", "2", "3"}, "Readers": 100, "Now": False}, h)


def c09(ctx):
    ctx.ins_pkgs = LOCKPKGS
    s = []

    def ll(name, limit, timeout, threads, post="cc; count; lock; lock; lock; cc; count", punctual=1, **kw):
        x = sc("%s l%d t%s p%d" % (name, limit, timeout, punctual), {"limit": str(limit), "timeout": str(timeout), "punctual": str(punctual)}, threads, post=post, **kw)
        x["kind"] = "limit"
        s.append(x)
    for p in (1, 0):
        for lim in (1, 2, 3):
            ll("fine", lim, "1450u", ["lock; sleep 1; unlock", "lock; sleep 2; unlock", "sleep 1450u; lock; sleep 1; unlock", "lock; lock"], punctual=p, maxpb=1, maxhist=300)
            ll("fine", lim, "300u", ["lock; sleep 200u; unlock; lock", "lock; sleep 301u; unlock; lock", "lock; lock"], punctual=p, maxpb=1, maxhist=300)
            for T in (0, 5, 50):
                ll("hold", lim, T, ["lock; sleep 10; unlock"] * 4, punctual=p, maxpb=1, maxhist=400)
                ll("keep", lim, T, ["lock", "lock; cc", "lock; count", "lock; sleep 3; count"], punctual=p, maxpb=1, maxhist=400)
                ll("free", lim, T, ["sleep 4; unlock; sleep 1", "lock; unlock; lock; unlock", "lock"], pre="lock; cc; count", punctual=p, maxpb=1, maxhist=400)
                ll("again", lim, T, ["lock; sleep %d; unlock; sleep 3; lock; cc" % (2 * T + 1), "sleep 1; lock; sleep %d; lock; unlock; sleep 1; lock" % (T + 3), "lock; sleep %d; unlock; lock" % (T + 2)], punctual=p, maxpb=1, maxhist=400)
                ll("atthesametime", lim, T, ["sleep %d; unlock" % T, "lock", "lock", "lock; unlock"], pre="lock", punctual=p, maxpb=1, maxhist=400)
    h = explore(ctx, "limit", "c_await", s)
    validate(ctx, "LimitLock", None, {}, in_us(h), module="LimitLockTrace")


CHECKS = {"C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09}
