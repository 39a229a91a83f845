"""C29: gosignal."""
import random
from .core import *
from .checks_map import sc, B, K, V


def sg(name, threads, pre="", post="", **kw):
    ins = {k: v for k, v in kw.items() if k.startswith("in_")}
    s = sc(name, dict(ins, x="0"), threads, pre=pre, post=post, **{k: v for k, v in kw.items() if k not in ins})
    s["kind"] = "sig"
    return s


def design(ctx, name, lists, progs, cap=1, late=False, loop=False, expect=None):
    algo(ctx, name, "SigImpl", {"Lists": {"l%d" % i: set(x) for i, x in enumerate(lists)}, "Progs": {"t%d" % i: list(x) for i, x in enumerate(progs)},
                                "Cap": cap, "Late": late, "Loop": loop}, ["AsSpecified", "AtRest"], [] if expect else ["Once", "Served"], expect=expect)


def c29(ctx):
    design(ctx, "two listeners", ["A", "AB"], ["AB", "BA"])
    design(ctx, "three listeners", ["A", "AB", "B"], ["AB", B("C", "BA")])
    design(ctx, "one, many", ["AB"], ["ABC", "BAA", B("B", "BCA")])
    design(ctx, "unbuffered", ["A"], ["A"], cap=0, expect="AtRest")
    design(ctx, "registered late", ["A"], ["A"], late=True, expect="AtRest")
    design(ctx, "keeps receiving", ["A"], ["AA"], loop=True, expect="AsSpecified")
    ctx.ins_pkgs = "gosignal"
    post = "raise USR1; raise USR2; raise HUP; raise TERM"
    s = [sg("one", ["listen a USR1; raise USR1; raise USR1"], post=post),
         sg("unlisted", ["listen a USR1; raise USR2; raise HUP", "raise TERM"], post="raise HUP; raise USR1; raise USR1"),
         sg("two signals", ["listen a USR1 USR2; raise USR2; raise USR1", "raise HUP"], post=post),
         sg("first counts", ["listen a USR1 USR2", "raise USR1; raise USR2", "raise USR2"], post="raise USR1; raise USR2"),
         sg("two", ["listen a USR1; raise USR1", "listen b USR1 HUP; raise HUP"], post=post),
         sg("three", ["listen a USR1", "listen b USR1", "listen c USR2 USR1", "raise USR1; raise USR2"], post=post),
         sg("burst", ["raise USR1; raise USR2; raise HUP; raise USR1", "raise HUP; raise USR1"], pre="listen a USR1 USR2 HUP; listen b HUP; listen c TERM", post=post),
         sg("blocked", ["raise USR1; raise USR2"], pre="listen a USR1; listen b USR1; listen c USR2 USR1; listen d USR2", in_a="block", in_c="block", post=post),
         sg("blocked all", ["listen c USR1; raise USR1"], pre="listen a USR1; listen b USR1", in_a="block", in_b="block", post="raise USR1; listen d USR1; raise USR1; raise HUP"),
         sg("again", ["raise USR1; raise USR1", "raise USR1"], pre="listen a USR1", in_a="listen b USR1 HUP", in_b="listen c HUP", post=post),
         sg("raises", ["raise USR1", "raise HUP"], pre="listen a USR1; listen b USR2; listen c HUP", in_a="raise USR2", in_b="raise HUP; raise USR1", post=post),
         sg("registered before return", ["listen a USR1; raise USR1", "listen b USR2; raise USR2"]),
         sg("early", ["raise USR1; raise USR1", "listen a USR1 USR2"], post="raise USR2; raise USR1"),
         sg("same list twice", ["listen a USR1 USR2; listen b USR1 USR2; raise USR2; raise USR1"], post="listen c USR1 USR2; raise USR1"),
         sg("many", ["; ".join("listen l%d USR1" % i for i in range(8)) + "; raise USR1", "raise USR2"], post="raise USR1; raise HUP")]
    h = explore(ctx, "sig", "c_sig", s)
    validate(ctx, "Sig", None, {}, h, module="SigTrace")
    rng = random.Random(SEED)
    sigs = ["USR1", "USR2", "HUP", "TERM", "INT", "WINCH", "CONT", "ALRM", "QUIT", "CHLD"]
    raw = []
    for k in range(B(60, 400)):
        n, ths, ins = 0, [], {}
        for t in range(rng.choice([1, 1, 2, 3])):
            ops = []
            for _ in range(rng.randint(2, 8)):
                if rng.random() < 0.45:
                    n += 1
                    ops.append("listen a%d %s" % (n, " ".join(rng.sample(sigs, rng.choice([1, 1, 2, 3, 6])))))
                    x = rng.random()
                    if x < 0.1:
                        ins["in_a%d" % n] = "block"
                    elif x < 0.25:
                        ins["in_a%d" % n] = "listen r%d %s" % (n, rng.choice(sigs))
                else:
                    ops.append("raise " + rng.choice(sigs))
            ths.append("; ".join(ops))
        raw.append(sg("walk%d" % k, ths, post="; ".join("raise " + x for x in rng.sample(sigs, 6)), **ins))
    for k in range(B(30, 200)):        # the signal follows the registration at once
        x, y = rng.sample(sigs, 2)
        raw.append(sg("at once%d" % k, ["listen a %s; raise %s; listen b %s %s; raise %s" % (x, x, x, y, y), "raise " + y]))
    raw += [dict(x) for x in s]
    p, hs = run_driver(ctx, "raw", "r_sig", "walk", {"scenarios": raw}, timeout=B(300, 800))
    if not crashed(ctx, p, "signals to the process"):
        validate(ctx, "SigRaw", None, {}, hs, module="SigTrace", what="signals to the process")


CHECKS = {"C29": c29}
