"""C01-C03: gopool."""
from .core import *
from .checks_map import sc, B


def pool(name, mn, mx, threads, pre="", ql="8", **kw):
    s = sc(name, {"min": str(mn), "max": str(mx), "ql": ql}, threads, pre=pre, post="num", **kw)
    s["kind"] = "pool"
    for th in s["threads"] + [s["pre"]]:
        for op in th:
            if op[0] == "go" and len(op) < 3:
                op.append("n")
    return s


def check(ctx, scens):
    h = explore(ctx, "pool", "d_pool", scens)
    validate(ctx, "Pool", None, {}, h, module="PoolTrace")


def impl(ctx, name, progs, mn, mx, ql=2, live=False, expect=None, **var):
    c = {"Progs": progs, "Min": mn, "Max": mx, "QL": ql, "Wake": True, "IdleFirst": True, "OwnExit": True}
    c.update(var)
    algo(ctx, name, "GoPoolImpl", c, ["OneDispatcher", "SlotsOK", "Counted", "AtRest"], ["AllRun"] if live else ["Refines"], expect=expect)


def fs(*ns):
    return [n if n == "close" else "f%d" % n for n in ns]


def c01(ctx):
    impl(ctx, "submit 1 1", {"a": fs(1, 2), "b": fs(3)}, 1, 1)
    impl(ctx, "submit 0 1", {"a": fs(1), "b": fs(2)}, 0, 1)
    if THOROUGH:
        impl(ctx, "submit 1 2", {"a": fs(1, 2), "b": fs(3)}, 1, 2)
        impl(ctx, "submit 2 2", {"a": fs(1, 2, 3)}, 2, 2)
        impl(ctx, "liveness", {"a": fs(1, 2), "b": fs(3)}, 1, 1, live=True)
        impl(ctx, "without the second look", {"a": fs(1, 2), "b": fs(3)}, 1, 1, ql=4, expect="AtRest", Wake=False)
        impl(ctx, "no core worker", {"a": fs(1, 2)}, 0, 1, ql=4, expect="AtRest", IdleFirst=False)
    ctx.ins_pkgs = "pool/gopool"
    s = []
    for mn, mx in ((1, 1), (1, 2), (2, 2), (0, 1), (2, 1), (0, 2)):
        t = "%d%d" % (mn, mx)
        s += [pool("one" + t, mn, mx, ["go 1; go 2", "go 3"]),
              pool("two" + t, mn, mx, ["go 1 p; go 2", "go 3 e; go 4"], ql="1"),
              pool("many" + t, mn, mx, ["go 1; go 2; go 3", "go 4; go 5 p", "go 6"], ql="2", maxpb=1),
              pool("late" + t, mn, mx, ["go 3; go 4 p", "go 5; go 6"], pre="go 1; go 2 p", maxpb=1),
              pool("turn" + t, mn, mx, ["off t; off f; go 3; go 4", "go 1 q; go 2 q"], maxpb=1)]
    check(ctx, s)


def c02(ctx):
    impl(ctx, "limit 1 1", {"a": fs(1, 2), "b": fs(3)}, 1, 1)
    impl(ctx, "limit 1 2", {"a": fs(1, 2, 3)}, 1, 2)
    if THOROUGH:
        impl(ctx, "limit 1 1 x 4", {"a": fs(1, 2, 3, 4)}, 1, 1)
        impl(ctx, "limit 2 2 x 3", {"a": fs(1, 2, 3)}, 2, 2)
        impl(ctx, "idle worker not preferred", {"a": fs(1, 2, 3, 4, 5)}, 2, 3, ql=5, expect="SlotsOK|Refines", IdleFirst=False)
    ctx.ins_pkgs = "pool/gopool"
    s = []
    for mn, mx in ((1, 1), (1, 2), (2, 2), (2, 3), (0, 1), (0, 2), (2, 1)):
        t = "%d%d" % (mn, mx)
        s += [pool("burst" + t, mn, mx, ["go 1; go 2; go 3", "go 4; go 5"]),
              pool("warm" + t, mn, mx, ["go 3; go 4; go 5; go 6"], pre="go 1; go 2"),
              pool("panic" + t, mn, mx, ["go 3 p; go 4; go 5", "go 6; go 7 p"], pre="go 1 p; go 2 e", ql="2")]
    check(ctx, s)


def c03(ctx):
    impl(ctx, "close 1 1", {"a": fs(1, 2), "b": fs("close")}, 1, 1)
    impl(ctx, "close 0 1", {"a": fs(1), "b": fs("close", 2)}, 0, 1)
    if THOROUGH:
        impl(ctx, "close 1 2", {"a": fs(1, 2), "b": fs("close")}, 1, 2)
        impl(ctx, "close twice", {"a": fs(1, "close"), "b": fs("close", 2)}, 1, 1)
        impl(ctx, "liveness", {"a": fs(1, 2), "b": fs("close")}, 1, 1, live=True)
        impl(ctx, "workers that prefer ctx.Done", {"a": fs(1, 2), "b": fs("close")}, 1, 1, expect="AtRest", OwnExit=False)
    ctx.ins_pkgs = "pool/gopool"
    s = []
    for mn, mx in ((1, 1), (1, 2), (2, 2), (0, 1), (2, 3)):
        t = "%d%d" % (mn, mx)
        s += [pool("close" + t, mn, mx, ["go 1; go 2; go 3", "close"]),
              pool("after" + t, mn, mx, ["close; go 3", "go 1; go 2"], pre="go 4"),
              pool("twice" + t, mn, mx, ["close; close", "close; go 1", "go 2; go 3"], ql="1"),
              pool("off" + t, mn, mx, ["off t; go 1; off f; go 2", "go 3; go 4"], pre="go 5"),
              pool("offclose" + t, mn, mx, ["off t; go 1; off f", "close; off f; go 2", "go 3; go 4"], ql="1", maxpb=1),
              pool("offpan" + t, mn, mx, ["go 1 q; off t; off f; go 2; go 3", "go 4 q; go 5"], maxpb=1),
              pool("busy" + t, mn, mx, ["close", "go 3; go 4; go 5; go 6"], pre="go 1; go 2", ql="1"),
              pool("pan" + t, mn, mx, ["go 1 q; go 2", "close"], pre="go 4 q"),
              pool("pan2" + t, mn, mx, ["go 1 q; go 2 q", "off t; go 3", "close"], maxpb=1)]
    check(ctx, s)


CHECKS = {"C01": c01, "C02": c02, "C03": c03}
