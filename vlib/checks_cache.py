"""C17: cache.BloomFilter."""
from .core import *
from .checks_map import sc, B, K


def impl(ctx, name, adders, n, locked, expect=None):
    algo(ctx, name, "BloomImpl", {"Adders": adders, "N": n, "Locked": locked}, ["NoFalseNegative", "Bounded"], expect=expect)


def it(*a):
    return ["i%d" % x for x in a]


def c17(ctx):
    ctx.ins_pkgs = "cache,hashmap,buffer,pool/buffer"
    impl(ctx, "locked 1", {"a": it(1, 2, 3, 4), "b": it(5, 6)}, 1, True)
    impl(ctx, "locked 2", {"a": it(1, 2, 3, 4, 5), "b": it(6, 7, 8)}, 2, True)
    impl(ctx, "unlocked", {"a": it(1, 2), "b": it(3)}, 2, False, expect="NoFalseNegative")
    impl(ctx, "unlocked, stale segment", {"a": it(1, 2, 3, 4, 5), "b": it(6)}, 2, False, expect="NoFalseNegative")
    if THOROUGH:
        impl(ctx, "locked 2, three", {"a": it(1, 2, 3, 4, 5), "b": it(6, 7, 8), "c": it(9)}, 2, True)
        impl(ctx, "locked 3", {"a": it(1, 2, 3, 4, 5, 6, 7), "b": it(8, 9, 10)}, 3, True)
    consts = {"Items": K(3), "Sizes": {"1", "2", "3"}, "Blocks": False}
    g = seq_model(ctx, "bloom", "BloomSpec", consts)
    concs = ["plain", "int", "empty", "nil", "long", "reuse", "vary"]
    for n in ("1", "2", "3"):
        replay(ctx, "BloomFilter n " + n, "d_bloom", g, [{"n": n, "fp": fp, "conc": c} for c in concs for fp in ("0.3", "0.001", "0.000001", "0.9")],
               budget=B(3, 20), init=lambda s: s["n"] == int(n))
    big = {"Items": K(3), "Sizes": {"1"}, "Blocks": True}
    h = walk(ctx, "bloom", "d_bloom", {"cfgs": [{"n": n, "fp": fp, "conc": c} for n in ("1", "2", "5", "16", "40", "64", "100") for fp, c in (("0.3", "int"), ("0.001", "plain"), ("0.05", "reuse"))],
                                       "runs": B(4, 20), "len": B(700, 1500)})
    validate(ctx, "BloomWalks", "BloomSpec", big, h)
    # saturation
    hs = []
    for n in (100, 1000, 4096):
        ops = [["addmany", "1", str(n)], ["most", "1", str(n)]]
        nxt = n + 1
        for k in (3 * n + 1, n // 2, n, n + n // 2, 3 * n + 1):
            ops += [["addmany", str(nxt), str(nxt + k - 1)], ["most", "1", str(n)], ["most", str(nxt), str(nxt + k - 1)]]
            nxt += k
        for fp in ("0.001", "0.01"):
            hs += script(ctx, "saturation", "d_bloom", {"n": str(n), "fp": fp, "conc": "int"}, ops)
    for n in (1, 2, 3, 5, 16):       # filters for a few items: blocks of several items each, between them more than the filter may remember
        ops, nxt, blocks = [], 1, []
        for k in (max(3, n), 3 * n + 1, max(5, n), 3 * n + 2, max(5, n), 6 * n + 5, max(3, n), 3 * n + 3):
            ops.append(["addmany", str(nxt), str(nxt + k - 1)])
            blocks.append((nxt, nxt + k - 1))
            nxt += k
            ops += [["most", str(a), str(b)] for a, b in blocks[-3:]]
        for fp in ("0.000001", "0.00000001"):
            hs += script(ctx, "small", "d_bloom", {"n": str(n), "fp": fp, "conc": "int"}, ops)
    validate(ctx, "BloomSaturation", "BloomSpec", big, hs)
    s = []
    post = "has 1; has 2; has 3; has 4; has 5; has 6"
    for n, fp in (("1", "0.3"), ("2", "0.3"), ("3", "0.3"), ("2", "0.2")):
        c = {"n": n, "fp": fp, "conc": "int"}
        t = n + fp
        s += [sc("two" + t, c, ["add 1; has 1", "add 2; has 2"], post=post),
              sc("three" + t, c, ["add 1; has 1", "add 2; has 2", "add 3; has 3; has 1"], post=post),
              sc("rotate" + t, c, ["add 3; has 3; add 4; has 4", "add 5; has 5; add 6; has 6"], pre="add 1; add 2", post=post, maxpb=1),
              sc("ask" + t, c, ["add 3; add 4; add 5", "has 1; has 2; has 3; has 2", "has 4; has 3; has 5"], pre="add 1; add 2", post=post),
              sc("wrap" + t, c, ["add 8; has 8; add 9", "add 10; has 10; has 9", "add 11; has 11"], pre="; ".join("add %d" % i for i in range(1, 8)), post="has 8; has 9; has 10; has 11"),
              sc("wrap2" + t, c, ["add 8; has 8; add 9", "add 10; has 10; has 9", "add 11; has 11"], pre="; ".join("add %d" % i for i in range(2, 8)), post="has 8; has 9; has 10; has 11")]
    h = explore(ctx, "bloom", "d_bloom", s)
    validate(ctx, "BloomConc", "BloomSpec", {"Items": K(3), "Sizes": {"1"}, "Blocks": False}, h)


CHECKS = {"C17": c17}
