"""C27: uuid."""
from .core import *
from .checks_map import sc, B, K, V


def told(hists):
    """Operations new and id carry what the code made."""
    for h in hists:
        for i, e in enumerate(h["ev"]):
            if e["o"] and e["o"][0] in ("new", "id"):
                r = e["r"]
                if e["e"] == "inv":
                    r = next((f["r"] for f in h["ev"][i + 1:] if f["e"] == "ret" and f["t"] == e["t"]), [])
                e["o"] = [e["o"][0]] + (r[:1] if e["o"][0] == "id" else r)
    return hists


def c27(ctx):
    for name, draws, lost, whole, expect in (("made in parallel", 3, 1, True, None), ("a counter read and moved apart", 2, 1, False, "Unique"), ("a counter that loses bits", 3, 2, True, "Unique")):
        algo(ctx, name, "UuidImpl", {"N": 3, "Draws": draws, "Bits": 5, "Lost": lost, "Whole": whole}, ["Unique"], expect=expect)
    ctx.ins_pkgs = "uuid"
    a, b = tuple("00000000-0000-4000-8000-000000000001"), tuple("ffffffff-ffff-4fff-bfff-ffffffffffff")
    given = {tuple("00000000-0000-4000-8000-00000000000F"), tuple("ABCDEFab-0000-1000-e000-000000000000"), tuple("00000000_0000-4000-8000-000000000001"), (), tuple("0" * 36), tuple("0" * 32), tuple("g0000000-0000-4000-8000-000000000001"),
             tuple("00000000-0000-4000-8000-0000000000-1"), tuple("00000000-0000-4000-8000-0000000000011")}
    seq_model(ctx, "uuid", "UuidSpec", {"Made": {a, b}, "Given": given, "MaxKeep": 3}, emit=False)
    g = seq_model(ctx, "parse", "UuidSpec", {"Made": set(), "Given": given | {a, b}, "MaxKeep": 2})
    g["trans"] = {k: v for k, v in g["trans"].items() if '"id"' not in k[1] and json.loads(k[1])[0] != "burst"}
    replay(ctx, "Uuid", "d_uuid", g, [{"keep": "2"}], walks=20, budget=B(3, 20))
    big = {"Made": set(), "Given": set(), "MaxKeep": 12}
    h = walk(ctx, "uuid", "d_uuid", {"cfgs": [{"x": "0"}], "runs": B(20, 150), "len": B(150, 300)})
    validate(ctx, "UuidWalks", "UuidSpec", big, told(h))
    ops = []                                 # every bit counts
    for i, q in enumerate((tuple("00000000-0000-4000-8000-000000000001"), tuple("ffffffff-ffff-4fff-bfff-ffffffffffff"), tuple("01234567-89ab-1cde-f012-3456789abcde"), tuple("00000000-0000-0000-0000-000000000000"))):
        ops += [["parse"] + list(q)] + [["near", str(i + 1), str(n)] for n in range(1, 129)] + [[a, str(i + 1)] for a in ("int", "b58", "i32", "ver")]
    h = script(ctx, "bits", "d_uuid", {"keep": "12"}, ops)
    validate(ctx, "UuidBits", "UuidSpec", big, h)
    ops = [["burst", str(n), str(k)] for n, k in ((1, 20000), (2, 20000), (8, 20000), (32, 3000), (8, 20000), (16, 10000))] * B(1, 5)
    h = script(ctx, "burst", "d_uuid", {"x": "0"}, ops)
    validate(ctx, "UuidBursts", "UuidSpec", big, h, what="UUIDs made by goroutines in parallel are not distinct or not well formed")
    c = {"x": "0"}
    s = [sc("two", c, ["id; id; id", "id; id; id"]), sc("three", c, ["id; id", "id; id", "id; id"]), sc("four", c, ["id", "id", "id; id", "id"], post="id; id")]
    h = explore(ctx, "uuid", "d_uuid", s)
    validate(ctx, "UuidConc", "UuidSpec", big, told(h))


CHECKS = {"C27": c27}
