"""C32: the helpers of package util and fast.StringToSlice."""
from .core import *
from .checks_map import sc, B, K, V


def bound(hists):
    """Operations rand and randbig carry what came out."""
    for h in hists:
        for i, e in enumerate(h["ev"]):
            if e["o"] and (e["o"][0], len(e["o"])) in (("randbig", 5), ("rand", 2)):
                r = e["r"]
                if e["e"] == "inv":
                    r = next((f["r"] for f in h["ev"][i + 1:] if f["e"] == "ret" and f["t"] == e["t"]), [])
                if e["o"][0] == "rand" and len(r) == 1 and r[0].isdigit() and len(r[0]) < 10:
                    e["o"] = e["o"] + r
                elif r[:1] == ["ok"]:
                    e["o"] = e["o"] + r[1:]
    return hists


def c32(ctx):
    msg = {tuple(m) for m in ([], [0], [255], [97, 98, 99], list(range(256)), [255] * 129)} | {tuple((7 * i + n) % 256 for i in range(n)) for n in (55, 56, 63, 64, 65, 111, 112, 119, 120, 127, 128, 129)}
    g = seq_model(ctx, "hash", "HashSpec", {"Msgs": msg})
    replay(ctx, "Hash", "d_util", g, [{"k": "hash"}], walks=3, budget=B(2, 10))
    t = lambda *a: {tuple(x) for x in a}
    small = {"Files": {"f0", "f1"}, "Sizes": {"0", "1", "4096", "5000"}, "Words": {"", "a", "bc"}, "Small": {"1", "2", "7"}, "Texts": t("", "a", "A", "ab", "abab", "ba", ".", "a.", "a\n", "a*", "("),
             "Dates": {tuple(str(x) for x in d) for d in ((2000, 2, 29, 0, 0, 0), (2001, 2, 29, 0, 0, 0), (2100, 2, 29, 1, 2, 3), (2100, 3, 1, 7, 59, 59), (2024, 12, 31, 23, 59, 59), (2024, 1, 1, 0, 0, 0), (2024, 13, 1, 0, 0, 0), (2024, 0, 1, 0, 0, 0),
                                                          (2024, 4, 31, 0, 0, 0), (2024, 6, 30, 24, 0, 0), (2024, 6, 30, 8, 60, 0), (2024, 6, 30, 8, 0, 60), (2024, 6, 0, 8, 0, 0), (1999, 9, 9, 9, 9, 9), (2038, 1, 19, 11, 14, 8), (9999, 12, 31, 8, 0, 0))}}
    g = seq_model(ctx, "util", "UtilSpec", small)
    replay(ctx, "Util", "d_util", g, [{"k": "util"}], walks=20, budget=B(3, 20))
    h = walk(ctx, "hash", "d_util", {"cfgs": [{"k": "hash"}] + [{"k": "hash", "only": k} for k in ("md5", "sha1", "blake", "crc64")], "runs": B(4, 30), "len": B(50, 80)})
    validate(ctx, "HashWalks", "HashSpec", {"Msgs": set()}, h)
    big = {"Files": {"f0", "f1", "f2"}, "Sizes": set(), "Words": set(), "Small": set(), "Texts": set(), "Dates": set()}
    h = walk(ctx, "util", "d_util", {"cfgs": [{"k": "util"}], "runs": B(20, 200), "len": B(250, 400)})
    validate(ctx, "UtilWalks", "UtilSpec", big, bound(h))


CHECKS = {"C32": c32}
