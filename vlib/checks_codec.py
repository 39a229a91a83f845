"""C25: ciphers of keystore; C26: compressors; C31: value encodings, integers and base58."""
from .core import *
from .checks_map import sc, B, K, V

BIG = {"Codecs": set(), "Keys": set(), "Contents": set(), "SlotNames": set()}


def bursts(ctx, name, codecs):
    ops = [["burst", str(g), str(n), c, k] for c, k in codecs for g, n in ((8, B(60, 600)), (32, B(10, 100)))]
    h = script(ctx, "burst_" + name, "d_codec", {"codecs": codecs[0][0]}, ops)
    validate(ctx, name + "Bursts", "CodecSpec", BIG, h, what="values encoded and decoded by goroutines in parallel do not come back")


def walks(ctx, name, codecs, runs, n):
    cfgs = [{"codecs": c} for c in codecs]
    h = walk(ctx, name, "d_codec", {"cfgs": cfgs, "runs": runs, "len": n})
    validate(ctx, name + "Walks", "CodecSpec", BIG, h)


def small(ctx, name, codecs, keys, contents, slots=2, budget=None):
    g = seq_model(ctx, name, "CodecSpec", {"Codecs": set(codecs), "Keys": set(keys), "Contents": contents, "SlotNames": {str(i + 1) for i in range(slots)}})
    g["trans"] = {k: v for k, v in g["trans"].items() if '"junk"' not in k[1]}
    replay(ctx, name, "d_codec", g, [{"codecs": codecs[0]}], walks=20, budget=budget or B(3, 20))


def c25(ctx):
    cts = {("c:16:1", "16"), ("e", "0")}
    small(ctx, "aes", ["aes"], ["ab", "ba"], cts, slots=1)
    small(ctx, "aes two", ["aes"], ["ab"], {("c:16:1", "16")})
    # keys that a truncation, a trim or a join of the two strings would take for one another
    for n, ks in (("joined", [x + y for c in "0z/:|,-_. +#;=@" for x, y in (("a", c), (c, "a"))]), ("near", [x + y for x in "aAtoPQRpq" for y in ("a" + x if x != "a" else "aPp")])):
        ks, h = sorted(set(ks)), []
        for order in (ks, ks[::-1]):
            ops = []
            for i, k in enumerate(order):
                ops += [["enc", "1", "aes", k, "c:33:%d" % i, "33"]] + [["dec", "1", "aes", j] for j in order]
            h += script(ctx, "aes_" + n, "d_codec", {"codecs": "aes"}, ops)
        validate(ctx, "aesKeys" + n, "CodecSpec", BIG, h, what="a message opens with another key, or not with its own")
    small(ctx, "aesf", ["aesf", "aes"], ["aa", "bb"], cts | {("c:5:1", "5")}, slots=1)
    small(ctx, "rsa", ["rsa"], ["def", "p1", "file", "junk", "ec", "nofile"], {("c:117:1", "117"), ("c:246:1", "246"), ("e", "0")}, slots=1)
    walks(ctx, "aes", ["aes", "aes,aesf", "aesf"], B(6, 60), B(300, 400))
    walks(ctx, "rsa", ["rsa"], B(4, 40), B(150, 300))
    bursts(ctx, "cipher", [("aes", "ab"), ("aesf", "aa"), ("rsa", "def")])


def c26(ctx):
    one = {("t:1000:1", "1000"), ("e", "0")}
    small(ctx, "zlib", ["zlib", "uzlib"], ["0"], one, slots=1)
    small(ctx, "zlib two", ["zlib"], ["0"], {("t:1000:1", "1000")})
    small(ctx, "zliblevel", ["zliblevel"], ["-3", "-2", "0", "9", "10"], one, slots=1)
    small(ctx, "gzip", ["gzip", "ugzip"], ["0"], one, slots=1)
    small(ctx, "zstd", ["zstd", "zstdlevel"], ["0"], one, slots=1)
    if THOROUGH:
        for c in ("gzip", "zstd", "uzlib", "snappy", "usnappy", "ugzip"):
            small(ctx, c + " two", [c], ["0"], {("t:1000:1", "1000")})
    walks(ctx, "compress", ["zlib,zliblevel,uzlib", "gzip,ugzip", "zstd,zstdlevel", "snappy,usnappy", "zlib,gzip,zstd,ugzip,uzlib"], B(4, 40), B(250, 400))
    h = []                                    # large contents, whole and damaged
    for c in ("zlib", "zliblevel", "uzlib", "gzip", "ugzip", "snappy", "usnappy", "zstd", "zstdlevel"):
        ops, k = [], "6" if c == "zliblevel" else "1"
        for d, n in [("r", 300000), ("t", 2500000), ("z", 40000000)] + B([], [("r", 70000000), ("t", 300000000)]):
            e = ["enc", "1", c, k, "%s:%d:7" % (d, n), str(n)]
            ops += [e, ["dec", "1", c, k]]
            if "snappy" in c:
                continue
            for x in ([["cut", "1", str(m)] for m in (1, 9, n // 300, n // 20)] + [["flip", "1", str(m), "3"] for m in (500, 900, 999)] if d != "z" else [["cut", "1", "2"], ["cut", "1", "30000"]]):
                ops += [x, ["dec", "1", c, k], e]
        h += script(ctx, "large_" + c, "d_codec", {"codecs": c}, ops)
    validate(ctx, "compressLarge", "CodecSpec", BIG, h)
    bursts(ctx, "compress", [(c, "1") for c in ("zlib", "zliblevel", "uzlib", "gzip", "ugzip", "snappy", "usnappy", "zstd", "zstdlevel")])


def c31(ctx):
    lim = {0, 1, 32768, 65535} | (set() if not THOROUGH else {255, 256, 32767})
    byt = {tuple(b) for b in ([], [1], [255], [1, 2], [128, 0], [255, 255, 254], [1, 2, 3, 4], [255, 0, 0, 1], [128, 0, 0, 0], [9, 8, 7, 6, 5], list(range(1, 8)), list(range(1, 9)), [255] * 8, list(range(10)), list(range(16)), list(range(17)))}
    txt = {tuple(x) for x in ("", "1", "11", "z", "21", "1z", "jpXCZedGfVQ", "0", "O", "I", "l", "a0", "0a", "a a", "JPwcyDCgEup", "zzzzzzzzzz", "1111111111112", "-")}
    g = seq_model(ctx, "num", "NumSpec", {"Limbs": lim, "Bytes": byt, "Texts": txt})
    replay(ctx, "Num", "d_num", g, [{"x": "0"}], walks=10, budget=B(2, 10))
    h = walk(ctx, "num", "d_num", {"cfgs": [{"x": "0"}], "runs": B(40, 400), "len": B(500, 1000)})
    validate(ctx, "NumWalks", "NumSpec", {"Limbs": set(), "Bytes": set(), "Texts": set()}, h)
    values = ["json", "gob", "uthrift", "thrift", "proto"]
    small(ctx, "values", ["gob", "json"], ["0"], {("v:3:1", "3"), ("v:0:0", "0")}, slots=1)
    small(ctx, "thrift", ["thrift", "uthrift", "proto"], ["0"], {("v:3:1", "3"), ("v:0:0", "0")}, slots=1)
    walks(ctx, "values", values, B(6, 60), B(250, 400))
    bursts(ctx, "values", [(c, "0") for c in values])


CHECKS = {"C25": c25, "C26": c26, "C31": c31}
