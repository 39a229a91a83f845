"""C21: buffer.Buffer; C22: object pools."""
from .core import *
from .checks_map import sc, B, K, V


def counted(hists):
    """Tells the specification how many bytes each Read returned."""
    for h in hists:
        for i, e in enumerate(h["ev"]):
            if e["o"] and e["o"][0] == "read" and len(e["o"]) == 2:
                r = e["r"] if e["e"] == "ret" else h["ev"][i + 1]["r"]
                e["o"] = e["o"] + [r[0] if r and r[0].isdigit() else "0"]
    return hists


def c21(ctx):
    g = seq_model(ctx, "buffer", "BufferSpec", {"Toks": {"1", "2"}, "Sizes": {"0", "1", "2", "5"}, "MaxLen": 7})
    for nil, init in (("f", "0"), ("f", "3"), ("t", "0")):
        ctors = [("new", "0"), ("cap", "0"), ("cap", "5"), ("pool", "0"), ("zero", "0"), ("slice", "0"), ("slice", "2"), ("slice", "64"), ("nilslice", "0")]
        replay(ctx, "Buffer nil %s init %s" % (nil, init), "d_buffer", g, [{"nil": nil, "init": init, "ctor": c, "cap": k} for c, k in ctors], budget=B(4, 30),
               init=lambda s: s["nil"] == (nil == "t") and (s["q"] != []) == (init == "3"))
    cfgs = [{"nil": "f", "init": i, "ctor": c, "cap": k} for i, c, k in (("0", "new", "0"), ("0", "cap", "0"), ("0", "cap", "100"), ("0", "pool", "0"), ("7", "slice", "0"), ("7", "slice", "50"), ("0", "zero", "0"))]
    h = walk(ctx, "buffer", "d_buffer", {"cfgs": cfgs + [{"nil": "t", "init": "0"}], "runs": B(6, 40), "len": B(200, 400)}, par=False)
    h += parallel(ctx, "buffer", "d_buffer", cfgs[:2] + cfgs[3:5], B(20, 60), 40, secs=0.7)
    validate(ctx, "BufferWalks", "BufferSpec", {"Toks": set(), "Sizes": set(), "MaxLen": 10 ** 9}, counted(h))


def c22(ctx):
    ctx.ins_pkgs = "pool/buffer,buffer"
    g = seq_model(ctx, "objpool", "ObjPoolSpec", {"Slots": K(3), "Ids": 3, "Amounts": {"0", "60000"}})
    kinds = [{"kind": "T"}, {"kind": "Tdefault"}, {"kind": "buffer"}, {"kind": "bufpool"}, {"kind": "Tplain"}, {"kind": "Tnoreset"}] + [{"kind": "bytes", "size": z} for z in ("1", "2", "5", "8", "30")]
    replay(ctx, "Pools", "d_objpool", g, kinds, budget=B(5, 40))
    big = {"Slots": set(), "Ids": 7, "Amounts": set()}
    h = walk(ctx, "objpool", "d_objpool", {"cfgs": kinds, "runs": B(5, 40), "len": B(200, 400)})
    validate(ctx, "PoolWalks", "ObjPoolSpec", big, h)
    s = []
    for c in kinds[:5] + kinds[6:8] + [kinds[10]]:
        t = c["kind"] + c.get("size", "")
        s += [sc("two" + t, c, ["get 1 0; use 1 5; has 1; put 1; get 1 8; has 1", "get 2 8; use 2 3; has 2; put 2; get 2 0; has 2"], post="has 1; has 2; get 3 0; has 3"),
              sc("three" + t, c, ["get 1 0; use 1 5; has 1; put 1", "get 2 8; use 2 3; has 2; put 2", "get 3 100; use 3 7; has 3; put 3"], post="get 1 0; get 2 0; get 3 0; get 4 0", maxhist=600),
              sc("idle" + t, c, ["get 1 0; use 1 5; has 1", "get 2 8; use 2 3; has 2; put 2", "get 3 100; use 3 1; has 3"], pre="get 1 0; get 2 0; use 1 100; use 2 20; put 1; put 2", post="has 1; has 3; get 2 0; get 4 0", maxhist=600),
              sc("again" + t, c, ["put 1; put 1; get 1 0; put 1; put 1", "get 2 0; get 3 0; use 2 1; has 2; has 3"], pre="get 1 0; use 1 9", post="get 1 0; get 4 0; has 1; has 2; has 3; has 4")]
    h = explore(ctx, "objpool", "d_objpool", s)
    validate(ctx, "PoolConc", "ObjPoolSpec", dict(big, Ids=4), h)


CHECKS = {"C21": c21, "C22": c22}
