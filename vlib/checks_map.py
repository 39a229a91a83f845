"""C10-C16: maps and caches of packages hashmap and cache."""
from .core import *

K = lambda n: {str(i) for i in range(1, n + 1)}
V = lambda *a: set(a)


def scen(name, cfg, threads, pre=(), post=(), budget=1.5, maxpb=2, maxhist=1500):
    return {"name": name, "cfg": cfg, "threads": [[list(o) for o in t] for t in threads], "pre": [list(o) for o in pre],
            "post": [list(o) for o in post], "budget": budget * (6 if THOROUGH else 1), "maxpb": maxpb + (1 if THOROUGH else 0),
            "maxhist": maxhist * (4 if THOROUGH else 1)}


def o(s):
    return [x.split() for x in s.split(";") if x.strip()]


def sc(name, cfg, threads, pre="", post="", **kw):
    return scen(name, cfg, [o(t) for t in threads], o(pre), o(post), **kw)


B = lambda q, t: t if THOROUGH else q


def mapl(ctx, name, progs, one=True, expect=None):
    algo(ctx, name, "MapLImpl", {"Progs": {p: [{"op": {"p": "put", "d": "del"}[x[0]], "k": x[1:]} for x in l.split()] for p, l in progs.items()}, "One": one},
         ["Exact", "Near"] if one else ["Exact"], expect=expect)


def c10(ctx):
    mapl(ctx, "MapL count", {"a": "px dx py", "b": "px dy", "c": "dx px"})
    mapl(ctx, "MapL looks, then stores", {"a": "px dx py", "b": "px dy", "c": "dx px"}, one=False, expect="Exact")
    if not B(1, 0):
        mapl(ctx, "MapL count, four threads", {"a": "px dx py dy", "b": "px dy px", "c": "dx px dy", "d": "py dx"})
    ctx.ins_pkgs = "hashmap,cache,buffer,pool/buffer"
    g = seq_model(ctx, "map", "MapSpec", {"Keys": K(3), "Vals": V("v0", "v1"), "WithLen": True})
    gl = {"n": g["n"], "init": g["init"], "trans": {k: v for k, v in g["trans"].items() if '"len"' not in k[1]}}
    concs = ["any", "str", "ptr", "err"]
    replay(ctx, "MapL", "d_map", g, [{"kind": "map", "l": "1", "conc": c} for c in concs], budget=B(4, 40))
    replay(ctx, "Map", "d_map", gl, [{"kind": "map", "l": "0", "conc": c} for c in concs], budget=B(4, 40))
    big = {"Keys": K(20), "Vals": V("v0", "v1", "v2"), "WithLen": True}
    h = walk(ctx, "map", "d_map", {"cfgs": [{"kind": "map", "l": l, "conc": c} for c in concs for l in "01"], "runs": B(3, 20), "len": B(150, 600)})
    validate(ctx, "MapWalks", "MapSpec", big, h)
    s = []
    for l in "10":
        n = "; len" if l == "1" else ""
        post = "get 1; get 2; get 3; range" + n
        c = {"kind": "map", "l": l, "conc": "any"}
        s += [
            sc("put-put" + l, c, ["put 1 v1; get 1", "put 1 v2; del 1"], post=post),
            sc("del-del" + l, c, ["del 1; put 1 v2", "del 1; put 1 v0", "get 1; has 1"], pre="put 1 v1", post=post),
            sc("mix" + l, c, ["put 1 v1; del 2", "put 2 v1; del 1", "has 1; get 2"], post=post),
            sc("same" + l, c, ["put 1 v1; del 1", "put 1 v2; del 1", "put 1 v0"], post=post),
            sc("range" + l, c, ["crange 1 2 3", "put 3 v1; del 1", "del 2; put 2 v2"], pre="put 1 v1; put 2 v1", post=post),
            sc("range2" + l, c, ["crange 1 2 3; crange 1 2 3", "put 1 v2; put 3 v0"], pre="put 1 v1; put 2 v0", post=post),
        ]
    h = explore(ctx, "map", "d_map", s)
    validate(ctx, "MapConc", "MapSpec", {"Keys": K(3), "Vals": V("v0", "v1", "v2"), "WithLen": True}, h)


def c11(ctx):
    ctx.ins_pkgs = "hashmap,cache,buffer,pool/buffer"
    consts = {"Keys": K(4), "Vals": V("v0", "v1"), "Caps": V("1", "2", "3"), "Multi": V(("delmulti", "1", "2"), ("delmulti", "3", "1", "3"), ("delmulti",))}
    g = seq_model(ctx, "limitmap", "LimitMapSpec", consts)
    concs = ["any", "str", "ptr"]
    for cap in ("1", "2", "3"):
        replay(ctx, "LimitMap cap " + cap, "d_map", g, [{"kind": "lim", "cap": cap, "conc": c} for c in concs], budget=B(4, 40), init=lambda s: s["cap"] == int(cap))
    big = {"Keys": K(20), "Vals": V("v0", "v1", "v2"), "Caps": V("1"), "Multi": set()}
    h = walk(ctx, "lim", "d_map", {"cfgs": [{"kind": "lim", "cap": n, "conc": c} for c in concs for n in ("1", "5", "12")], "runs": B(3, 20), "len": B(150, 600)})
    validate(ctx, "LimitMapWalks", "LimitMapSpec", big, h)
    post = "get 1; get 2; get 3; get 4; len"
    s = []
    for cap in ("1", "2"):
        c = {"kind": "lim", "cap": cap, "conc": "any"}
        s += [
            sc("ins" + cap, c, ["put 1 v1; len", "put 2 v1; get 1", "put 3 v1"], post=post),
            sc("upd" + cap, c, ["put 1 v2; put 3 v1", "put 2 v2; len", "del 1"], pre="put 1 v1; put 2 v1", post=post),
            sc("del" + cap, c, ["delmulti 1 2; put 4 v1", "put 3 v1; get 2", "len; get 1"], pre="put 1 v1; put 2 v1", post=post),
            sc("same" + cap, c, ["put 1 v1; del 1", "put 1 v2; put 2 v2", "get 1; len"], post=post),
        ]
    h = explore(ctx, "lim", "d_map", s)
    validate(ctx, "LimitMapConc", "LimitMapSpec", big, h)


LHM_CONF = {("1", "1"), ("2", "1"), ("3", "1"), ("2", "2"), ("4", "2"), ("5", "2"), ("3", "3")}


def c12(ctx):
    ctx.ins_pkgs = "hashmap,cache,buffer,pool/buffer"
    conc_all = ["i64", "str", "f64", "f32", "int", "i8", "i16", "i32", "u8", "u16", "u32", "u64", "uint", "uptr"]
    runs = [({("1", "1"), ("2", "1"), ("3", "1"), ("1", "3")}, {"a1", "a2", "a3", "a4"}, conc_all),
            ({("2", "2"), ("4", "2"), ("5", "2"), ("2", "5")}, {"a1", "a2", "a3", "b1", "b2"}, ["i64", "str", "f64", "u8"]),
            ({("3", "3")}, {"a1", "a2", "b1", "b2", "c1"}, ["i64", "str", "i32"])]
    for confs, keys, concs in runs:
        if len(keys) == 5 and not THOROUGH:
            vals = V("v1", "v0") if ("3", "3") in confs else V("v1")
        else:
            vals = V("v0", "v1")
        g = seq_model(ctx, "lhm", "LimitHashMapSpec", {"Keys": keys, "Vals": vals, "Confs": confs})
        for cap, seg in sorted(confs):
            n = min(int(cap), int(seg))
            replay(ctx, "LimitHashMap cap %s segments %s" % (cap, seg), "d_map", g,
                   [{"kind": "lhm", "cap": cap, "seg": seg, "conc": c} for c in concs], budget=B(2.5, 30),
                   init=lambda s: s["cap"] == int(cap) and len(s["g"]) == n)
    big = {"Keys": {x + y for x in "abc" for y in "1234"}, "Vals": V("v0", "v1", "v2"), "Confs": {("1", "1")}}
    h = walk(ctx, "lhm", "d_map", {"cfgs": [{"kind": "lhm", "cap": cp, "seg": sg, "conc": c} for c in ("i64", "str", "u64") for cp, sg in (("3", "1"), ("5", "2"), ("6", "3"), ("7", "3"))],
                                   "runs": B(3, 20), "len": B(120, 500)})
    # keys that differ only in some of their bits or characters
    h += walk(ctx, "lhmfam", "d_map", {"cfgs": [{"kind": "lhm", "cap": cp, "seg": sg, "conc": c, "fam": f} for c in conc_all for f in ("near", "high", "mid", "fold") for cp, sg in (("4", "1"), ("6", "3"))] +
                                         # many segments, of which the keys use three
                                         [{"kind": "lhm", "cap": cp, "seg": sg, "conc": c, "fam": "far"} for c in conc_all if c not in ("i8", "u8", "f32") for cp, sg in (("100", "64"), ("200", "65"), ("300", "130"))],
                                       "runs": B(1, 6), "len": B(50, 200)})
    validate(ctx, "LimitHashMapWalks", "LimitHashMapSpec", big, h)
    s = []
    for cap, seg in (("1", "1"), ("2", "1"), ("2", "2")):
        c = {"kind": "lhm", "cap": cap, "seg": seg, "conc": "i64", "prewarm": "1"}
        k2 = "b1" if seg == "2" else "a3"
        post = "get a1; get a2; get %s; has a1; len" % k2
        s += [
            sc("ins" + cap + seg, c, ["put a1 v1; get a2", "put a2 v1; get a1", "put %s v1" % k2], post=post),
            sc("upd" + cap + seg, c, ["put a1 v2; del a2", "put a1 v0; has a1", "get a1; put a2 v2"], pre="put a1 v1", post=post),
            sc("clear" + cap + seg, c, ["clear; put a1 v2", "put a2 v1; put %s v1" % k2, "get a1; len"], pre="put a1 v1; put %s v2" % k2, post=post),
        ]
    h = explore(ctx, "lhm", "d_map", s)
    validate(ctx, "LimitHashMapConc", "LimitHashMapSpec", big, h)


def c13(ctx):
    ctx.ins_pkgs = "hashmap,cache,buffer,pool/buffer"
    g = seq_model(ctx, "lnk", "LinkedMapSpec", {"Keys": K(4), "Vals": V("v0", "v1"), "Limits": V("1", "2", "3")})
    concs = ["any", "str", "ptr"]
    for lim in ("1", "2", "3"):
        replay(ctx, "LinkedHashMap limit " + lim, "d_map", g, [{"kind": "lnk", "limit": lim, "conc": c} for c in concs], budget=B(5, 60), init=lambda s: s["lim"] == int(lim))
    big = {"Keys": K(20), "Vals": V("v0", "v1", "v2"), "Limits": V("1")}
    h = walk(ctx, "lnk", "d_map", {"cfgs": [{"kind": "lnk", "limit": n, "conc": c} for c in concs for n in ("1", "5", "12", "100")], "runs": B(3, 20), "len": B(150, 600)})
    validate(ctx, "LinkedHashMapWalks", "LinkedMapSpec", big, h)
    post = "get 1; get 2; get 3; len; front; back; iter f; iter b"
    s = []
    for lim in ("1", "2"):
        c = {"kind": "lnk", "limit": lim, "conc": "any"}
        s += [
            sc("ins" + lim, c, ["put 1 v1; get 2", "put 2 v1; get 1", "put 3 v1"], post=post),
            sc("los" + lim, c, ["los 1 v1; los 2 v1", "los 1 v2; get 1", "los 2 v2"], post=post),
            sc("upd" + lim, c, ["put 1 v2; del 2", "mtf 1; put 3 v2", "get 1; get 2"], pre="put 1 v1; put 2 v1", post=post),
            sc("clr" + lim, c, ["clear; put 2 v2", "put 3 v1; front", "len; back"], pre="put 1 v1; put 2 v1", post=post),
            sc("get" + lim, c, ["get 3; get 1; get 2", "put 3 v1; del 3", "front; back"], pre="put 1 v1; put 2 v1", post=post),
        ]
    h = explore(ctx, "lnk", "d_map", s)
    validate(ctx, "LinkedHashMapConc", "LinkedMapSpec", big, h)


def c14(ctx):
    ctx.ins_pkgs = "hashmap,cache,buffer,pool/buffer"
    g = seq_model(ctx, "tree", "TreeMapSpec", {"Keys": K(5), "Vals": V("v0", "v1")})
    replay(ctx, "TreeMap", "d_map", g, [{"kind": "tree", "degree": d, "conc": c} for d in ("2", "3", "32") for c in ("i64", "str", "f64", "u8")], budget=B(8, 60))
    big = {"Keys": K(60), "Vals": V("v0", "v1", "v2")}
    h = walk(ctx, "tree", "d_map", {"cfgs": [{"kind": "tree", "degree": d, "conc": c, "nk": nk} for d in ("2", "3", "7") for c in ("i64", "str", "f64", "u8") for nk in ("20", "60")],
                                    "runs": B(2, 12), "len": B(250, 800)})
    validate(ctx, "TreeMapWalks", "TreeMapSpec", big, h)
    post = "get 1; get 2; get 3; asc 99; desc 99"
    s = []
    for d in ("2",):
        c = {"kind": "tree", "degree": d, "conc": "i64"}
        pre5 = "put 1 v1; put 2 v1; put 3 v1; put 4 v1; put 5 v1"
        s += [
            sc("put" + d, c, ["put 1 v1; get 2", "put 2 v1; del 1", "put 1 v2"], post=post),
            sc("asc" + d, c, ["asc 99", "put 2 v1; del 1", "del 4"], pre="put 1 v1; put 3 v1; put 4 v1", post=post),
            sc("desc" + d, c, ["desc 99; asc 1", "put 2 v1; put 6 v1", "get 2"], pre=pre5, post=post),
            sc("del" + d, c, ["del 1; del 2", "del 3; put 1 v2", "get 1; get 3"], pre=pre5, post=post),
            sc("split" + d, c, ["put 6 v1; put 7 v1", "del 5; get 6", "asc 99"], pre=pre5, post=post),
            sc("rw" + d, c, ["get 1; get 4", "put 1 v2; put 4 v2", "put 4 v0; asc 2"], pre=pre5, post=post),
        ]
    h = explore(ctx, "tree", "d_map", s)
    validate(ctx, "TreeMapConc", "TreeMapSpec", {"Keys": K(8), "Vals": V("v0", "v1", "v2")}, h)
    s = []
    for n, d in ((40, "2"), (150, "3"), (150, "32")):       # trees larger than any page a traversal might take
        c = {"kind": "tree", "degree": d, "conc": "i64", "keys": "150"}
        pre = "; ".join("put %d v1" % i for i in range(1, n))
        s += [sc("big%d%s" % (n, d), c, ["asc 999", "put 1 v2; put %d v2" % (n - 1)], pre=pre, maxhist=100),
              sc("bigdesc%d%s" % (n, d), c, ["desc 999", "put %d v2; put 1 v2; del %d" % (n - 1, n // 2)], pre=pre, maxhist=100),
              sc("bigdel%d%s" % (n, d), c, ["asc 999; desc 999", "del 2; del %d; put %d v0" % (n - 2, n)], pre=pre, maxhist=100)]
    h = explore(ctx, "bigtree", "d_map", s)
    validate(ctx, "TreeMapBig", "TreeMapSpec", {"Keys": K(150), "Vals": V("v0", "v1", "v2")}, h)


def c15(ctx):
    ctx.ins_pkgs = "hashmap,cache,buffer,pool/buffer"
    sets = [("p1:123 p2:231 p3:312", 3), ("p1:321 p2:213 p3:132", 3), ("p1:1234 p2:3412 p3:2341", 4)]
    if THOROUGH:
        sets += [("p1:4321 p2:2143 p3:1432", 4), ("p1:1243 p2:2431 p3:4312", 4)]
    for prefs, n in sets:
        P = {tuple([x.split(":")[0]] + list(x.split(":")[1])) for x in prefs.split()}
        g = seq_model(ctx, "ring", "HashRingSpec", {"Nodes": K(n), "Probes": {p[0] for p in P}, "Prefs": P})
        replay(ctx, "Consistenthash " + prefs, "d_map", g, [{"kind": "ring", "repl": r, "prefs": prefs, "seed": str(SEED * 10 + i)} for r in ("1", "2", "5", "20") for i in range(B(2, 10))], budget=B(8, 60), walks=60)
        replay(ctx, "Consistenthash near ids " + prefs, "d_map", g, [{"kind": "ring", "repl": r, "prefs": prefs, "seed": str(SEED * 10), "fam": f} for r in ("1", "20") for f in ("high", "low", "sign", "digits")], budget=B(4, 30), walks=20)
        replay(ctx, "Consistenthash many points " + prefs, "d_map", g, [{"kind": "ring", "repl": r, "prefs": prefs, "seed": str(SEED * 10)} for r in ("300", "5000")], budget=B(4, 30), walks=20)
    prefs, n = sets[0]
    P = {tuple([x.split(":")[0]] + list(x.split(":")[1])) for x in prefs.split()}
    consts = {"Nodes": K(n), "Probes": {p[0] for p in P}, "Prefs": P}
    c = {"kind": "ring", "repl": "2", "prefs": prefs, "seed": "1"}
    post = "nodes; get p1; get p2; get p3; getstr p1; next p2 3"
    s = [
        sc("add", c, ["add 1; get p1", "add 2; get p1", "get p2; nodes"], post=post),
        sc("del", c, ["del 1; get p1", "del 2; add 1", "getstr p2; get p3"], pre="add 1 2", post=post),
        sc("last", c, ["del 1; get p1", "getstr p1; next p1 2", "add 3"], pre="add 1", post=post),
        sc("next", c, ["next p1 3; get p1", "add 3; del 2", "add 3; nodes"], pre="add 1 2", post=post),
    ]
    for x in s:
        x["cfg"] = dict(x["cfg"], prewarm="1")
    h = explore(ctx, "ring", "d_map", s)
    validate(ctx, "ConsistenthashConc", "HashRingSpec", consts, h)


def c16(ctx):
    ctx.ins_pkgs = "hashmap,cache,buffer,pool/buffer"
    multi = V(("delmulti", "1", "2"), ("delmulti", "3", "1", "3"), ("delmulti",))
    for concs, m in ((["str"], multi), (["any"], set())):
        g = seq_model(ctx, "lru", "LruSpec", {"Keys": K(4), "Vals": V("v0", "v1"), "Caps": V("1", "2", "3"), "Multi": m})
        for cap in ("1", "2", "3"):
            replay(ctx, "LruCache cap " + cap, "d_map", g, [{"kind": "lru", "cap": cap, "conc": c} for c in concs], budget=B(4, 40), init=lambda s: s["cap"] == int(cap))
    big = {"Keys": K(20), "Vals": V("v0", "v1", "v2"), "Caps": V("1"), "Multi": set()}
    h = walk(ctx, "lru", "d_map", {"cfgs": [{"kind": "lru", "cap": n, "conc": c} for c in ("str", "any") for n in ("1", "5", "12")], "runs": B(4, 20), "len": B(150, 600)})
    validate(ctx, "LruWalks", "LruSpec", big, h)
    post = "get 1; get 2; get 3; get 4"
    s = []
    for cap in ("1", "2"):
        c = {"kind": "lru", "cap": cap, "conc": "str"}
        s += [
            sc("add" + cap, c, ["add 1 v1; get 2", "add 2 v1; get 1", "add 3 v1"], post=post),
            sc("get" + cap, c, ["get 1; add 3 v1", "get 2; get 1", "add 4 v2"], pre="add 1 v1; add 2 v1", post=post),
            sc("del" + cap, c, ["del 1; add 1 v2", "delmulti 1 2; get 1", "add 2 v2; get 2"], pre="add 1 v1; add 2 v1", post=post),
        ]
    h = explore(ctx, "lru", "d_map", s)
    validate(ctx, "LruConc", "LruSpec", big, h)


CHECKS = {"C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16}
