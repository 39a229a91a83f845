"""C28: websocket."""
from .core import *
from .checks_map import sc, B, K, V


def ws(name, threads, pre="", post="error; send z", cbs="omec", dial="ok", **kw):
    ins = {k: v for k, v in kw.items() if k.startswith("in_")}
    c = {"dial": dial, "open": "f", "msg": "f", "error": "f", "close": "f"}
    c.update({{"o": "open", "m": "msg", "e": "error", "c": "close"}[x]: "t" for x in cbs})
    c.update(ins)
    s = sc(name, c, threads, pre=pre, post=post, **{k: v for k, v in kw.items() if k not in ins})
    s["kind"] = "ws"
    return s


def design(ctx, name, peer, end, send, close, keeps=True, locked=True, expect=None):
    algo(ctx, name, "WsImpl", {"PeerMsgs": list(peer), "PeerEnd": end, "Senders": {"s%d" % i: str(i) for i in range(send)}, "Closers": set("c%d" % i for i in range(close)),
                               "Keeps": keeps, "Locked": locked}, ["AsSpecified", "AtRest"], [] if expect else ["Ends"], expect=expect)


def c28(ctx):
    for end in ("end", "cut", "no"):
        for n in range(B(2, 3)):
            design(ctx, "%s, %d Close" % (end, n), "ab" if n < 2 else "a", end, B(2, 3) if n == 0 else 2, n)
    design(ctx, "OnError without reason", "a", "no", 0, 1, keeps=False, expect="AsSpecified")
    design(ctx, "Sends not kept apart", "", "no", 2, 0, locked=False, expect="AsSpecified")
    ctx.ins_pkgs = "websocket"
    s = []
    for end, n in (("end", ""), ("cut", "c")):
        s += [ws("peer ends" + n, ["peer send a; peer send b; peer %s" % end, "send 1; send 2; error"]),
              ws("both end" + n, ["peer send a; peer %s" % end, "send 1; close; error; send 2", "send 3"]),
              ws("at once" + n, ["send 1; error"], pre="peer send a; peer send b; peer " + end),
              ws("close in callbacks" + n, ["peer send a; peer %s" % end, "send 1"], in_msg="close;error;send", in_error="send;close", in_close="close;error;send"),
              ws("some callbacks" + n, ["peer send a; peer send b; peer %s" % end, "send 1; close; send 2"], cbs="mc"),
              ws("only error" + n, ["peer send a; peer %s" % end, "close; send 2"], cbs="e"),
              ws("no callbacks" + n, ["peer send a; peer %s" % end, "send 1; close; send 2; error"], cbs="")]
    s += [ws("alive", ["peer send a; peer send b; peer send c", "send 1; send 2", "send 3; error"], post="error; send z; close; send y; error"),
          ws("alive2", ["peer send a; peer send b; peer send c; peer send d; peer send e", "send 1; send 2; send 3"], pre="peer send f; peer send g", post="error; peer send h; send z"),
          ws("close", ["peer send a; peer send b", "send 1; close; error; send 2", "send 3; error; send 4"]),
          ws("close twice", ["close; send 1", "close; error", "peer send a"]),
          ws("close in open", ["send 1; peer send a; error"], in_open="send;close;error;send"),
          ws("send in callbacks", ["peer send a; peer send b", "send 1; send 2"], in_open="send", in_msg="send;error"),
          ws("close in msg", ["peer send a; peer send b; peer send c", "send 1"], in_msg="send;close;send"),
          ws("no dial", ["send 1"], dial="no"), ws("no dial2", ["send 1"], dial="no", cbs="")]
    h = explore(ctx, "ws", "c_ws", s)
    validate(ctx, "Ws", None, {}, h, module="WsTrace")
    loopback(ctx)


FRAG = "websocket: a message the peer sends in two frames comes as two calls of OnMessage"
HALF = "websocket: when the connection breaks inside a frame, OnMessage gets the part of the message that had arrived"


def raw(name, threads, **kw):
    c = {k: kw.pop(k) for k in ("tls", "timeout", "fin") if k in kw}
    s = ws(name, threads, **kw)
    s["cfg"].update(c)
    return s


def loopback(ctx):
    """The same over real connections (and TLS) to a peer with its own frame code."""
    s = []
    big = ["0:1", "s:125", "s:126", "s:127", "m:4096", "m:65535", "l:65536", "l:65537", "x:300000"]
    put = "; ".join("peer send " + x for x in big)
    snd = "; ".join("send " + x for x in big)
    for t in ("", "tnone", "tbytes", "tfiles"):
        n = " " + t
        s += [raw("sizes" + n, [put + "; peer send empty", snd + "; send empty"], tls=t),
              raw("many" + n, ["; ".join("peer send p%d:%d" % (i, i * 37 % 3000) for i in range(60)), "; ".join("send a%d:%d" % (i, i * 91 % 5000) for i in range(60)),
                               "; ".join("send b%d" % i for i in range(60)), "; ".join("send c%d:70000" % i for i in range(10)), "error; wait 5; error"], tls=t),
              raw("extras" + n, ["peer ping; peer send a; peer pong; peer ping; peer send b; peer slow c; peer ping; peer send d", "send 1; send 2; wait 20; send 3; error"], tls=t, post="peer ping; send z; error"),
              raw("early" + n, ["send 1"], pre="peer send a; peer send b:5000; peer ping; peer send c", tls=t),
              raw("early end" + n, ["wait 60; send 1; error"], pre="peer send a; peer send b:5000; peer end", tls=t),
              raw("open sends" + n, ["peer send a; peer send b; send 1"], in_open="send;error;send", in_msg="send;error", tls=t)]
        for end in ("end", "cut", "half"):
            for fin in ("f", "t"):
                m = n + end + fin
                k = {"tls": t, "fin": fin}
                s += [raw("ends" + m, ["peer send a; peer send b:9000; peer " + end, "send 1; send 2; error; wait 40; send 3"], **k),
                      raw("ends between" + m, ["wait 2; peer " + end, "; ".join("send a%d:3000; error" % i for i in range(30)), "wait 50; send x; error; close; error"], **k),
                      raw("ends, closed" + m, ["peer send a; wait 1; peer " + end, "wait 1; close; error; send 2", "send 3; wait 2; close"], in_msg="send;close", in_error="send;error", in_close="close;error;send", **k),
                      raw("ends some" + m, ["peer send a; peer " + end, "send 1"], cbs="mc", **k),
                      raw("ends only err" + m, ["peer send a; peer " + end, "wait 20; send 1"], cbs="e", **k),
                      raw("ends none" + m, ["peer send a; peer " + end, "wait 20; send 1; error"], cbs="", **k)]
        s += [raw("close" + n, ["peer send a; send 1; close; error; send 2", "send 3; close; error"], tls=t),
              raw("close idle" + n, ["wait 5; close; error"], tls=t), raw("close in open" + n, ["send 1; error"], in_open="send;close;error", tls=t),
              raw("close in msg" + n, ["peer send a; peer send b", "wait 30; send 1"], in_msg="close;error;send", tls=t)]
    for d in ("drop", "refuse", "nowhere", "url", "bad", "origin", "silent"):
        s += [raw("dial " + d, ["send 1"], dial=d), raw("dial bare " + d, ["send 1"], dial=d, cbs="", timeout="500")]
    for t in ("tbytes2", "tfiles2", "tone"):
        s += [raw("certs " + t, ["peer send a; send 1; error"], tls=t)]
    for t in ("tempty", "twrongbytes", "twrongfiles", "tjunk", "tnofile"):
        s += [raw("dial " + t, ["send 1"], dial="tls", tls=t), raw("dial bare " + t, ["send 1"], dial="tls", tls=t, cbs="")]
    s += [raw("timeout", ["peer send a; send 1; wait 700; send 2; peer send b; error"], timeout="300"), raw("timeout tls", ["peer send a; send 1; wait 700; send 2; peer send b; error"], timeout="300", tls="tbytes")]
    s = s * B(2, 20)
    s += [raw("pieces", ["peer send a; peer pieces frag:40; peer send b", "send 1"])]
    p, hs = run_driver(ctx, "raw", "r_ws", "walk", {"scenarios": s}, timeout=B(300, 800))
    if crashed(ctx, p, "websocket over loopback"):
        return
    for h in hs:
        if any(e["e"] == "peer" and e["o"] == ["cut"] for e in h["ev"]) and "half" in h["name"]:
            part = [e for e in h["ev"] if e["e"] == "cb" and e["o"] == ["msg", "corrupt:2"]]
            if len(part) == 1 and ctx.finding(HALF):
                h["ev"].remove(part[0])
        if h["name"] == "pieces":
            cut = [e for e in h["ev"] if e["e"] == "cb" and e["o"][0] == "msg" and e["o"][1] in ("corrupt frag:40:20", "corrupt:20")]
            if sorted(e["o"][1] for e in cut) == ["corrupt frag:40:20", "corrupt:20"] and ctx.finding(FRAG):
                h["ev"] = [e for e in h["ev"] if e not in cut and e["o"] != ["send", "frag:40"]]
    validate(ctx, "WsRaw", None, {}, hs, module="WsTrace", what="websocket over loopback")


CHECKS = {"C28": c28}
