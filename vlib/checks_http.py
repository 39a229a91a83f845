"""C30: httpclient."""
import random
from .core import *
from .checks_map import scen, B, K, V


def cases(ctx):
    d = setup_dir("http_cases", None, {}, None)
    f = os.path.join(d, "cases.json")
    r = tlc(d, "HttpCases", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n", workers=1, env={"CASES": f})
    if r.rc != 0 or not os.path.exists(f):
        raise InfraError("HttpCases: " + tail(r.out))
    c = json.load(open(f))
    shutil.rmtree(d, ignore_errors=True)
    ctx.part(cases="HttpSpec", plans=len(c["plans"]), requests=len(c["requests"]))
    return c["plans"], c["requests"]


def post(tag, q, p, way="ok"):
    t = lambda x: "t" if x else "f"
    r = p["plan"]
    return ["post", tag, q["body"], t(q["close"]), q["hdr"], q["cookie"], way, q["fn"], t(q["tls"]), r["status"], r["frame"], r["size"], r["cut"], r["how"], t(p["whole"])]


def design(ctx, name, calls, parts=2, retry=False, trusts=False, expect=None):
    algo(ctx, name, "HttpImpl", {"Calls": {"c%d" % i: {"unread": u, "sends": n} for i, (u, n) in enumerate(calls)}, "Parts": parts, "Retry": retry, "Trusts": trusts},
         ["AsSpecified"], [] if expect else ["AllReturn"], expect=expect)


def c30(ctx):
    design(ctx, "whole and cut replies", [(False, 2), (False, 1), (True, 0)][:B(2, 3)])
    design(ctx, "dropped", [(True, 0), (False, 0)])
    design(ctx, "tried again", [(False, 1)], retry=True, expect="AsSpecified")
    design(ctx, "parts returned", [(False, 1)], trusts=True, expect="AsSpecified")
    plans, reqs = cases(ctx)
    rng = random.Random(SEED)
    wide = [p for p in plans if p["plan"]["cut"] == "no" and p["plan"]["how"] == "once" and p["plan"]["frame"] == "length" and p["plan"]["size"] == "600"]
    large = [p for p in plans if p["plan"]["size"] == "35000000"]
    once = [repr(p) for p in wide + large]
    ps = sorted([p for p in plans if repr(p) not in once] * B(3, 12) + wide + large * B(1, 3), key=lambda _: rng.random())
    qs = sorted(reqs * (len(ps) // len(reqs) + 1), key=lambda _: rng.random())
    calls = [post("c%d" % i, q, p) for i, (q, p) in enumerate(zip(qs, ps))]
    small = [p for p in plans if p not in large]
    plain = next(p for p in plans if p["whole"] and p["plan"]["how"] == "once" and p["plan"]["frame"] == "length" and p["plan"]["size"] == "600")
    for k in range(B(2, 8)):
        for w in ("port", "url", "scheme", "header", "value", "nottls", "tls"):
            q = rng.choice([q for q in reqs if (q["fn"] == "Post3" or w not in ("header", "value")) and q["tls"] == (w == "tls")])
            calls.append(post("w%s%d" % (w, k), q, plain, way=w))
    # one call may run over the server of another one only by mistake: calls in parallel
    rng.shuffle(calls)
    scens = []
    while calls:
        n = rng.choice([1, 2, 4])
        ths = []
        for _ in range(n):
            ths.append(calls[:3])
            calls = calls[3:]
        scens.append(scen("calls%d" % len(scens), {"x": "0"}, [t for t in ths if t]))
    for k in range(B(4, 16)):                # many at once
        scens.append(scen("burst%d" % k, {"x": "0"}, [[post("b%d_%d_%d" % (k, i, j), rng.choice(reqs), rng.choice(small)) for j in range(3)] for i in range(24)]))
    p, hs = run_driver(ctx, "raw", "r_http", "walk", {"scenarios": scens}, timeout=B(400, 850))
    if not crashed(ctx, p, "posts to a server"):
        validate(ctx, "Http", None, {}, hs, module="HttpTrace", what="posts to a server")


CHECKS = {"C30": c30}
