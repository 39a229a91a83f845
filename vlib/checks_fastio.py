"""C18, C19: fastio; C20: mmap."""
from .core import *
from .checks_map import sc, B, K, V


def fsc(name, threads, pre="", post="", orig="0", ctor="open", fault="", **kw):
    n = [0]

    def tok(ops):      # every call writes its own token
        r = []
        for op in ops.split(";"):
            f = op.split()
            if f and f[0] in ("w", "ws"):
                n[0] += 1
                f.insert(1, str(n[0]))
            r.append(" ".join(f))
        return "; ".join(r)
    pre = tok(pre)
    threads = [tok(t) for t in threads]
    post = tok(post)
    return sc(name, {"fmt": "pat", "orig": orig, "ctor": ctor, "fault": fault}, threads, pre=pre, post=post + "; close; content", **kw)


def prep(hists):
    """Adds to each call how much of its data is in the content read at the end."""
    out = []
    for h in hists:
        cont = h["ev"][-2 if h["ev"][-1]["e"] == "quiet" else -1]
        last = [i for i, e in enumerate(h["ev"]) if e["e"] == "ret" and e["o"] and e["o"][0] == "content"]
        ev = h["ev"]
        if last:
            runs = ev[last[-1]]["r"] or []
            ev = ev[:last[-1] + 1]
        else:
            runs = []
        got = {}
        for r in runs:
            t, _, k = r.partition(":")
            got[t] = got.get(t, 0) + int(k or 0) if k.isdigit() else 0
        ev = [dict(e, o=e["o"] + [str(got.get(e["o"][1], 0))]) if e["o"] and e["o"][0] in ("w", "ws") else e for e in ev]
        cfg = dict(h["cfg"], origruns="1" if h["cfg"]["orig"] != "0" else "0", lens=[r.partition(":")[2] or "0" for r in runs])
        out.append(dict(h, ev=ev, cfg=cfg))
    return out


def fcheck(ctx, name, scens):
    h = explore(ctx, name, "d_fastio", scens)
    validate(ctx, name, None, {}, prep(h), module="FastioFault")


def impl(ctx, name, progs, ql=2, recheck=True, expect=None):
    algo(ctx, name, "FastioImpl", {"Progs": {k: list(v) for k, v in progs.items()}, "QL": ql, "Recheck": recheck},
         ["OnceEach", "InOrder", "SyncThere", "OneWriter", "AtRest"], deadlock=True, expect=expect)


def c18(ctx):
    impl(ctx, "two writers", {"a": "ws", "b": "sw"})
    impl(ctx, "three writers", {"a": "w", "b": "w", "c": "s"}, ql=1)
    if THOROUGH:
        impl(ctx, "three longer", {"a": "w", "b": "ww", "c": "s"}, ql=1)
        impl(ctx, "two longer", {"a": "wsw", "b": "sww"}, ql=1)
        impl(ctx, "a single look at the queue", {"a": "w", "b": "w", "c": "w"}, ql=4, recheck=False, expect="AtRest")
    ctx.ins_pkgs = "fastio"
    sizes = {"0", "1", "3"}
    g = seq_model(ctx, "fastio", "FastioSpec", {"Toks": {"1", "2"}, "Sizes": sizes, "Offs": {"0", "2", "5"}, "MaxLen": 6})
    for orig in ("0", "3"):
        replay(ctx, "Fastio orig " + orig, "d_fastio", g, [{"fmt": "plain", "orig": orig, "ctor": c} for c in ("open", "new")], budget=B(6, 40),
               init=lambda s: (s["q"] == []) == (orig == "0"))
    big = {"Toks": set(), "Sizes": set(), "Offs": set(), "MaxLen": 10 ** 9}
    for fmt in ("plain", "rec"):
        h = walk(ctx, "fastio " + fmt, "d_fastio", {"cfgs": [{"fmt": fmt, "orig": o, "ctor": c} for o in ("0", "5000") for c in ("open", "new")], "runs": B(6, 40), "len": B(60, 150)})
        validate(ctx, "FastioWalks " + fmt, "FastioSpec", big, h)
    s = []
    for ctor in ("open", "new"):
        for orig in ("0", "9"):
            t = ctor + orig
            kw = {"ctor": ctor, "orig": orig}
            s += [fsc("two" + t, ["w 3; ws 2", "w 1; w 4"], **kw),
                  fsc("three" + t, ["w 3; w 5", "ws 2; w 1", "w 4; ws 7"], **kw),
                  fsc("sync" + t, ["ws 3; ws 5", "ws 2; ws 1", "ws 4"], **kw),
                  fsc("one" + t, ["w 3", "w 5", "ws 2", "w 1"], pre="w 2", post="w 1; ws 2", **kw)]
    s += [fsc("big", ["w 70000; w 1", "w 3; ws 65536", "w 40000; w 30000"], maxpb=1),
          fsc("mid", ["w 4096; w 4095; ws 1", "w 5000; w 1; w 1"]),
          fsc("empty", ["w 0; ws 0; w 1", "ws 0; w 2; w 0"], post="ws 0"),
          fsc("many", ["w 1; w 2; w 3; w 4; w 5", "w 6; w 7; w 8; w 9; w 1", "ws 3"], maxpb=1)]
    fcheck(ctx, "fastio", s)
    # WriteAt, linearized with the other calls
    s = [sc("at1", {"fmt": "plain", "orig": "9", "ctor": c}, th, post="close; content") for c in ("open", "new") for th in
         (["w 1 3; ws 2 2", "wa 3 2 1; wa 4 1 8"], ["w 1 3; w 2 1", "wa 3 2 10; ws 4 2"], ["w 1 2; w 2 2", "wa 3 2 0", "w 4 1; wa 5 3 11"])]
    h = explore(ctx, "fastio at", "d_fastio", s)
    validate(ctx, "FastioAt", "FastioSpec", big, h)


def c19(ctx):
    impl(ctx, "full queue", {"a": "s", "b": "s", "c": "w"}, ql=1)
    ctx.ins_pkgs = "fastio"
    s = []
    for ctor in ("open", "new"):
        for fault in ("1:0", "1:500p", "2:0", "2:2", "3:1", "1:0,2:0", "2:500p,3:0", "1:0,3:0,4:1"):
            t = " %s %s" % (ctor, fault)
            kw = {"ctor": ctor, "fault": fault, "orig": "3", "budget": 0.8, "maxhist": 700}
            s += [fsc("two" + t, ["w 3; ws 2", "w 1; w 4"], post="w 2; ws 3", **kw),
                  fsc("three" + t, ["w 3; w 5", "ws 2; w 1", "w 4"], post="ws 3; w 1; ws 1", **kw),
                  fsc("sync" + t, ["ws 3", "ws 2; ws 1", "ws 4"], post="ws 3; ws 2", **kw),
                  fsc("last" + t, ["w 3; w 6", "w 2; w 1"], **kw)]
    for ctor in ("open", "new"):
        kw = {"ctor": ctor, "orig": "3"}
        s += [fsc("close" + ctor, ["w 3; ws 2", "w 1; w 4", "close"], post="w 2; ws 3", **kw),
              fsc("close2" + ctor, ["w 3; close", "w 1; close; ws 2"], post="w 2; ws 3", **kw),
              fsc("closed" + ctor, ["w 3; ws 1", "ws 2; w 1"], pre="w 3; close", post="w 1", **kw),
              fsc("closef" + ctor, ["w 3; w 2", "ws 1; close"], fault="2:1", post="w 1; ws 2", **kw)]
    s += [fsc("bigf" + f, ["w 70000; w 1", "w 3; ws 65536", "w 40000; w 30000"], post="ws 3", maxpb=1, fault=f) for f in ("2:500p", "3:500p", "3:30000", "2:3,4:0")]
    fcheck(ctx, "faults", s)


def syscalls(ctx, cfgs, runs, length):
    """The system calls of a walk, as traces for SyncTrace; None when they can't be traced here."""
    b = driver(ctx, "raw", "d_mmap")
    d = workdir("strace")
    i, o, t = (os.path.join(d, x) for x in ("in.json", "out", "trace"))
    json.dump({"cfgs": cfgs, "runs": runs, "len": length, "seed": SEED + 77}, open(i, "w"))
    e = build.env()
    e.update(VSCRATCH=d, MARK="1")
    cmd = ["strace", "-f", "-s", "200", "-e", "trace=mmap,msync,fsync,fdatasync,write", "-o", t, b, "walk", i, o]
    try:
        p = subprocess.run(cmd, env=e, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, text=True)
    except (OSError, subprocess.TimeoutExpired) as ex:
        ctx.part(strace="not available: %s" % ex)
        return None
    if p.returncode != 0 or not os.path.exists(t):
        if crashed(ctx, p, "mmap") if "gofer" in p.stderr else False:
            return None
        ctx.part(strace="not available: rc %d %s" % (p.returncode, p.stderr[-200:]))
        return None
    base, size, hists, ev, pend = 0, 0, [], [], {}

    def event(e, o=(), r=()):
        ev.append({"e": e, "t": 1, "o": list(o), "r": [str(x) for x in r], "c": 0})
    for line in open(t, errors="replace"):
        m = re.match(r"(\d+)\s+(.*)", line)
        if not m:
            continue
        pid, s = m.group(1), m.group(2)
        if s.endswith("<unfinished ...>"):
            pend[pid] = s[:-len("<unfinished ...>")].rstrip()
            continue
        m = re.match(r"<\.\.\. \w+ resumed>(.*)", s)
        if m:
            s = pend.pop(pid, "") + m.group(1)
        m = re.match(r'write\(2, "MARK (\w+) (\w+)(?: (-?\d+) (\d+) (\w+))?', s)
        if m:
            event(m.group(1), [m.group(2)], m.groups()[2:] if m.group(3) else [])
            continue
        m = re.match(r"mmap\(\w+, (\d+), .*MAP_SHARED.*, \d+, 0\s*\)\s+= (0x\w+)", s)
        if m:
            if ev:
                hists.append(ev)
            ev = []
            base, size = int(m.group(2), 16), int(m.group(1))
            event("map")
            continue
        m = re.match(r"msync\((0x\w+), (\d+), .*MS_SYNC.*\)\s+= 0", s)
        if m and base:
            lo = int(m.group(1), 16) - base
            event("sync", (), (lo, lo + int(m.group(2))))
            continue
        if re.match(r"f(data)?sync\(\d+\)\s+= 0", s):
            event("sync", (), (0, size))
    if ev:
        hists.append(ev)
    shutil.rmtree(d, ignore_errors=True)
    return [{"name": "syscalls", "cfg": {"x": "0"}, "ev": h} for h in hists if len(h) > 1]


def synctraces(hists):
    """Schedules of d_mmap as traces for SyncTrace: a synchronous call that was not seen to write back itself is left to the
    system calls (the code may write back by other means)."""
    out = []
    for h in hists:
        ev, open_, kept = [], {}, False
        for e in h["ev"]:
            if e["e"] == "inv":
                open_[e["t"]] = False
                ev.append({"e": "inv", "t": e["t"], "o": e["o"][:1], "r": [], "c": 0})
            elif e["e"] == "sync":
                open_[e["t"]] = True
                ev.append(dict(e, t=0))
            elif e["e"] == "ret":
                op, seen = e["o"], open_.pop(e["t"], False)
                if op[0] not in ("ap", "aps", "wa", "was") or e["r"][0] != "ok":
                    continue
                off = e["r"][1] if op[0][0] == "a" else op[3]
                k = seen or op[0] in ("ap", "wa")
                kept = kept or (k and op[0] in ("aps", "was"))
                ev.append({"e": "ret", "t": e["t"], "o": [op[0] if k else "unseen"], "r": [off, op[2], "true", e["r"][-1]], "c": 0})
        if kept:
            out.append({"name": h["name"], "cfg": h["cfg"], "ev": ev})
    return out


def mmalgo(ctx, name, progs, size, whole=True, expect=None):
    """Progs: process -> calls like a2 (append 2 bytes), w2@3 (write 2 bytes at 3)."""
    algo(ctx, name, "MmapImpl", {"Progs": {p: [{"op": "append" if x[0] == "a" else "writeat", "n": int(x[1]), "off": int((x.split("@") + ["0"])[1])} for x in l.split()]
                                           for p, l in progs.items()}, "Size": size, "Whole": whole},
         ["Disjoint", "Stays", "Behind", "Inside", "Contiguous"] if whole else ["Disjoint"], expect=expect)


def c20(ctx):
    mmalgo(ctx, "appends", {"a": "a2 a1", "b": "a1 a2", "c": "a2"}, 7)
    mmalgo(ctx, "appends and writes", {"a": "a2 a1", "b": "w2@3 a2", "c": "a0 w1@0"}, 6)
    mmalgo(ctx, "position read and moved apart", {"a": "a2", "b": "a1"}, 7, whole=False, expect="Disjoint")
    ctx.ins_pkgs = "mmap"
    sizes = {"0", "1", "3"}
    consts = {"Toks": {"1", "2"}, "Sizes": sizes, "Offs": {"-1", "0", "2", "4", "5", "max"}, "FileSizes": {"4"}, "Starts": {"0", "2", "4", "-1"}}
    g = seq_model(ctx, "mmap", "MmapSpec", consts)
    for start in ("0", "2", "4", "-1"):
        ok = start in ("0", "2")
        replay(ctx, "Mmap start " + start, "d_mmap", g, [{"size": "4", "start": start}], budget=B(3, 20),
               init=lambda s: s["st"] == ("mapped" if ok else "failed") and (not ok or s["pos"] == int(start)))
    big = {"Toks": set(), "Sizes": set(), "Offs": set(), "FileSizes": set(), "Starts": set()}
    h = walk(ctx, "mmap", "d_mmap", {"cfgs": [{"size": z, "start": t} for z, t in (("1", "0"), ("50", "10"), ("4096", "0"), ("4097", "4096"), ("8192", "4000"), ("40000", "7"), ("300000", "0"), ("10", "10"), ("0", "0"), ("20", "-3"))],
                                      "runs": B(6, 40), "len": B(80, 200)})
    validate(ctx, "MmapWalks", "MmapSpec", big, h)
    s = []
    for size, start in (("40", "0"), ("30", "4"), ("20", "3"), ("9000", "4090")):
        c = {"size": size, "start": start}
        far = str(int(size) - 9)   # no range written twice
        t = "%s-%s" % (size, start)
        post = "ap 9 1; bytes; close; file"
        s += [sc("two" + t, c, ["ap 1 3; aps 2 2", "aps 3 4; ap 4 1"], post=post),
              sc("three" + t, c, ["ap 1 3; ap 2 2", "ap 3 4", "aps 4 1; aps 5 6"], post=post, maxpb=1),
              sc("fill" + t, c, ["ap 1 3; ap 2 2; ap 3 5", "ap 4 4; ap 5 3; ap 6 1"], post=post),
              sc("at" + t, c, ["ap 1 1; aps 2 1", "wa 3 2 %s; ap 4 1" % far, "was 5 1 %s" % str(int(size) - 2)], post=post),
              sc("at2" + t, c, ["wa 1 2 %s" % far, "was 2 2 %d" % (int(size) - 4), "ap 3 1; ap 4 2"], post=post)]
    # concurrent synchronous writes: which parts of the mapping were written back meanwhile
    y = []
    for size, start in (("60000", "0"), ("60000", "4090"), ("30000", "11")):
        c = {"size": size, "start": start, "syncs": "1"}
        t = "%s-%s" % (size, start)
        y += [sc("sync2" + t, c, ["aps 1 5000", "aps 2 5000; ap 3 10"]),
              sc("sync3" + t, c, ["aps 1 9000; aps 2 1", "ap 3 5000", "aps 4 4096"], maxpb=1),
              sc("syncat" + t, c, ["aps 1 5000", "was 2 4097 20000", "was 3 5 %d" % (int(size) - 10)], maxpb=1)]
    h = explore(ctx, "mmapsync", "d_mmap", y)
    if h:
        validate(ctx, "SyncConc", None, {}, synctraces(h), module="SyncTrace", what="the bytes of a Sync call were not written to the disk")
    h = syscalls(ctx, [{"size": z, "start": t} for z, t in (("50", "10"), ("4097", "4000"), ("40000", "7"), ("30000", "4096"))], B(3, 12), B(150, 300))
    if h:
        validate(ctx, "Sync", None, {}, h, module="SyncTrace", what="the bytes of a Sync call were not written to the disk")
    h = explore(ctx, "mmap", "d_mmap", s)
    validate(ctx, "MmapConc", "MmapSpec", big, h)


CHECKS = {"C20": c20, "C18": c18, "C19": c19}
