"""C33: package image."""
from .core import *
from .checks_map import sc, B, K, V


def seen(hists):
    """Operation look carries what it saw: the specification judges it where it knows the pixels."""
    for h in hists:
        for i, e in enumerate(h["ev"]):
            if e["o"] == ["look"]:
                r = e["r"]
                if e["e"] == "inv":
                    r = next((f["r"] for f in h["ev"][i + 1:] if f["e"] == "ret" and f["t"] == e["t"]), [])
                e["o"] = ["look"] + r
    return hists


def c33(ctx):
    def model(name, src, opts, sizes=((0, 0),), modes=("0",), formats=("",), b=3):
        jobs = {(str(w), str(h), m, "near", f) + tuple(p.split()) for p in opts for f in formats for w, h in sizes for m in modes}
        g = seq_model(ctx, name, "ImageSpec", {"Sources": {tuple(x.split()) for x in src}, "Jobs": jobs})
        replay(ctx, "Image " + name, "r_image", g, [{"x": "0"}], walks=20, budget=B(b, 30))
    model("turns", ["png 3 2 6", "gif 2 3 0"], ["gray", "invert", "fliph", "flipv", "rotate 90", "rotate -90", "rotate 180", "rotate 90 fliph", "rotate 270 flipv invert", "fliph flipv gray"])
    model("crops", ["png 4 3 6", "png 5 1 1"], ["rotate 90", "anchor 2 2 1 0", "anchor 9 1 1 1", "side 2 2 5 0", "side 1 9 0 3", "anchor 2 2 1 1 rotate 90 invert", "anchor 3 3 1 0 side 2 1 9 9"])
    model("formats", ["%s 2 2 %s" % (f, k) for f in ("png", "bmp", "tiff", "gif", "jpeg", "webp") for k in "03"], ["", "rotate 90"], formats=("", "png", "bmp", "tif", "gif", "jpg", "webp", "psd"))
    model("modes", ["png 6 4 100", "png 4 6 0", "bmp 5 5 2"], [""], [(2, 1), (1, 2), (2, 0), (0, 1), (2, 2), (3, 3), (7, 3), (3, 7), (9, 9), (9, 0)], [str(i) for i in range(7)], b=6)
    model("scales", ["png 6 4 100", "png 4 6 0"], ["upper 3 2 0", "lower 3 2 0", "upper 5 5 12", "lower 4 0 0", "rotate 90", "upper 2 2 0 lower 1 2 0"])
    big = {"Sources": set(), "Jobs": set()}
    h = walk(ctx, "image", "r_image", {"cfgs": [{"x": "0"}], "runs": B(60, 600), "len": B(60, 100)})
    validate(ctx, "ImageWalks", "ImageSpec", big, seen(h))


CHECKS = {"C33": c33}
