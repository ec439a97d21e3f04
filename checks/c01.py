"""RGB -> YCbCr accuracy: the elaborated datapath is executed over symbolic 8-bit R, G, B (integer mode); the
three outputs are compared with the exact rational XAPP930 formula, clipped to the 8-bit range, for all 2^24 pixels."""
import z3
from fv.bench import *
from fv.stream import isolated
from fv.intsim import ex

FUNCTIONS = ["litevideo.csc.rgb2ycbcr.RGB2YCbCr (RGB2YCbCrDatapath, saturate, coefs)"]
BOUNDS = "all 8-bit R,G,B; one token through an idle pipeline (other traffic: C03); default 8-bit widths"
ASSUMPTIONS = ["Migen simulator semantics of the design"]

S = 10 ** 4
S2 = 10 ** 8


def clip(x, hi):
    return z3.If(x < 0, z3.IntVal(0), z3.If(x > hi, z3.IntVal(hi), x))


def refs(r, g, b):
    y = 1819 * (r - g) + 618 * (b - g) + S * g
    return {"y": (y + 16 * S, S, -2.36, 1.36),
            "cb": (5512 * (b * S - y) + 128 * S2, S2, -1.61, 1.14),
            "cr": (6495 * (r * S - y) + 128 * S2, S2, -1.64, 1.28)}


def job(comp, side):
    from litevideo.csc.rgb2ycbcr import RGB2YCbCr
    d = RGB2YCbCr()
    b = IntBench(d)
    v = {n: b.ivar(n, 0, 255) for n in "rgb"}
    lat = isolated(b, d.sink, d.source, v)
    b.check("a pixel comes out", lat is not None)
    if lat is not None:
        o = b.get(getattr(d.source, comp))
        ref, sc, lo, hi = refs(v["r"].e, v["g"].e, v["b"].e)[comp]
        e = ex(o) * sc - clip(ref, 255 * sc)
        b.check("%s not below the exact value by more than %.2f LSB" % (comp, -lo) if side == "lo" else
                "%s not above the exact value by more than %.2f LSB" % (comp, hi),
                e >= int(lo * sc) if side == "lo" else e <= int(hi * sc))
        b.cover("mid-range output", z3.And(ex(o) > 100, ex(o) < 150))
    return b.solve(timeout=600, validate=3)


def jobs(tier):
    return [{"name": "%s-%s" % (c, s), "func": job, "kw": {"comp": c, "side": s}}
            for c in ("cb", "cr", "y") for s in ("lo", "hi")]
