"""YCbCr -> RGB accuracy over all 2^24 inputs, and the RGB -> YCbCr -> RGB round trip over all unclipped pixels
(both elaborated datapaths executed symbolically in integer mode)."""
import z3
from migen import *
from fv.bench import *
from fv.stream import isolated
from fv.intsim import ex
from checks.c01 import clip

FUNCTIONS = ["litevideo.csc.ycbcr2rgb.YCbCr2RGB (YCbCr2RGBDatapath, saturate, coefs)",
             "litevideo.csc.rgb2ycbcr.RGB2YCbCr"]
BOUNDS = "all 8-bit Y,Cb,Cr; all 8-bit R,G,B whose YCbCr is not clipped; default 8-bit widths"
ASSUMPTIONS = ["Migen simulator semantics of the design"]

# exact: R = Y-16 + Cr'/cd ; B = Y-16 + Cb'/cc ; G = Y-16 - Cb'*cb/(cc*(1-ca-cb)) - Cr'*ca/(cd*(1-ca-cb))
TOL = {"r": (-2.0, 1.08), "g": (-4.12, 2.12), "b": (-1.15, 0.23)}


def job(comp, side):
    from litevideo.csc.ycbcr2rgb import YCbCr2RGB
    d = YCbCr2RGB()
    b = IntBench(d)
    v = {n: b.ivar(n, 0, 255) for n in ("y", "cb", "cr")}
    lat = isolated(b, d.sink, d.source, v)
    b.check("a pixel comes out", lat is not None)
    if lat is not None:
        y, cb, cr = v["y"].e - 16, v["cb"].e - 128, v["cr"].e - 128
        o = b.get(getattr(d.source, comp))
        if comp == "r":
            sc, ref = 6495, 6495 * y + 10000 * cr
        elif comp == "b":
            sc, ref = 5512, 5512 * y + 10000 * cb
        else:
            # common denominator 5512*6495*7563
            sc = 5512 * 6495 * 7563
            ref = sc * y - 618 * 10000 * 6495 * cb - 1819 * 10000 * 5512 * cr
        lo, hi = TOL[comp]
        e = ex(o) * sc - clip(ref, 255 * sc)
        b.check("%s not below the exact value by more than %.2f LSB" % (comp, -lo) if side == "lo" else
                "%s not above the exact value by more than %.2f LSB" % (comp, hi),
                e >= int(lo * sc) if side == "lo" else e <= int(hi * sc))
        b.cover("mid-range output", z3.And(ex(o) > 100, ex(o) < 150))
    return b.solve(timeout=600, validate=3)


class Chain(Module):
    def __init__(self):
        from litevideo.csc.rgb2ycbcr import RGB2YCbCr
        from litevideo.csc.ycbcr2rgb import YCbCr2RGB
        self.submodules.a = RGB2YCbCr()
        self.submodules.b = YCbCr2RGB()
        self.comb += self.a.source.connect(self.b.sink)
        self.sink, self.source = self.a.sink, self.b.source


def roundtrip(comp, side):
    d = Chain()
    b = IntBench(d)
    v = {n: b.ivar(n, 0, 255) for n in "rgb"}
    mid = {}
    b.set(d.source.ready, 1)
    for n in "rgb":
        b.set(getattr(d.sink, n), v[n])
    b.set(d.sink.valid, 1)
    done = False
    for k in range(64):
        b.tick("sys")
        if k == 0:
            b.set(d.sink.valid, 0)
        if not mid and b.get(d.a.source.valid) == 1:
            mid = {n: b.get(getattr(d.a.source, n)) for n in ("y", "cb", "cr")}
        if b.get(d.source.valid) == 1:
            done = True
            break
    b.check("a pixel comes out", done)
    if done:
        for n in mid:
            b.assume(z3.And(ex(mid[n]) > 0, ex(mid[n]) < 255))
        o = b.get(getattr(d.source, comp))
        e = ex(o) - v[comp].e
        b.check("%s returns within 3 LSB" % comp, e >= -3 if side == "lo" else e <= 3)
        b.cover("unclipped pixel", z3.And(ex(o) > 100, ex(o) < 150))
    return b.solve(timeout=600, validate=2)


def jobs(tier):
    js = [{"name": "accuracy-%s-%s" % (c, s), "func": job, "kw": {"comp": c, "side": s}}
          for c in "rgb" for s in ("lo", "hi")]
    js += [{"name": "roundtrip-%s-%s" % (c, s), "func": roundtrip, "kw": {"comp": c, "side": s}}
           for c in "rgb" for s in ("lo", "hi")]
    return js
