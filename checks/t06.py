"""Sync polarity normalisation: symbolic control codes, data enable and data from an arbitrary state; the outputs are
compared with the definition (polarity = level seen on the first blanking word)."""
import z3
from migen import *
from fv.bench import *
from fv.pipe import havoc

FUNCTIONS = ["litevideo.input.analysis.SyncPolarity (hdmi=False and hdmi=True)"]
BOUNDS = "any prior state, then 8 (quick) / 16 (thorough) cycles of any input; and after lines and blanking periods of any length up to 16383 (quick) / 131071 (thorough)"
ASSUMPTIONS = ["Migen simulator semantics of the design"]


def job(hdmi, K):
    from litevideo.input.analysis import SyncPolarity
    m = SyncPolarity(hdmi)
    b = Bench(m, domains=["pix", "pix_o"])
    havoc(b)
    pol = None            # polarity known since the first end of an active line
    known = False
    pde = None
    for t in range(K):
        v = b.inp(m.valid_i, "valid")
        d = [b.inp(getattr(m, "data_in%d" % i).d, "d%d" % i) for i in range(3)]
        raw = [b.inp(getattr(m, "data_in%d" % i).raw, "raw%d" % i) for i in range(3)]
        c = b.inp(m.data_in0.c, "c")
        if hdmi:
            de = b.inp(m.de_int, "de")
        else:
            de = b.inp(m.data_in0.de, "de")
        b.tick(["pix", "pix_o"])
        b.check("valid", Iff(b.get(m.valid_o), v))
        b.check("de", Iff(b.get(m.de), de))
        for s, x, n in ((m.r, d[2], "red is channel 2"), (m.g, d[1], "green is channel 1"), (m.b, d[0], "blue is channel 0")):
            b.check(n, eq(b.get(s), x))
        for i in range(3):
            b.check("raw %d" % i, eq(b.get(getattr(m, "c%d" % i)), raw[i]))
        if pde is not None:
            fall = And(pde, Not(de))
            hs, vs = b.get(m.hsync), b.get(m.vsync)
            b.check("syncs are inactive on the first blanking word", Implies(fall, And(eq(hs, 0), eq(vs, 0))))
            if pol is not None:
                ref = c ^ pol
                chk = And(known, Not(fall))
                b.check("hsync is active-high", Implies(chk, Iff(hs, bit(ref, 0))))
                b.check("vsync is active-high", Implies(chk, Iff(vs, bit(ref, 1))))
            pol = c if pol is None else ite(fall, c, pol)
            known = Or(known, fall)
        pde = de
    b.cover("two lines", known)
    return b.solve(timeout=200, validate=2)


def long_(hdmi, active, n):
    """after an active line or a blanking period of any length up to n words"""
    from litevideo.input.analysis import SyncPolarity
    m = SyncPolarity(hdmi)
    b = Bench(m, domains=["pix", "pix_o"])
    dest = m.de_int if hdmi else m.data_in0.de
    dom = ["pix", "pix_o"]
    b.set(m.valid_i, 1)
    snaps = []
    for t in range(n + 6):
        de = int(t < 4 or (active and t > 5))
        b.set(dest, de)
        b.set(m.data_in0.c, 2 if t <= 4 else 1)
        b.tick(dom)
        if t > 5:
            snaps.append(b.snap())
    b.jump(snaps)
    pol, pde = 2, bool(active)
    for t in range(5):
        v = b.inp(m.valid_i, "valid")
        d = [b.inp(getattr(m, "data_in%d" % i).d, "d%d" % i) for i in range(3)]
        raw = [b.inp(getattr(m, "data_in%d" % i).raw, "raw%d" % i) for i in range(3)]
        c = b.inp(m.data_in0.c, "c")
        de = b.inp(dest, "de")
        b.tick(dom)
        b.check("valid", Iff(b.get(m.valid_o), v))
        b.check("de", Iff(b.get(m.de), de))
        for s, x, nm in ((m.r, d[2], "red is channel 2"), (m.g, d[1], "green is channel 1"),
                         (m.b, d[0], "blue is channel 0")):
            b.check(nm, eq(b.get(s), x))
        for i in range(3):
            b.check("raw %d" % i, eq(b.get(getattr(m, "c%d" % i)), raw[i]))
        fall = And(pde, Not(de))
        hs, vs = b.get(m.hsync), b.get(m.vsync)
        b.check("syncs are inactive on the first blanking word", Implies(fall, And(eq(hs, 0), eq(vs, 0))))
        ref = c ^ bv(pol, 2)
        b.check("hsync is active-high", Implies(Not(fall), Iff(hs, bit(ref, 0))))
        b.check("vsync is active-high", Implies(Not(fall), Iff(vs, bit(ref, 1))))
        pol = ite(fall, c, pol, 2)
        pde = de
    return b.solve(timeout=300, validate=1)


def jobs(tier):
    K = 16 if tier == "thorough" else 8
    return [{"name": "dvi", "func": job, "kw": {"hdmi": False, "K": K}},
            {"name": "hdmi", "func": job, "kw": {"hdmi": True, "K": K}}] + [
        {"name": "long %s %s" % ("line" if a else "blanking", "hdmi" if h else "dvi"), "func": long_,
         "kw": {"hdmi": h, "active": a, "n": 131071 if tier == "thorough" else 16383}} for a in (True, False) for h in (False, True)]
