"""4:2:2 -> 4:4:4 resampling: every accepted pair (Y0,Cb),(Y1,Cr) leaves as (Y0,Cb,Cr),(Y1,Cb,Cr) in order with its
packet flags, for every valid/ready schedule; nothing is lost or duplicated, every complete pair comes out, and a
reset restarts the pairing.  Bounded symbolic schedules from reset with an arbitrary tracked pixel."""
import z3
from fv.bench import *
from fv.pipe import drive, registers

FUNCTIONS = ["litevideo.csc.ycbcr422to444.YCbCr422to444 (with its three stream.SyncFIFO)"]
BOUNDS = "schedules of 12 (quick) / 16 (thorough) cycles from reset, every valid/ready/payload/flag value; again after any even number up to 4096 of pixels"
ASSUMPTIONS = ["Migen simulator semantics of the design"]


def make():
    from litevideo.csc.ycbcr422to444 import YCbCr422to444
    return YCbCr422to444()


def track(K, odd, before=0):
    """arbitrary tracked pixel n (even or odd): what leaves as pixel n (after any even number of pixels)"""
    d = make()
    b = Bench(d)
    if before:
        snaps = []
        b.set(d.source.ready, 1)
        b.set(d.sink.valid, 1)
        sent = got = 0
        px = [(7 * t & 255, 3 * t & 255) for t in range(before)]
        for t in range(12 * before):
            # a burst of 16 pixels, then idle until all are out
            b.set(d.sink.valid, int(sent < before and (sent < got + 16 or sent % 16 != 0)))
            if sent < before:
                b.set(d.sink.y, px[sent][0])
                b.set(d.sink.cb_cr, px[sent][1])
            if b.get(d.source.valid):
                b.check("luma", eq(b.get(d.source.y), px[got][0]))
                b.check("Cb of the pair", eq(b.get(d.source.cb), px[got & ~1][1]))
                b.check("Cr of the pair", eq(b.get(d.source.cr), px[got | 1][1]))
                got += 1
            sent += And(b.peek(d.sink.valid), b.get(d.sink.ready))
            b.tick("sys")
            if got == sent and got % 2 == 0:
                snaps.append(b.snap())
            if got == before:
                break
        b.check("all pixels leave", got == before)
        r = b.solve(timeout=100, validate=0)
        if r.status != "held":
            return r
        b.jump(snaps, "pairs")
    W = 6
    n = z3.Concat(b.var("pair", W - 1), bvv(1 if odd else 0, 1))
    b.assume(z3.ULT(n, K))
    even = n & bvv((1 << W) - 2, W)
    oddi = even + 1
    icnt = ocnt = bvv(0, W)
    cy = ccb = ccr = bvv(0, 8)
    cf = cl = bvv(0, 1)
    for t in range(K):
        k = drive(b, d)
        r = b.inp(d.source.ready)
        v = bo(k["valid"])
        acc = And(v, b.get(d.sink.ready))
        ov = bo(b.get(d.source.valid))
        take = And(ov, r)
        hit = And(ov, ocnt == n)
        b.check("only complete pairs leave", Implies(hit, z3.UGT(icnt, oddi)))
        b.check("luma", Implies(hit, eq(b.get(d.source.y), cy)))
        b.check("Cb of the pair", Implies(hit, eq(b.get(d.source.cb), ccb)))
        b.check("Cr of the pair", Implies(hit, eq(b.get(d.source.cr), ccr)))
        b.check("first", Implies(hit, eq(b.get(d.source.first), cf)))
        b.check("last", Implies(hit, eq(b.get(d.source.last), cl)))
        for c in ():
            pass
        w = And(acc, icnt == n)
        cy = ite(w, k["y"], cy)
        cf, cl = ite(w, k["first"], cf), ite(w, k["last"], cl)
        ccb = ite(And(acc, icnt == even), k["cb_cr"], ccb)
        ccr = ite(And(acc, icnt == oddi), k["cb_cr"], ccr)
        icnt = z3.simplify(icnt + bv(acc, W))
        ocnt = z3.simplify(ocnt + bv(take, W))
        b.tick("sys")
        # name the reference state
        nn = []
        for x in (icnt, ocnt, cy, ccb, ccr, cf, cl):
            x = bv(x, x.size())
            f = z3.BitVec("ref%d_%d" % (t, len(nn)), x.size())
            b.constraints.append(f == x)
            nn.append(f)
        icnt, ocnt, cy, ccb, ccr, cf, cl = nn
    # everything accepted in complete pairs leaves when the sink of the actor is left idle
    b.set(d.sink.valid, 0)
    b.set(d.source.ready, 1)
    total = icnt
    for t in range(8):
        ocnt = ocnt + bv(b.get(d.source.valid), W)
        b.tick("sys")
    b.check("complete pairs all leave", ocnt == (total & bvv((1 << W) - 2, W)))
    b.check("and nothing more", eq(b.get(d.source.valid), 0))
    b.cover("tracked pixel left", z3.And(z3.UGT(ocnt, n), n > 1))
    return b.solve(timeout=600, validate=2)


def throughput(K):
    """after any schedule, offering pixels and accepting results always makes progress"""
    d = make()
    b = Bench(d)
    for t in range(K):
        drive(b, d)
        b.inp(d.source.ready)
        b.tick("sys")
    b.set(d.sink.valid, 1)
    b.set(d.source.ready, 1)
    for t in range(4):
        b.tick("sys")
    got = 0
    for t in range(4):
        got = bv(got, 4) + bv(And(b.get(d.sink.ready)), 4) 
        got = got + bv(b.get(d.source.valid), 4)
        b.tick("sys")
    b.check("one pixel in and out per cycle when nothing stalls", eq(got, 8))
    return b.solve(timeout=600, validate=2)


def reset(K):
    """from ANY register state, one reset cycle restores the behaviour of a fresh actor"""
    d = make()
    b = Bench(d)
    for r in registers(b):
        b.inp(r)
    drive(b, d)
    b.inp(d.source.ready)
    b.set(d.reset, 1)
    b.tick("sys")
    b.set(d.reset, 0)
    from fv.sym import SymSim
    s = SymSim(b.design)
    for t in range(K):
        k = drive(b, d)
        r = b.inp(d.source.ready)
        for n, x in k.items():
            s.set(getattr(d.sink, n), x)
        s.set(d.source.ready, r)
        b.check("ready as fresh", Iff(b.get(d.sink.ready), s.get(d.sink.ready)))
        ov = bo(b.get(d.source.valid))
        b.check("valid as fresh", Iff(ov, s.get(d.source.valid)))
        for n in ("y", "cb", "cr"):
            b.check(n + " as fresh", Implies(ov, eq(b.get(getattr(d.source, n)), s.get(getattr(d.source, n)))))
        b.tick("sys")
        s.step(["sys"])
    return b.solve(timeout=600, validate=1)


def jobs(tier):
    K = 16 if tier == "thorough" else 12
    return [{"name": "tracked-even-%d" % K, "func": track, "kw": {"K": K, "odd": False}},
            {"name": "tracked-odd-%d" % K, "func": track, "kw": {"K": K, "odd": True}},
            {"name": "throughput", "func": throughput, "kw": {"K": K - 4}},
            {"name": "reset", "func": reset, "kw": {"K": 6}},
            {"name": "tracked-even after many pixels", "func": track, "kw": {"K": 8, "odd": False, "before": 4096}},
            {"name": "tracked-odd after many pixels", "func": track, "kw": {"K": 8, "odd": True, "before": 4096}}]
