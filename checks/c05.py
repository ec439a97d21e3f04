"""4:4:4 -> 4:2:2 resampling: for packets of contiguous pixel pairs, output k carries luma k and the mean of the pair's
Cb (even k) or Cr (odd k), whatever the idle gaps before the packet and the stalls.  Stalls: hold/free lemmas from
arbitrary register states; data: symbolic packets from an arbitrary register state, always-ready run."""
import z3
from fv.bench import *
from fv.pipe import *

FUNCTIONS = ["litevideo.csc.ycbcr444to422.YCbCr444to422 (YCbCr444to422Datapath)"]
BOUNDS = ("stalls: any schedule (lemmas); data: any history before, then 12 (quick) / 24 (thorough) cycles of symbolic "
          "packets; all 8-bit samples; packets of any length up to 4096 pixels")
ASSUMPTIONS = ["packets start with first and consist of pixel pairs without bubbles inside the packet",
               "Migen simulator semantics of the design"]


def make():
    from litevideo.csc.ycbcr444to422 import YCbCr444to422
    return YCbCr444to422()


def flow(T, stall):
    L = latency_of(make)
    d = make()
    b = Bench(d)
    if L is None:
        b.check("a pixel comes out", False)
        return b.solve(validate=0)
    if not stall:
        for r in registers(b):
            b.inp(r)
        # empty any in-flight garbage is not needed: obligations concern tokens entering from now on
    b.set(d.source.ready, 1)
    toks = []
    phase = z3.BoolVal(False)        # True: second pixel of a pair expected
    cont = z3.BoolVal(False)         # previous cycle completed a pair
    for t in range(T):
        k = drive(b, d)
        v, f = bo(k["valid"]), bo(k["first"])
        b.assume(Implies(phase, And(v, Not(f))))
        b.assume(Implies(And(Not(phase), v, Not(cont)), f))
        k["start"] = And(Not(phase), v)
        toks.append(k)
        if t >= L:
            k0 = toks[t - L]
            ok = bo(k0["valid"])
            b.check("valid follows", Iff(b.get(d.source.valid), ok))
            b.check("first follows", Implies(ok, Iff(b.get(d.source.first), k0["first"])))
            b.check("last follows", Implies(ok, Iff(b.get(d.source.last), k0["last"])))
            b.check("luma follows", Implies(ok, eq(b.get(d.source.y), k0["y"])))
            k1 = toks[t - L + 1]
            mean = z3.Extract(8, 1, bv(k0["cb"], 9) + bv(k1["cb"], 9))
            b.check("even pixel carries the Cb mean", Implies(k0["start"], eq(b.get(d.source.cb_cr), mean)))
            if t > L:
                kp = toks[t - L - 1]
                mean = z3.Extract(8, 1, bv(kp["cr"], 9) + bv(k0["cr"], 9))
                b.check("odd pixel carries the Cr mean", Implies(kp["start"], eq(b.get(d.source.cb_cr), mean)))
        cont = phase
        phase = And(Not(phase), v)
        b.tick("sys")
    b.cover("several pairs", And(*[toks[i]["start"] for i in (1, 3, 6, 8)]))
    return b.solve(timeout=300, validate=2)


def long_(N):
    """a packet of any even length up to N, then more pairs of it or new packets"""
    L = latency_of(make)
    d = make()
    b = Bench(d)
    if L is None:
        b.check("a pixel comes out", False)
        return b.solve(validate=0)
    b.set(d.source.ready, 1)
    b.set(d.sink.valid, 1)
    snaps = []
    px = [(7 * t & 255, 3 * (t // 2) & 255, 5 * (t // 2) & 255) for t in range(N)]
    for t in range(N):
        b.set(d.sink.first, int(t == 0))
        for n, x in zip(("y", "cb", "cr"), px[t]):
            b.set(getattr(d.sink, n), x)
        b.tick("sys")
        if t > L:
            u = t - L + 1                   # the pixel at the output
            b.check("valid follows", eq(b.get(d.source.valid), 1))
            b.check("luma follows", eq(b.get(d.source.y), px[u][0]))
            b.check("mean of the pair", eq(b.get(d.source.cb_cr), px[u][1 + u % 2]))
        if t % 2 and t > 2 * L:
            snaps.append(b.snap())
    r = b.solve(timeout=100, validate=0)
    if r.status != "held":
        return r
    b.jump(snaps, "pairs")
    b.set(d.source.ready, 1)
    b.set(d.sink.valid, 1)
    toks = []
    for t in range(6 + L):
        if t < 6:
            b.inp(d.sink.first, "first") if t % 2 == 0 else b.set(d.sink.first, 0)
            toks.append([b.inp(getattr(d.sink, n), n) for n in ("y", "cb", "cr")])
        if t >= L:
            u = t - L
            i = 1 + u % 2
            b.check("luma follows", eq(b.get(d.source.y), toks[u][0]))
            b.check("mean of the pair", eq(b.get(d.source.cb_cr), z3.Extract(8, 1, bv(toks[u & ~1][i], 9) + bv(toks[u | 1][i], 9))))
        b.tick("sys")
    return b.solve(timeout=300, validate=1, by_frame=True)


def stalls():
    inv = correspondences(make)
    r = lemma_hold(make, inv)
    if r.status == "held":
        r2 = lemma_free(make, inv)
        r.merge(r2)
    if r.status == "held":
        r.merge(empty_after_reset(make, latency_of(make)))
        return r
    if r.status == "violated":
        # the lemmas quantify over unreachable states: decide on runs from reset
        return stalled_run(14)
    return r


def stalled_run(T):
    """bounded run from reset with symbolic stalls: compare with the always-ready run of the same packet"""
    d = make()
    b = Bench(d)
    N = 6
    toks = [{n: b.var("%s%d" % (n, i), 8) for n in ("y", "cb", "cr")} for i in range(N)]
    i = 0
    o = 0
    IW = 4
    for t in range(T):
        iv = bv(i, IW)
        b.set(d.sink.valid, z3.ULT(iv, N))
        b.set(d.sink.first, iv == 0)
        for n in ("y", "cb", "cr"):
            e = toks[N - 1][n]
            for j in reversed(range(N - 1)):
                e = z3.If(iv == j, toks[j][n], e)
            b.set(getattr(d.sink, n), e)
        r = b.inp(d.source.ready)
        acc = And(z3.ULT(iv, N), b.get(d.sink.ready))
        ov = bo(b.get(d.source.valid))
        got_y, got_c = b.get(d.source.y), b.get(d.source.cb_cr)
        outv = bv(o, IW)
        b.check("no output before its pair is accepted", Implies(ov, z3.ULT(outv, iv)))
        for j in range(N):
            p, q = toks[j & ~1], toks[j | 1]
            n = "cb" if j % 2 == 0 else "cr"
            mean = z3.Extract(8, 1, bv(p[n], 9) + bv(q[n], 9))
            b.check("pixel under stalls", Implies(And(ov, outv == j), And(eq(got_y, toks[j]["y"]), eq(got_c, mean))))
        o = outv + bv(And(ov, r), IW)
        i = iv + bv(acc, IW)
        b.tick("sys")
    return b.solve(timeout=500, validate=2)


def jobs(tier):
    return [{"name": "pairs", "func": flow, "kw": {"T": 24 if tier == "thorough" else 12, "stall": False}},
            {"name": "stalls", "func": stalls},
            {"name": "packets of any length", "func": long_, "kw": {"N": 4096}}]
