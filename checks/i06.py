"""Deserialisers: a symbolic bit stream enters at the outputs of the vendor's input serialisers; the 10-bit words that
leave must be that stream, cut every ten bits at a constant place, nothing lost, repeated or exchanged, complemented on
inverted pads.  The place is learned from a concrete run, then required for every stream by the solver."""
import random
import z3
from migen import *
from fv.bench import *
from fv.inst import instances, port, param, same_net

FUNCTIONS = ["litevideo.input.datacapture.S6DataCapture, S7DataCapture (with Migen's Gearbox)"]
BOUNDS = ("every bit stream of 24 (quick) / 60 (thorough) words after reset; 7-series: every interleaving of the 5:4 clocks at "
          "half-tick resolution; 12 words of any bits after any number up to 4096 (a multiple of 16) of words")
ASSUMPTIONS = ["Migen simulator semantics of the design",
               "ISERDESE2 shows the first of eight bits on Q8, the last on Q1; cascaded ISERDES2 at 5:1 show the first bit on "
               "the slave's Q4 and the others on the master's Q1..Q4 (Xilinx user guides)"]


class Miswired(Exception):
    """the primitives are all there but not connected as the pads require"""


def need(c, what):
    if not c:
        raise Miswired(what)


def guarded(f):
    """a job whose miswired primitives are a violation"""
    def g(**kw):
        try:
            return f(**kw)
        except Miswired as e:
            b = Bench(Module())
            b.check(str(e), False)
            return b.solve(validate=0)
    return g


def follow(b, net, chain):
    """the instance reached from a net through primitives: chain of (type, input port, output port)"""
    for of, i, o in chain:
        assert len(instances(b, of)) == 2, "two %s" % of
        x = [p for p in instances(b, of) if port(p, i) is not None and same_net(port(p, i), net)]
        need(len(x) == 1, "one %s behind the pad" % of)
        net = port(x[0], o) if o else x[0]
    return net


class Top(Module):
    def __init__(self, fam, inv, **kw):
        from litevideo.input.datacapture import S6DataCapture, S7DataCapture
        self.clock_domains.cd_pix = ClockDomain()
        if fam == "s7":
            self.clock_domains.cd_pix1p25x = ClockDomain()
            self.clock_domains.cd_pix5x = ClockDomain(reset_less=True)
        else:
            self.clock_domains.cd_pix2x = ClockDomain()
            self.clock_domains.cd_pix10x = ClockDomain(reset_less=True)
        self.p, self.n = Signal(name="pad_p"), Signal(name="pad_n")
        if inv:
            self.p.inverted = True
        self.submodules.dut = (S7DataCapture if fam == "s7" else S6DataCapture)(self.p, self.n, **kw)
        self.fam = fam


def bench(m, **kw):
    m.finalize()
    doms = sorted({cd.name for cd in m._fragment.clock_domains} | {"sys"})
    b = Bench(m, domains=doms, cut=False, **kw)
    # clock domains the design derives from others tick with them
    cds = {cd.name: cd for cd in b.design.cds}
    base = ["sys", "pix", "pix2x"] if m.fam == "s6" else ["sys", "pix", "pix1p25x"]
    b.group = {d: [d] for d in base}
    for d in base:
        for e in base:
            if e in cds:
                b.sym.set(cds[e].clk, int(e == d))
        for n, cd in cds.items():
            if n not in base and b.sym.get(cd.clk) == 1:
                b.group[d].append(n)
    for e in base:
        if e in cds:
            b.sym.set(cds[e].clk, 0)
    return b


def edges(b, *doms):
    b.tick([x for d in doms for x in b.group[d]])


def configured(b, x, levels=(), params=()):
    """constant inputs and parameters of a primitive without which it does not do what the harness takes it to do"""
    for n, v in levels:
        e = port(x, n)
        if e is not None:
            need(z3.is_true(z3.simplify(bv(b.get(e), 1) == v)), "%s.%s is %d" % (x.of, n, v))
    for n, v in params:
        e = param(x, n)
        need(getattr(e, "value", e) == v, "%s parameter %s is %s" % (x.of, n, v))


def outs(b, m):
    """bits of one deserialiser word in order of arrival; lines of the slave (7-series)"""
    if m.fam == "s7":
        buf = [x for x in instances(b, "IBUFDS_DIFF_OUT") if same_net(port(x, "I"), m.p)]
        assert len(instances(b, "IBUFDS_DIFF_OUT")) == 1
        need(len(buf) == 1 and same_net(port(buf[0], "IB"), m.n), "pads reach the input buffer")
        r = []
        for o in ("O", "OB"):
            s = follow(b, port(buf[0], o), [("IDELAYE2", "IDATAIN", "DATAOUT"), ("ISERDESE2", "DDLY", None)])
            configured(b, s, [("BITSLIP", 0), ("CE1", 1)], [("DATA_WIDTH", 8), ("DATA_RATE", "DDR"), ("IOBDELAY", "IFD")])
            r.append([port(s, "Q%d" % k) for k in range(8, 0, -1)])
        for x in instances(b, "IDELAYE2"):
            configured(b, x, [("LDPIPEEN", 0)], [("DELAY_SRC", "IDATAIN"), ("IDELAY_TYPE", "VARIABLE")])
        return r
    buf = [x for x in instances(b, "IBUFDS") if same_net(port(x, "I"), m.p)]
    assert len(instances(b, "IBUFDS")) == 1 and len(instances(b, "IODELAY2")) == 2 and len(instances(b, "ISERDES2")) == 2
    need(len(buf) == 1 and same_net(port(buf[0], "IB"), m.n), "pads reach the input buffer")
    dl = {param(x, "SERDES_MODE"): x for x in instances(b, "IODELAY2") if same_net(port(x, "IDATAIN"), port(buf[0], "O"))}
    se = {k: [y for y in instances(b, "ISERDES2") if same_net(port(y, "D"), port(dl[k], "DATAOUT"))] for k in dl}
    need(sorted(dl) == sorted(se) == ["MASTER", "SLAVE"] and
         all(len(se[k]) == 1 and param(se[k][0], "SERDES_MODE") == k for k in se), "delays and serialisers in pairs")
    ma, sl = se["MASTER"][0], se["SLAVE"][0]
    for x in (ma, sl):
        configured(b, x, [("BITSLIP", 0), ("CE0", 1), ("RST", 0)], [("DATA_WIDTH", 5), ("DATA_RATE", "SDR")])
    need(same_net(port(ma, "SHIFTOUT"), port(sl, "SHIFTIN")) and same_net(port(sl, "SHIFTOUT"), port(ma, "SHIFTIN")), "serialisers cascaded")
    for x in dl.values():
        configured(b, x, [("T", 1)], [("DELAY_SRC", "IDATAIN"), ("DATA_RATE", "SDR")])
    return [[port(sl, "Q4")] + [port(ma, "Q%d" % k) for k in range(1, 5)]]


def put(b, net, v):
    b.set(net, v)


def drive(b, nets, vals):
    """drive wires that may be slices of one signal"""
    sigs = {}
    for n, v in zip(nets, vals):
        if isinstance(n, Signal):
            b.set(n, v)
        else:
            s = n.value
            w = sigs.setdefault(s.duid, (s, [0] * s.nbits))[1]
            for k in range(n.start, n.stop):
                w[k] = v
    for s, w in sigs.values():
        if all(isinstance(x, int) for x in w):
            b.set(s, sum(x << i for i, x in enumerate(w)))
        else:
            b.set(s, z3.Concat(*[bv(x, 1) for x in reversed(w)]))


def schedule(fam, words, phase):
    """list of sets of domains with a clock edge, in time order"""
    if fam == "s6":
        return [s for _ in range(words) for s in ({"pix2x"}, {"pix", "pix2x"})]
    ev = {}
    a, c = max(0, -phase), max(0, phase)
    for k in range(words):
        ev.setdefault(a + 10 * k, set()).add("pix")
    for k in range(words * 5 // 4):
        ev.setdefault(c + 8 * k, set()).add("pix1p25x")
    return [ev[t] for t in sorted(ev)]


def run(m, words, phase, source):
    b = bench(m)
    fast = "pix2x" if m.fam == "s6" else "pix1p25x"
    nets = outs(b, m)
    stream, got = [], []
    n = len(nets[0])

    def fresh():
        w = source(b, n)
        stream.extend(w)
        drive(b, nets[0], w)
        for x in nets[1:]:
            drive(b, x, [1 ^ y if isinstance(y, int) else ~y for y in w])
    fresh()
    for doms in schedule(m.fam, words, phase):
        edges(b, *sorted(doms))
        if fast in doms:
            fresh()
        if "pix" in doms:
            got.append(b.get(m.dut.d))
    return b, stream, got


def job(fam, inv, phase=0, words=24):
    m = Top(fam, inv)
    rnd = random.Random(1)
    _, st, got = run(m, words, phase, lambda b, n: [rnd.getrandbits(1) for i in range(n)])
    skip = 8 if fam == "s7" else 3

    def fits(off):
        for k in range(skip, words):
            w = [st[i] ^ inv if 0 <= i < len(st) else None for i in range(10 * k + off, 10 * k + off + 10)]
            if [got[k] >> i & 1 for i in range(10)] != w:
                return False
        return True
    offs = [o for o in range(-120, 20) if fits(o)]
    off = offs[0] if offs else -40
    b, st, got = run(m, words, phase, lambda b, n: [b.var("bit", 1) for i in range(n)])
    for k in range(skip, words):
        for i in range(10):
            x = st[10 * k + off + i]
            b.check("every bit once and in order", eq(bits(bv(got[k], 10), i, i), ~x if inv else x))
    b.cover("mixed word", eq(bv(got[-1], 10), 0x155))
    return b.solve(timeout=120, validate=2)


def long_(fam, n):
    """any bits after n words (or any multiple of 16 words less)"""
    m = Top(fam, 0)
    rnd = random.Random(1)
    _, st, got = run(m, 24, 0, lambda b, k: [rnd.getrandbits(1) for i in range(k)])
    offs = [o for o in range(-120, 20) if all([got[k] >> i & 1 for i in range(10)] == [st[i] if 0 <= i < len(st) else None
                                              for i in range(10 * k + o, 10 * k + o + 10)] for k in range(8, 24))]
    off = offs[0] if offs else -40
    b = bench(m)
    fast = "pix2x" if fam == "s6" else "pix1p25x"
    nets = outs(b, m)
    w = len(nets[0])
    pat = [rnd.getrandbits(1) for i in range(40)]
    stream, got, snaps = [], [], []

    def fresh(x):
        stream.extend(x)
        drive(b, nets[0], x)
        for y in nets[1:]:
            drive(b, y, [1 ^ v if isinstance(v, int) else ~v for v in x])

    fresh(pat[:w])
    jumped = False
    base = len(schedule(fam, 16, 0))
    words = 0
    for i, doms in enumerate(schedule(fam, n, 0)):
        edges(b, *sorted(doms))
        if fast in doms:
            k = len(stream) % 40
            fresh(pat[k:k + w])
        if "pix" in doms:
            words += 1
            if words > 12:
                v = b.get(m.dut.d)
                p = 10 * (words - 1) + off
                b.check("every bit once and in order", eq(v, sum(pat[(p + j) % 40] << j for j in range(10))))
        if (i + 1) % base == 0 and words > 12:
            snaps.append(b.snap())
    r = b.solve(timeout=60, validate=0)
    if r.status != "held":
        return r
    b.jump(snaps, "periods")
    stream = list(pat[:w])
    drive(b, nets[0], stream)
    for y in nets[1:]:
        drive(b, y, [1 ^ v for v in stream])
    for doms in schedule(fam, 12, 0):
        edges(b, *sorted(doms))
        if fast in doms:
            fresh([b.var("bit", 1) for i in range(w)])
        if "pix" in doms:
            got.append(b.get(m.dut.d))
    for k in range(12):
        for i in range(10):
            p = 10 * k + off + i
            b.check("every bit once and in order", eq(bits(bv(got[k], 10), i, i), stream[p] if p >= 0 else pat[p % 40]))
    return b.solve(timeout=200, validate=1)


def phases(fam, inv, words, ph):
    r = Result()
    for p in ph:
        r.merge(job(fam, inv, p, words))
    return r


def jobs(tier):
    w = 60 if tier == "thorough" else 24
    o = []
    for fam in ("s7", "s6"):
        o.append({"name": fam + " after many words", "func": guarded(long_), "kw": dict(fam=fam, n=4096)})
    for inv in (0, 1):
        o.append({"name": "s6 5:10 inverted=%d" % inv, "func": guarded(job), "kw": dict(fam="s6", inv=inv, words=w)})
        for i in range(3):
            o.append({"name": "s7 8:10 inverted=%d phases %d" % (inv, i), "func": guarded(phases),
                      "kw": dict(fam="s7", inv=inv, words=w, ph=list(range(-9, 9))[i::3])})
    return o
