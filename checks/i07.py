"""Input delay control and phase detection: symbolic received words / phase detector answers, symbolic software requests and
symbolic primitive busy times; the phase status, the delay lines' control pins and the busy flags compared with their
definition."""
import z3
from migen import *
from fv.bench import *
from fv.inst import instances, port, param, same_net
from checks.i06 import Top, bench, edges, outs, drive, guarded, need, follow

FUNCTIONS = ["litevideo.input.datacapture.S6DataCapture, S7DataCapture, S7PhaseDetector"]
BOUNDS = ("phase: two runs of 16 (quick) / 30 (thorough) words of any kind with an optional reset between, counter of 3 bits; a "
          "run of up to 140 equal words with the default 8 bits; delay requests: 4 / 8 requests of any kind, 2 more after any number up to 520 of them; clock ratios 1:1, "
          "1:2, 2:1")
ASSUMPTIONS = ["Migen simulator semantics of the design", "requests are at least 8 clocks of the slower domain apart; "
               "Spartan-6: software waits until not busy", "a delay line is busy from the clock after it took a request on",
               "software does not ask for both directions at once"]

RATIO = {"1:1": [("sys", "fast")], "2:1": [("sys",), ("sys", "fast")], "1:2": [("fast",), ("sys", "fast")]}


class Run:
    def __init__(self, fam, inv=0, ratio="1:1", **kw):
        self.m = m = Top(fam, inv, **kw)
        self.b = b = bench(m)
        self.fam, self.inv = fam, inv
        self.fast = "pix1p25x" if fam == "s7" else "pix2x"
        self.nets = outs(b, m)
        self.sched = RATIO[ratio]
        self.n = 0
        d = m.dut
        if fam == "s7":
            for x in (d._dly_ctl.re, d._dly_ctl.r, d._phase_reset.re):
                b.set(x, 0)
            self.dl = [self.delay(o) for o in (0, 1)]
        else:
            for x in (d._dly_ctl.re, d._dly_ctl.r, d._phase_reset.re):
                b.set(x, 0)
            dl = {param(x, "SERDES_MODE"): x for x in instances(b, "IODELAY2")}
            self.dl = [dl["MASTER"], dl["SLAVE"]]
            self.ser = [x for x in instances(b, "ISERDES2") if param(x, "SERDES_MODE") == "MASTER"][0]
            for x in self.dl:
                b.set(port(x, "BUSY"), 0)
            b.set(port(self.ser, "VALID"), 0)
            b.set(port(self.ser, "INCDEC"), 0)
        clk = "C" if fam == "s7" else "CLK"
        cds = {cd.name: cd for cd in b.design.cds}
        for e in ("sys", "pix", self.fast):
            if e in cds:
                b.sym.set(cds[e].clk, int(e == self.fast))
        need(all(b.sym.get(port(x, clk)) == 1 for x in self.dl), "delay lines are clocked by the domain that controls them")
        for e in ("sys", "pix", self.fast):
            if e in cds:
                b.sym.set(cds[e].clk, 0)

    def delay(self, i):
        b = self.b
        buf = instances(b, "IBUFDS_DIFF_OUT")[0]
        x = [p for p in instances(b, "IDELAYE2") if same_net(port(p, "IDATAIN"), port(buf, ("O", "OB")[i]))]
        need(len(x) == 1, "a delay line per input")
        return x[0]

    def next(self):
        """domains of the next step"""
        s = self.sched[self.n % len(self.sched)]
        self.n += 1
        return [self.fast if x == "fast" else x for x in s]

    def step(self, doms):
        edges(self.b, *doms)

    def words(self, m, s):
        """line levels seen by master and slave for one word (7-series)"""
        b = self.b
        drive(b, self.nets[0], [bits(m, 7 - k, 7 - k) for k in range(8)])
        drive(b, self.nets[1], [~bits(s, 7 - k, 7 - k) for k in range(8)])


def phase(fam, inv, ratio, K, nt=3):
    r = Run(fam, inv, ratio, ntbits=nt)
    b, d = r.b, r.m.dut
    W = 8
    half = 1 << (nt - 1)
    net = bvv(0, W)

    def count(up, dn):
        nonlocal net
        froz = Or(net == half - 1, net == -half)
        net = ite(froz, net, net + ite(up, bvv(1, W), bvv(0, W), W) - ite(dn, bvv(1, W), bvv(0, W), W), W)

    prev = bvv(0, 8)
    if fam == "s7":
        # a constant line first
        prev = b.var("level", 8)
        r.words(prev, prev)
        for i in range(4):
            r.step(r.next())
        # the change from the reset value counts as received word
        first = b.var("reset first")
        b.assume(first)
        b.set(d._phase_reset.re, 1)
        while True:
            x = r.next()
            r.step(x)
            if "sys" in x:
                break
        b.set(d._phase_reset.re, 0)
        for i in range(12):
            r.step(r.next())
    for ph in range(2):
        for t in range(K):
            doms = r.next()
            if fam == "s7":
                m, s = b.var("m", 8), b.var("s", 8)
                r.words(m, s)
                if r.fast in doms:
                    count(And(prev != m, m != s), And(prev != m, m == s))
                    prev = m
                else:
                    b.assume(And(m == prev, s == prev))
            else:
                busy = [b.inp(port(x, "BUSY"), "busy") for x in r.dl]
                v, i = b.inp(port(r.ser, "VALID"), "valid"), b.inp(port(r.ser, "INCDEC"), "incdec")
                if r.fast in doms:
                    q = And(v == 1, busy[0] == 0, busy[1] == 0)
                    count(And(q, i == 0), And(q, i == 1))
            r.step(doms)
        # calm
        if fam == "s7":
            r.words(prev, prev)
        else:
            b.set(port(r.ser, "VALID"), 0)
        for i in range(8):
            r.step(r.next())
        st = bv(b.get(d._phase.status), 2)
        b.check("late flag", Iff(bits(st, 0, 0) == 1, net == half - 1))
        b.check("early flag", Iff(bits(st, 1, 1) == 1, net == -half))
        b.cover("too late %d" % ph, net == half - 1)
        b.cover("too early %d" % ph, net == -half)
        b.cover("neither %d" % ph, net == 1)
        if ph == 0:
            z = b.var("reset", 1)
            while True:
                x = r.next()
                b.set(d._phase_reset.re, z)
                r.step(x)
                if "sys" in x:
                    break
            b.set(d._phase_reset.re, 0)
            for i in range(12):
                r.step(r.next())
            net = ite(z == 1, bvv(0, W), net, W)
    return b.solve(timeout=300, validate=2)


def long(fam, n=140):
    """a run of equal answers with the default counter"""
    r = Run(fam)
    b, d = r.b, r.m.dut
    late = b.var("late")
    num = b.var("num", 8)
    b.assume(z3.ULE(num, n))
    if fam == "s7":
        r.words(bvv(0, 8), bvv(0, 8))
        for i in range(3):
            r.step(r.next())
        b.set(d._phase_reset.re, 1)
        r.step(r.next())
        b.set(d._phase_reset.re, 0)
        for i in range(10):
            r.step(r.next())
        w = bvv(0, 8)
        for t in range(n):
            w = z3.If(z3.UGT(num, t), bvv(0xff if t % 2 == 0 else 0, 8), w)
            s = z3.If(late, ~w, w)
            r.words(w, s)
            r.step(r.next())
        r.words(w, w)
    else:
        for t in range(n):
            b.set(port(r.ser, "VALID"), z3.UGT(num, t))
            b.set(port(r.ser, "INCDEC"), Not(late))
            r.step(r.next())
        b.set(port(r.ser, "VALID"), 0)
    for i in range(6):
        r.step(r.next())
    st = bv(b.get(d._phase.status), 2)
    b.check("late flag", Iff(bits(st, 0, 0) == 1, And(late, z3.UGE(num, 127))))
    b.check("early flag", Iff(bits(st, 1, 1) == 1, And(Not(late), z3.UGE(num, 128))))
    b.cover("late", And(late, num == 130))
    return b.solve(timeout=300, validate=2)


def requests(fam, ratio, N, gap, before=0):
    r = Run(fam, 0, ratio)
    b, d = r.b, r.m.dut
    if before:
        # steps of both lines, one request after the other; then the state after any of them
        snaps = []
        if fam == "s7":
            r.words(bvv(0, 8), bvv(0, 8))
        for i in range(before):
            b.set(d._dly_ctl.re, 1)
            ops = ((4, "IC"), (5, "DC"), (0, "M"), (2, "S")) if fam == "s6" else ((1, "I0"), (2, "D0"), (3, "I1"), (4, "D1"))
            k, what = ops[i % 4]
            b.set(d._dly_ctl.r, 1 << k)
            n, busy = [0, 0], 0
            for t in range(gap):
                doms = r.next()
                for j, x in enumerate(r.dl):
                    e = b.get(port(x, "CE")) | (b.get(port(x, "CAL")) if fam == "s6" else 0)
                    if r.fast in doms:
                        n[j] += e
                        busy = 4 if e else busy
                r.step(doms)
                b.set(d._dly_ctl.re, 0)
                if fam == "s6":
                    busy = max(0, busy - 1)
                    for x in r.dl:
                        b.set(port(x, "BUSY"), int(busy > 0))
            want = {"IC": [1, 1], "DC": [1, 1], "M": [1, 0], "S": [0, 1]} if fam == "s6" else {"I0": [1, 0], "D0": [1, 0], "I1": [0, 1], "D1": [0, 1]}
            b.check("every line steps once per request", n == want[what])
            if fam == "s6":
                b.check("not busy in the end", eq(b.get(d._dly_busy.status), 0))
            snaps.append(b.snap())
        q = b.solve(timeout=60, validate=0)
        if q.status != "held":
            return q
        b.jump(snaps, "requests")
        for x in r.dl if fam == "s6" else ():
            b.set(port(x, "BUSY"), 0)
    W = 4
    one, zero = bvv(1, W), bvv(0, W)
    # what software can ask for: (bit, [(delay line, operation)])
    if fam == "s7":
        r.words(bvv(0, 8), bvv(0, 8))
        ctl = {0: [(0, "load"), (1, "load")], 1: [(0, "inc")], 2: [(0, "dec")], 3: [(1, "inc")], 4: [(1, "dec")]}
        both = [(1, 2), (3, 4)]
    else:
        ctl = {0: [(0, "cal")], 1: [(0, "rst")], 2: [(1, "cal")], 3: [(1, "rst")], 4: [(0, "inc"), (1, "inc")],
               5: [(0, "dec"), (1, "dec")]}
        both = [(4, 5)]
    asked = {(l, o): zero for x in ctl.values() for l, o in x}
    seen = dict(asked)
    busy = [bvv(0, 1)] * 2
    steps = gap * len(r.sched)
    for q in range(N):
        rest = None
        for t in range(steps):
            doms = r.next()
            req = False
            if t < len(r.sched) and "sys" in doms and rest is None:
                rest = t
                re, v = b.inp(d._dly_ctl.re, "re"), b.inp(d._dly_ctl.r, "r")
                req = re == 1
                for x, y in both:
                    b.assume(Not(And(req, bit(v, x), bit(v, y))))
                if fam == "s6":         # the primitives are done (software waits for that)
                    b.check("not busy when done", Implies(And(busy[0] == 0, busy[1] == 0),
                                                          eq(b.get(d._dly_busy.status), 0)))
                    b.assume(And(busy[0] == 0, busy[1] == 0))
                for i, l in ctl.items():
                    for lo in l:
                        asked[lo] = asked[lo] + ite(And(req, bit(v, i)), one, zero, W)
                askd = [Or(*[And(req, bit(v, i)) for i, l in ctl.items() if any(x == k and o != "rst" for x, o in l)])
                        for k in (0, 1)]
            else:
                b.set(d._dly_ctl.re, 0)
                b.inp(d._dly_ctl.r, "r idle")
            op = [False, False]
            for k, x in enumerate(r.dl):
                ce, inc = b.get(port(x, "CE")), b.get(port(x, "INC"))
                ev = {"inc": And(ce, inc), "dec": And(ce, Not(bo(inc)))}
                if fam == "s7":
                    ev["load"] = bo(b.get(port(x, "LD")))
                else:
                    ev["cal"], ev["rst"] = bo(b.get(port(x, "CAL"))), bo(b.get(port(x, "RST")))
                if r.fast in doms:
                    for o, e in ev.items():
                        seen[k, o] = seen[k, o] + ite(e, one, zero, W)
                        b.check("line %d %s only on request" % (k, o), z3.ULE(seen[k, o], asked[k, o]))
                    op[k] = Or(ev["inc"], ev["dec"], ev.get("cal", False))
            if fam == "s6" and r.fast in doms:
                nb = []
                for k in (0, 1):
                    hold = And(b.var("hold", 1) == 1, t < steps - 14 * len(r.sched))
                    nb.append(ite(Or(op[k], And(busy[k] == 1, hold)), bvv(1, 1), bvv(0, 1), 1))
            r.step(doms)
            if fam == "s6":
                if r.fast in doms:
                    busy = nb
                    for k, x in enumerate(r.dl):
                        b.set(port(x, "BUSY"), busy[k])
                st = bv(b.get(d._dly_busy.status), 2)
                out = [Or(*[asked[a] != seen[a] for a in asked if a[0] == k and a[1] != "rst"]) for k in (0, 1)]
                for k in (0, 1):
                    b.check("line %d busy until the primitive is" % k, Implies(Or(out[k], busy[k] == 1), bits(st, k, k) == 1))
        for a in asked:
            b.check("line %d %s once per request" % a, seen[a] == asked[a])
        if fam == "s6":
            b.check("not busy in the end", eq(b.get(d._dly_busy.status), 0))
    b.cover("two steps up", asked[0, "inc"] == 2)
    b.cover("up then down", And(asked[1, "inc"] == 1, asked[1, "dec"] == 1))
    return b.solve(timeout=400, validate=1)


def value(ratio, K=12, H=40):
    """delay counts read back (7-series)"""
    r = Run("s7", 0, ratio)
    b, d = r.b, r.m.dut
    r.words(bvv(0, 8), bvv(0, 8))
    regs = [d._cntvalueout_m, d._cntvalueout_s]
    was = [[bvv(0, 5)], [bvv(0, 5)]]
    for t in range(K + H * len(r.sched)):
        for k, x in enumerate(r.dl):
            v = b.inp(port(x, "CNTVALUEOUT"), "cnt") if t <= K else was[k][-1]
            was[k].append(v)
        doms = r.next()
        r.step(doms)
        for k in (0, 1):
            b.check("value was on the delay line", Or(*[eq(b.get(regs[k].status), x) for x in was[k][:K + 3]]))
    for k in (0, 1):
        b.check("settled value", eq(b.get(regs[k].status), was[k][-1]))
    b.cover("changed", was[0][-1] == 17)
    return b.solve(timeout=300, validate=2)


def jobs(tier):
    th = tier == "thorough"
    o = []
    K = 30 if th else 16
    for ra in RATIO:
        for fam in ("s7", "s6"):
            o.append({"name": "%s requests %s" % (fam, ra), "func": guarded(requests),
                      "kw": dict(fam=fam, ratio=ra, N=8 if th else 4, gap=22 if fam == "s6" else 10)})
            if ra == "1:1":
                o.append({"name": "%s after many requests" % fam, "func": guarded(requests),
                          "kw": dict(fam=fam, ratio=ra, N=2, gap=22 if fam == "s6" else 10, before=520)})
        o.append({"name": "s7 delay counts %s" % ra, "func": guarded(value), "kw": dict(ratio=ra)})
    for fam, inv, ra in (("s7", 0, "1:1"), ("s7", 1, "1:1"), ("s6", 0, "1:1"), ("s7", 0, "2:1"), ("s6", 0, "1:2")):
        o.append({"name": "%s phase inverted=%d %s" % (fam, inv, ra), "func": guarded(phase),
                  "kw": dict(fam=fam, inv=inv, ratio=ra, K=K)})
    for fam in ("s7", "s6"):
        o.append({"name": "%s long run" % fam, "func": guarded(long), "kw": dict(fam=fam)})
    return o
