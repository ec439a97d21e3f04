"""Character alignment.  Acquisition: from an arbitrary state, a serial stream cut at any of the 10 bit offsets whose
control period has 12 words is recovered word by word (any control codes, any data after).  Stability: the alignment
only ever changes after a control word was visible at the new offset in 8 consecutive cycles."""
import z3
from migen import *
from fv.bench import *
from fv.pipe import havoc

FUNCTIONS = ["litevideo.input.charsync.CharSync"]
BOUNDS = "acquisition: 12 control words + 6 (quick) / 24 (thorough) words; stability: 20 / 32 cycles from any state; lines of any length up to 16383 (quick) / 131071 (thorough) words"
ASSUMPTIONS = ["Migen simulator semantics of the design",
               "the serial stream keeps its bit offset; control periods last >= 12 words (DVI 1.0)"]
CTL = [0b1101010100, 0b0010101011, 0b0101010100, 0b1010101011]


def mk():
    from litevideo.input.charsync import CharSync
    return CharSync()


def is_ctl(w):
    return z3.Or(*[w == c for c in CTL])


def at_offset(cur, prev, k, K=10):
    """raw word of a stream whose words start at bit offset k (int or symbolic)"""
    def one(j):
        if j == 0:
            return cur
        return z3.Concat(z3.Extract(9 - j, 0, cur), z3.Extract(9, 10 - j, prev))
    if isinstance(k, int):
        return one(k)
    e = one(9)
    for j in reversed(range(9)):
        e = z3.If(k == j, one(j), e)
    return e


class Seen:
    """control words seen at each offset in consecutive cycles; moved = eight in a row at another offset than k,
    before = the same up to the previous cycle"""

    def __init__(self, b, k):
        self.b, self.k = b, k
        self.run = [z3.If(bo(eq(bv(k, 4), i)), bvv(8, 4), bvv(0, 4)) for i in range(10)]
        self.moved = self.before = z3.BoolVal(False)
        self.t = 0

    def step(self, win):
        self.before = self.moved
        new = []
        for i in range(10):
            x = z3.If(is_ctl(z3.Extract(i + 9, i, win)),
                      z3.If(self.run[i] == 8, bvv(8, 4), self.run[i] + 1), bvv(0, 4))
            f = z3.BitVec("run%d_%d" % (i, self.t), 4)
            self.b.constraints.append(f == x)
            new.append(f)
        self.run = new
        self.moved = z3.Bool("moved%d" % self.t)
        self.b.constraints.append(self.moved == z3.Or(self.before, *[z3.And(bo(new[i] == 8), z3.Not(bo(eq(bv(self.k, 4), i))))
                                                                    for i in range(10)]))
        self.t += 1


def status(b, m, k, seen):
    """what software reads a few system clocks later"""
    for _ in range(4):
        b.tick("sys")
    b.check("software reads synchronised", eq(bv(b.get(m._char_synced.status), 1), 1))
    b.check("software reads the offset", z3.Or(seen.moved, eq(bv(b.get(m._ctl_pos.status), 4), bv(k, 4))))


def acquire(n, k=None, first=False):
    m = mk()
    b = Bench(m, domains=["pix", "sys"])
    havoc(b)
    if k is None:
        k = b.var("offset", 4)
        b.assume(z3.ULT(k, 10))
    NC = 12
    prev = b.var("before", 10)
    words = [prev]
    last = None
    seen = Seen(b, k)
    for t in range(NC + n):
        w = b.var("word", 10)
        if t < NC:
            b.assume(is_ctl(w))
        raw = at_offset(w, words[-1], k)
        b.set(m.raw_data, raw)
        words.append(w)
        if last is not None and t > NC:
            seen.step(z3.Concat(raw, last))
        last = raw
        b.tick("pix")
        # words[-1] is only completely received one raw word later
        if t >= NC + 1:
            b.check("synchronised", eq(b.get(m.synced), 1))
            b.check("words recovered", z3.Or(seen.before, eq(b.get(m.data), words[t])))
    b.cover("data follows", z3.Not(is_ctl(words[-1])))
    status(b, m, k, seen)
    return b.solve(timeout=600, validate=1)


def stable(n):
    """whatever is received: the aligned output follows a fixed offset unless 8 consecutive cycles showed a control
    word at another offset; and a lost alignment is always to such an offset"""
    m = mk()
    b = Bench(m, domains=["pix", "sys"])
    k = b.var("offset", 4)
    b.assume(z3.ULT(k, 10))
    # reach alignment k by a control period of 13 words, then anything
    prev = b.var("before", 10)
    words = [prev]
    c = b.var("code", 2)
    tok = bvv(CTL[0], 10)
    for i in range(1, 4):
        tok = z3.If(c == i, bvv(CTL[i], 10), tok)
    for t in range(13):
        b.set(m.raw_data, at_offset(tok, words[-1], k))
        words.append(tok)
        b.tick("pix")
    raws = [at_offset(words[-1], words[-2], k)]
    seen = Seen(b, k)
    for t in range(n):
        r = b.inp(m.raw_data, "raw")
        win = z3.Concat(r, raws[-1])
        raws.append(r)
        seen.step(win)
        b.tick("pix")
        exp = z3.Extract(9, 0, z3.LShR(win, z3.ZeroExt(16, k)))
        # a move is only legitimate after a full run somewhere else
        b.check("output keeps its alignment", z3.Or(seen.before, eq(b.get(m.data), exp)))
        b.check("stays synchronised", eq(b.get(m.synced), 1))
    b.cover("still aligned after all", z3.Not(seen.moved))
    status(b, m, k, seen)
    return b.solve(timeout=600, validate=1)


def long_(k, n):
    """once aligned: after data of any length up to n words"""
    m = mk()
    b = Bench(m, domains=["pix", "sys"])
    data = 0b0111110000
    prev = CTL[0]
    snaps = []

    def put(w, prev):
        b.set(m.raw_data, z3.simplify(at_offset(bv(w, 10), bv(prev, 10), k)).as_long())
        b.tick(["pix", "sys"])

    for t in range(14 + n):
        w = CTL[t % 2] if t < 14 else data
        put(w, prev)
        prev = w
        if t >= 14:
            snaps.append(b.snap())
    b.jump(snaps)
    words = [bvv(data, 10)]
    seen = Seen(b, k)
    last = bvv(sum(((data >> i & 1) << ((i + k) % 10)) for i in range(10)), 10)
    for t in range(6):
        w = b.var("word", 10)
        raw = at_offset(w, words[-1], k)
        b.set(m.raw_data, raw)
        words.append(w)
        seen.step(z3.Concat(raw, last))
        last = raw
        b.tick(["pix", "sys"])
        b.check("stays synchronised", eq(b.get(m.synced), 1))
        b.check("words recovered", z3.Or(seen.before, eq(b.get(m.data), words[t])))
    status(b, m, k, seen)
    return b.solve(timeout=300, validate=1)


def jobs(tier):
    n = 24 if tier == "thorough" else 6
    return [{"name": "acquire-any-offset", "func": acquire, "kw": {"n": n}},
            {"name": "stable", "func": stable, "kw": {"n": 32 if tier == "thorough" else 20}}] + [
            {"name": "after long lines, offset %d" % k, "func": long_,
             "kw": {"k": k, "n": 131071 if tier == "thorough" else 16383}} for k in (3, 8)]
