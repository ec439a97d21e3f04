"""Channel alignment: three channels carrying the same lines with any skew of 0..7 words each, starting from an
arbitrary history (any control flags), symbolic skews or symbolic control/active lengths of every line.  After the second control period the outputs of the three channels show the same source word in every cycle,
advance by one word per cycle and stay flagged as synchronised."""
import z3
from migen import *
from fv.bench import *
from fv.pipe import havoc, registers

FUNCTIONS = ["litevideo.input.chansync.ChanSync (with _SyncBuffer)"]
BOUNDS = ("8 cycles of arbitrary history, then 3 lines: every skew 0..7 of each channel with fixed line lengths (1 quick "
          "/ 4 thorough shapes), and every line length (control 12..15, active 16..19) with fixed skews (2 / 8)")
ASSUMPTIONS = ["Migen simulator semantics of the design",
               "skew between channels is constant during the observed lines; control periods last >= 12 words (DVI), active periods >= 16"]


def mk():
    from litevideo.input.chansync import ChanSync
    return ChanSync()


def align(skews, lengths, pre):
    """skews: three ints or None (symbolic); lengths: [(control, active)]*3 or None (symbolic, 12..15 / 16..19)"""
    m = mk()
    b = Bench(m, domains=["pix", "sys"])
    # arbitrary history: words with arbitrary control flags, any valid
    for t in range(pre):
        for i in range(3):
            b.inp(getattr(m, "data_in%d" % i).de, "history")
        b.inp(m.valid_i, "history")
        b.tick("pix")
    sk = [b.var("skew%d" % i, 3) if s is None else s for i, s in enumerate(skews)]
    bounds = [bvv(8, 8)]                      # indices 0..7 precede the first control period
    maxlen = 8
    for l in range(3):
        for j, (nm, lo) in enumerate((("ctl", 12), ("act", 16))):
            if lengths is None:
                f = z3.BitVec("bound%d" % len(bounds), 8)
                b.constraints.append(f == bounds[-1] + bv(b.var("%s%d" % (nm, l), 2), 8) + lo)
                bounds.append(f)
                maxlen += lo + 3
            else:
                bounds.append(z3.simplify(bounds[-1] + lengths[l][j]))
                maxlen += lengths[l][j]
    T = maxlen - 16
    word = {}
    for idx in range(T + 8):
        i8 = bvv(idx & 255, 8)
        f = z3.simplify(z3.Or(*[z3.And(z3.UGE(i8, bounds[2 * l]), z3.ULT(i8, bounds[2 * l + 1])) for l in range(3)]))
        if not (z3.is_true(f) or z3.is_false(f)):
            g = z3.Bool("ctl_of_%d" % idx)
            b.constraints.append(g == f)
            f = g
            word[idx] = (Not(f), idx)
        else:
            word[idx] = (z3.is_false(f), idx)
    b.set(m.valid_i, 1)
    prev = None
    for t in range(T):
        for i in range(3):
            di = getattr(m, "data_in%d" % i)
            if isinstance(sk[i], int):
                w = word[t + 7 - sk[i]]
                de, d = w[0], bvv(w[1] & 255, 8)
            else:
                de, d = False, 0
                for s in reversed(range(8)):
                    k = t + 7 - s
                    de = ite(sk[i] == s, bv(word[k][0], 1), bv(de, 1), 1)
                    d = ite(sk[i] == s, bvv(word[k][1] & 255, 8), bv(d, 8), 8)
            b.set(di.de, de)
            b.set(di.d, d)
            b.set(di.raw, cat((d, 8), (0, 2)))
            b.set(di.c, bits(bv(d, 8), 1, 0))
        if t + 7 >= 16:
            o = [getattr(m, "data_out%d" % i) for i in range(3)]
            now = bv(t + 7 - 16, 8)
            settled = z3.simplify(z3.And(z3.UGE(now, bounds[3]), z3.ULT(bvv(t, 8), bounds[6])))
            if z3.is_false(settled):
                prev = None
                b.tick("pix")
                continue
            ds = [b.get(x.d) for x in o]
            des = [bo(b.get(x.de)) for x in o]
            # the second control period is over for every channel
            for i in (1, 2):
                b.check("channel %d shows the same word as channel 0" % i,
                        Implies(settled, And(eq(ds[0], ds[i]), Iff(des[0], des[i]))))
            if prev is not None:
                b.check("one word per cycle", Implies(settled, eq(ds[0], bv(prev, 8) + 1)))
            b.check("synchronised", Implies(settled, eq(b.get(m.chan_synced), 1)))
            prev = ds[0]
        b.tick("pix")
    b.cover("a run exists", True)
    return b.solve(timeout=700, validate=1)


def integrity(N):
    """words pass unchanged and in order through each channel once aligned (all data)"""
    m = mk()
    b = Bench(m, domains=["pix", "sys"])
    b.set(m.valid_i, 1)
    hist = []
    L = 8
    for t in range(N):
        w = []
        for i in range(3):
            di = getattr(m, "data_in%d" % i)
            b.set(di.de, 1)
            w.append((b.inp(di.raw), b.inp(di.d), b.inp(di.c)))
        hist.append(w)
        if t >= L:
            for i in range(3):
                o = getattr(m, "data_out%d" % i)
                for s, x in zip((o.raw, o.d, o.c), hist[t - L][i]):
                    b.check("channel %d passes the word" % i, eq(b.get(s), x))
                b.check("channel %d passes de" % i, eq(b.get(o.de), 1))
        b.tick("pix")
    return b.solve(timeout=100, validate=1)


def flag():
    """chan_synced: dropped when the input is invalid or the channels' control periods disagree, from any state"""
    m = mk()
    b = Bench(m, domains=["pix", "sys"])
    havoc(b)
    v = b.inp(m.valid_i, "valid")
    for i in range(3):
        b.inp(getattr(m, "data_in%d" % i).de)
    c = [Not(b.get(getattr(m, "data_out%d" % i).de)) for i in range(3)]
    before = bo(b.get(m.chan_synced))
    b.tick("pix")
    a = bo(b.get(m.chan_synced))
    ref = And(v, Or(And(*c), And(Not(Or(*c)), before)))
    b.check("flag", Iff(a, ref))
    for _ in range(4):
        b.tick("sys")
    b.check("software reads the flag", Iff(b.get(m._channels_synced.status), a))
    return b.solve(timeout=100, validate=2)


def jobs(tier):
    js = [{"name": "passes-all-data", "func": integrity, "kw": {"N": 18}}, {"name": "flag", "func": flag}]
    shapes = [[(13, 18), (12, 17), (15, 20)]]
    fixed = [(0, 3, 7), (7, 0, 1)]
    if tier == "thorough":
        shapes += [[(12, 16), (12, 16), (12, 16)], [(20, 19), (14, 23), (17, 16)], [(16, 32), (24, 17), (12, 40)]]
        fixed += [(0, 0, 0), (1, 7, 0), (5, 0, 2), (0, 6, 6), (7, 7, 0), (4, 2, 0)]
    for n, L in enumerate(shapes):
        for h in range(3):
            sk = [None] * 3
            sk[h] = 0
            js.append({"name": "align-any-skew-channel%d-first-shape%d" % (h, n), "func": align,
                       "kw": {"skews": sk, "lengths": L, "pre": 8}})
    for sk in fixed:
        js.append({"name": "align-any-lengths-skew%d%d%d" % sk, "func": align,
                   "kw": {"skews": list(sk), "lengths": None, "pre": 8}})
    return js
