"""Status registers of the assembled receiver: a link with known offsets, skews, frames and errors, symbolic in its contents,
error flags and software's accesses, and what software reads about it lane by lane."""
import z3
from checks.hin import *
from checks.i01 import feed, bench, legal

FUNCTIONS = ["litevideo.input.HDMIIn (wiring of CharSync, WER, ChanSync, SyncPolarity, ResolutionDetection and their registers)"]
BOUNDS = ("frames of 2 or 3 lines of 4 or 5 (thorough: 4..9) pixels of any colour, three receiver kinds, bit offsets and skews as named; error windows "
          "scaled to 2^4 words, every combination of disturbed lanes and software updates")
ASSUMPTIONS = ["Migen simulator semantics of the design", "vendor deserialiser and clocking primitives replaced by word inputs",
               "error counter window scaled from 2^24 to 2^4 words (the class is constructed with that parameter)"]
BAD, GOOD = 0b1111101010, 0b0111000101      # no mixture of them contains a control word at any offset


def frames(b, hdmi, dvimode, w, h, pol, tail):
    """words per cycle: two frames of h lines of w pixels, one more vertical sync, and tail(n) at the end"""
    hs, vs = pol & 1, pol >> 1
    seq = []

    def blank(k, pre=0, v=False):
        for i in range(k):
            c0 = (vs ^ int(v and 4 <= i < 8)) << 1 | (hs ^ int(2 <= i < 5))
            seq.append((CTL[c0], CTL[0] if i < k - pre else CTL[1], CTL[0]))
        if hdmi and not dvimode and pre:
            seq.extend([tuple(VGB)] * 2)

    blank(16, 8)
    seq.extend([(GOOD,) * 3] * 20)
    blank(24, 8)
    seq.extend([(GOOD,) * 3] * 20)
    blank(24, 8)
    seq.extend([(GOOD,) * 3] * 20)
    marks = []
    for f in range(2):
        blank(30, 8, v=True)
        for y in range(h):
            for x in range(w):
                seq.append(tuple(z3.Concat(b.var("px", 3), bvv(0, 2), b.var("px", 3), bvv(3, 2)) for k in range(3)))
            blank(16, 8 if y < h - 1 else 0)
    blank(30, 8 if tail else 0, v=True)
    marks.append(len(seq))
    if tail:
        seq.extend(tail)
    blank(12)
    return [(x,) for x in seq], marks[0]


def resolution(hdmi, dvimode, w, h, pol, off, skew):
    m = hdmi_in(hdmi=hdmi)
    b = bench(m, hdmi, dvimode)
    seq, end = frames(b, hdmi, dvimode, w, h, pol, None)
    for t in range(len(seq)):
        feed(b, m, seq, skew, t, off)
        if t == 0:
            for i in range(3):
                b.check("lane %d not yet synchronised" % i, eq(b.get(getattr(m, "data%d_charsync" % i)._char_synced.status), 0))
            b.check("channels not yet synchronised", eq(b.get(m.chansync._channels_synced.status), 0))
        b.tick(DOM)
    for i in range(3):
        c = getattr(m, "data%d_charsync" % i)
        b.check("lane %d synchronised" % i, eq(b.get(c._char_synced.status), 1))
        b.check("offset of lane %d" % i, eq(bv(b.get(c._ctl_pos.status), 4), off[i]))
    b.check("channels synchronised", eq(b.get(m.chansync._channels_synced.status), 1))
    r = m.resdetection
    b.check("horizontal resolution", eq(b.get(r._hres.status), w))
    b.check("vertical resolution", eq(b.get(r._vres.status), h))
    return b.solve(timeout=200, validate=1)


def errors(hdmi, dvimode, off):
    import litevideo.input.wer as wer
    orig = wer.WER

    def scaled(*a, **k):
        return orig(period_bits=4)
    wer.WER = scaled
    try:
        m = hdmi_in(hdmi=hdmi)
    finally:
        wer.WER = orig
    b = bench(m, hdmi, dvimode)
    bad = [b.var("lane%d_disturbed" % i, 1) for i in range(3)]
    upd = [b.var("update%d" % i, 1) for i in range(3)]
    word = lambda e: z3.Concat(*[e if BAD >> k & 1 and not GOOD >> k & 1 else ~e if GOOD >> k & 1 and not BAD >> k & 1 else bvv(BAD >> k & 1, 1)
                                 for k in reversed(range(10))])
    seq, end = frames(b, hdmi, dvimode, 4, 1, 0, [tuple(word(e) for e in bad)] * 70)
    wer = [getattr(m, "data%d_wer" % i) for i in range(3)]
    for t in range(end + 68):
        feed(b, m, seq, (0, 0, 0), t, off)
        for i in range(3):
            b.set(wer[i]._update.re, upd[i] if t == end + 67 else 0)
            b.check("lane %d: nothing before an update" % i, eq(b.get(wer[i]._value.status), 0))
        b.tick(DOM)
    for i in range(3):
        v = bv(b.get(wer[i]._value.status), 8)
        on = And(upd[i] == 1, bad[i] == 1)
        b.check("errors of lane %d" % i, And(Implies(on, z3.UGE(v, 15)), Implies(Not(on), v == 0)))
    b.cover("only lane 1", And(bad[0] == 0, bad[1] == 1, bad[2] == 0))
    return b.solve(timeout=200, validate=1)


def jobs(tier):
    kinds = [("dvi", False, False), ("hdmi", True, False), ("hdmi in dvi mode", True, True)]
    js = []
    offs = [(0, 4, 9), (7, 1, 3), (2, 8, 5), (6, 6, 0)]
    sk = [(0, 0, 0), (1, 0, 2), (0, 1, 0)]
    dims = [(4, 2), (5, 3)] + ([(9, 2), (6, 4), (8, 1)] if tier == "thorough" else [])
    for k, (n, h, d) in enumerate(kinds):
        for j, (x, y) in enumerate(dims):
            o, s, p = offs[(k + j) % 4], sk[(k + 2 * j) % 3], (k + j) % 4
            js.append({"name": "%s %dx%d polarity %d bits%d%d%d skew%d%d%d" % ((n, x, y, p) + o + s), "func": resolution,
                       "kw": dict(hdmi=h, dvimode=d, w=x, h=y, pol=p, off=o, skew=s)})
        js.append({"name": "error counters " + n, "func": errors, "kw": dict(hdmi=h, dvimode=d, off=offs[k])})
    return js
