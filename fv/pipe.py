"""Decides stream integrity of stall-able pipelines (one token out per token in, in order, each output a function
of its own token only, under every valid/ready schedule).

Three solver lemmas over the elaborated design give it for schedules of any length:
  hold : from ANY register state, output valid and not ready  => sink not ready and no register changes
  free : from ANY register state, output not valid or ready   => sink ready, and the step does not depend on ready
  flow : always ready, ANY initial register state, symbolic valid/payload: what leaves L cycles after a token
         entered is exactly what the same token produces alone in a reset pipeline (and nothing else leaves)
A schedule is then a stuttering of the always-ready run.  If a lemma fails (it quantifies over unreachable states
too), the bounded scoreboard run below decides instead, and only its counterexamples are reported.
"""
import z3

from .bench import *
from .stream import payload, isolated
from .sym import EncodeError, same, BigMem


def registers(b):
    return [b.design.sig[k] for k in b.design.sync if not isinstance(b.design.sig[k], BigMem)]


def havoc(b, inv=None):
    """arbitrary register state satisfying the inductive invariant (register equalities and constants)"""
    vals = {}
    for r in registers(b):
        vals[r.duid] = r
    done = {}
    for cls in (inv or []):
        rep = cls[0]
        if cls[1] is not None:           # constant
            b.set(rep, cls[1])
            done[rep.duid] = True
        else:
            v = b.inp(rep)
            done[rep.duid] = True
            for o in cls[2]:
                b.set(o, v)
                done[o.duid] = True
    for r in vals.values():
        if r.duid not in done:
            b.inp(r)


def correspondences(make, domains=("sys",), rounds=3, seed=1, ticks=40):
    """inductive invariant: classes of registers that are always equal (van Eijk): candidates survive random
    simulation of the encoding from reset, then are filtered to a fixpoint by the solver (base: reset values).
    returns function(b) -> [(rep, const|None, others)] for a bench of another instance"""
    import random
    rnd = random.Random(seed)
    d = make()
    b = Bench(d, domains=domains, cut=False)
    regs = registers(b)
    ins = [s for s in b.design.free_inputs()]
    sig = {r.duid: [] for r in regs}
    s = b.sym
    for t in range(ticks):
        for r in regs:
            sig[r.duid].append(s.get(r))
        for i in ins:
            s.set(i, rnd.getrandbits(i.nbits))
        s.step(list(domains))
    classes = {}
    for r in regs:
        classes.setdefault((r.nbits, r.signed, tuple(sig[r.duid])), []).append(r)
    cand = [c for c in classes.values() if len(c) > 1]
    res = []
    while cand:
        b = Bench(d, domains=domains, cut=False)
        havoc(b, [(c[0], None, c[1:]) for c in cand])
        for i in b.design.free_inputs():
            b.inp(i)
        for dom in domains:
            b.tick(dom)
        bad = None
        sv = z3.SolverFor("QF_BV")
        new = []
        changed = False
        for c in cand:
            groups = [[c[0]]]
            for r in c[1:]:
                for g in groups:
                    x, y = b.peek(g[0]), b.peek(r)
                    e = eq(x, y)
                    if e is True or (e is not False and Bench.query(b, [z3.Not(e)], 60)[0] == z3.unsat):
                        g.append(r)
                        break
                else:
                    groups.append([r])
            if len(groups) > 1:
                changed = True
            new += [g for g in groups if len(g) > 1]
        cand = new
        if not changed:
            break
    order = [r.duid for r in regs]
    idx = [[order.index(r.duid) for r in c] for c in cand]

    def inv(b2):
        rs = registers(b2)
        return [(rs[c[0]], None, [rs[i] for i in c[1:]]) for c in idx]
    return inv


def drive(b, d, tag=""):
    t = {"valid": b.inp(d.sink.valid, "valid"), "first": b.inp(d.sink.first, "first"),
         "last": b.inp(d.sink.last, "last")}
    for n, s in payload(d.sink):
        t[n] = b.inp(s, n)
    return t


def latency_of(make):
    d = make()
    b = Bench(d)
    vals = {n: 0 for n, _ in payload(d.sink)}
    return isolated(b, d.sink, d.source, vals)


def lemma_hold(make, inv):
    d = make()
    b = Bench(d, cut=False)
    havoc(b, inv(b))
    drive(b, d)
    b.set(d.source.ready, 0)
    v = bo(b.get(d.source.valid))
    before = [(r, b.peek(r)) for r in registers(b)]
    b.check("sink not ready while stalled", Implies(v, eq(b.get(d.sink.ready), 0)))
    b.cover("stalled", v)
    b.tick("sys")
    for r, x in before:
        b.check("hold " + b.name(r), Implies(v, eq(b.get(r), x)))
    return b.solve(timeout=60, validate=1)


def lemma_free(make, inv):
    d = make()
    b1 = Bench(d, cut=False)
    havoc(b1, inv(b1))
    st = {r: b1.peek(r) for r in registers(b1)}
    tok = drive(b1, d)
    rdy = b1.inp(d.source.ready, "ready")
    v = bo(b1.get(d.source.valid))
    b1.check("sink ready when output free", Implies(Or(Not(v), rdy), eq(b1.get(d.sink.ready), 1)))
    b1.tick("sys")
    b2 = SymShadow(b1, st)
    for n, s in [("valid", d.sink.valid), ("first", d.sink.first), ("last", d.sink.last)] + payload(d.sink):
        b2.set(s, tok[n])
    b2.set(d.source.ready, bvv(1, 1))
    b2.step(["sys"])
    for r in st:
        b1.check("free " + b1.name(r), Implies(Not(v), eq(b1.peek(r), b2.get(r))))
    return b1.solve(timeout=60, validate=1)


def SymShadow(b, st):
    from .sym import SymSim
    s = SymSim(b.design)
    for r, v in st.items():
        s.set(r, v)
    return s


def lemma_flow(make, L, inv):
    d = make()
    # the function computed by the idle pipeline
    b0 = Bench(d, cut=False)
    tv = {n: z3.BitVec("tok_" + n, s.nbits) for n, s in payload(d.sink)}
    n = isolated(b0, d.sink, d.source, tv)
    F = {m: b0.peek(s) for m, s in payload(d.source)}
    b = Bench(d, cut=False)
    havoc(b, inv(b))
    b.set(d.source.ready, 1)
    toks = []
    for t in range(L + 3):
        if t >= L:
            k = toks[t - L]
            v = bo(k["valid"])
            b.check("valid follows", Iff(b.get(d.source.valid), v))
            b.check("first follows", Implies(v, Iff(b.get(d.source.first), k["first"])))
            b.check("last follows", Implies(v, Iff(b.get(d.source.last), k["last"])))
            sub = [(tv[x], bv(k[x], tv[x].size())) for x in tv]
            for m, s in payload(d.source):
                f = F[m] if isinstance(F[m], int) else z3.substitute(F[m], *sub)
                got = b.get(s)
                if not isinstance(got, int) and not isinstance(f, int):
                    g1, f1 = z3.simplify(got), z3.simplify(f)
                    ok = True if g1.eq(f1) else g1 == f1
                else:
                    ok = eq(got, f)
                b.check("payload %s is a function of its own token" % m, Implies(v, ok))
        toks.append(drive(b, d))
        b.tick("sys")
    return b.solve(timeout=120, validate=2)


def empty_after_reset(make, L):
    d = make()
    b = Bench(d)
    for t in range(L + 2):
        b.check("no output without input", eq(b.get(d.source.valid), 0))
        b.check("accepting when empty", eq(b.get(d.sink.ready), 1))
        b.set(d.sink.valid, 0)
        b.inp(d.source.ready)
        for n, s in payload(d.sink):
            b.inp(s)
        b.tick("sys")
    return b.solve(timeout=60, validate=1)


def scoreboard(make, L, K, rnd, concrete_data=True, timeout=300, before=0):
    """symbolic valid/ready schedule of K cycles from reset; tokens drawn from two data points when concrete_data
    (their images computed by the design itself on an idle pipeline)"""
    d = make()
    b = Bench(d)
    pts = []
    for i in range(2):
        vals = {n: rnd.getrandbits(s.nbits) for n, s in payload(d.sink)}
        b0 = Bench(d)
        isolated(b0, d.sink, d.source, vals)
        pts.append((vals, {m: b0.peek(s) for m, s in payload(d.source)}))
    if before:
        # this many tokens in bursts, then the state after any of the bursts
        snaps = []
        b.set(d.source.ready, 1)
        sent = got = t = 0
        while got < before and t < 12 * before:
            b.set(d.sink.valid, int(sent < got + 4 * L and (sent % 8 != 0 or sent == got)))
            for n, s in payload(d.sink):
                b.set(s, pts[sent & 1][0][n])
            if b.get(d.source.valid):
                for m, s in payload(d.source):
                    b.check("payload %s of the oldest token" % m, eq(b.get(s), pts[got & 1][1][m]))
                got += 1
            if b.peek(d.sink.valid) and b.get(d.sink.ready):
                sent += 1
            b.tick("sys")
            t += 1
            if sent == got:
                snaps.append(b.snap())
        b.check("every token comes out", got >= before)
        r = b.solve(timeout=60, validate=0)
        if r.status != "held":
            return r
        b.jump(snaps, "bursts")
    # queue of (sel, first, last): list of slots with symbolic occupancy, oldest first
    D = L + 2
    CW = D.bit_length() + 1
    cnt = 0
    q = [(0, 0, 0)] * D
    for t in range(K):
        sel = b.var("sel", 1)
        for n, s in payload(d.sink):
            b.set(s, ite(sel == 1, pts[1][0][n], pts[0][0][n], s.nbits))
        fi, la = b.inp(d.sink.first), b.inp(d.sink.last)
        v = b.inp(d.sink.valid)
        r = b.inp(d.source.ready)
        ov = bo(b.get(d.source.valid))
        sr = bo(b.get(d.sink.ready))
        have = Not(eq(cnt, 0))
        b.check("no output out of nothing", Implies(ov, have))
        h = q[0]
        for m, s in payload(d.source):
            e = ite(eq(h[0], 1), pts[1][1][m], pts[0][1][m], s.nbits)
            b.check("payload %s of the oldest token" % m, Implies(And(ov, have), eq(b.get(s), e)))
        b.check("first of the oldest token", Implies(And(ov, have), eq(b.get(d.source.first), h[1])))
        b.check("last of the oldest token", Implies(And(ov, have), eq(b.get(d.source.last), h[2])))
        pop = And(ov, r)
        push = And(v, sr)
        q2 = [tuple(ite(pop, q[i + 1][j] if i + 1 < D else 0, q[i][j], 1) for j in range(3)) for i in range(D)]
        c2 = bv(cnt, CW) - bv(pop, CW)
        q = [tuple(ite(And(push, c2 == i), (sel, fi, la)[j], q2[i][j], 1) for j in range(3)) for i in range(D)]
        b.check("bounded number of tokens in flight", Implies(push, z3.ULT(c2, D)))
        cnt = z3.simplify(c2 + bv(push, CW))
        b.tick("sys")
    # drain: everything accepted comes out
    b.set(d.sink.valid, 0)
    b.set(d.source.ready, 1)
    for t in range(L + 2):
        cnt = bv(cnt, CW) - bv(b.get(d.source.valid), CW)
        b.tick("sys")
    b.check("every token comes out", cnt == 0)
    b.cover("tokens flowed", And(v, ov))
    return b.solve(timeout=timeout, validate=2)


def pipeline(make, K_extra=4):
    """full decision for one actor"""
    import random
    import os
    L = latency_of(make)
    if L is None:
        # nothing comes out: report through the scoreboard run
        d = make()
        b = Bench(d)
        isolated(b, d.sink, d.source, {n: b.var(n, s.nbits) for n, s in payload(d.sink)})
        b.check("a token comes out", False)
        return b.solve(timeout=60, validate=1)
    total = empty_after_reset(make, L)
    if total.status != "held":
        return total
    failed = None
    inv = correspondences(make)
    for f in (lambda: lemma_hold(make, inv), lambda: lemma_free(make, inv), lambda: lemma_flow(make, L, inv)):
        try:
            r = f()
        except EncodeError as e:
            failed = str(e)
            break
        st = r.status
        det = r.detail
        if st != "held":
            failed = det
            r.status, r.detail, r.replay = "held", "", None
        total.merge(r)
        if failed:
            break
    if failed is None:
        total.detail = "all schedules (3 lemmas, latency %d)" % L
        return total
    rnd = random.Random(int(os.environ.get("VERIF_SEED", "1")))
    det = "lemma failed (%s); bounded scoreboard" % failed
    for i in range(3):
        r = scoreboard(make, L, L + K_extra, rnd, before=2048 if i == 2 else 0)
        total.merge(r)
        if r.status != "held":
            return total
    total.detail = det + " K=%d" % (L + K_extra)
    return total


def warm_induction(make, w, prop, domains=("sys",), seed=1, ticks=150, timeout=300, inputs=None, extra=None):
    """Unbounded proof of prop(b) -> [(name, cond)] by induction with a warm-up: the inductive hypothesis is a set of
    register equalities that hold at every time >= w; a state at time t >= w is reached by w real steps from SOME
    state, so pipeline registers hold functions of real inputs.  Candidates come from simulating the encoding, the
    solver filters them to an inductive set (step) and confirms it on the first w+1 steps from reset (base).
    returns Result; status 'open' when prop is not implied by the inductive set"""
    import random
    rnd = random.Random(seed)
    d = make()
    b = Bench(d, domains=domains, cut=False)
    regs = registers(b)
    free = list(b.design.free_inputs())
    sig = {r.duid: [] for r in regs}
    s = b.sym
    for t in range(ticks):
        if t >= w:
            for r in regs:
                v = s.get(r)
                sig[r.duid].append(v)
        for i in free:
            s.set(i, rnd.getrandbits(i.nbits))
        s.step(list(domains))
    classes = {}
    for r in regs:
        classes.setdefault((r.nbits, r.signed, tuple(sig[r.duid])), []).append(r)
    cand = [c for c in classes.values() if len(c) > 1]
    tot = Result()

    def run(from_reset, n):
        b = Bench(d, domains=domains, cut=True)
        if not from_reset:
            havoc(b)
        for t in range(n):
            for i in free:
                b.inp(i)
            b.tick(list(domains))
        return b

    def refine(b, cand):
        new, changed = [], False
        for c in cand:
            groups = [[c[0]]]
            for r in c[1:]:
                for g in groups:
                    e = eq(b.peek(g[0]), b.peek(r))
                    if e is True or (e is not False and b.query([z3.Not(e)], 60)[0] == z3.unsat):
                        g.append(r)
                        break
                else:
                    groups.append([r])
            changed |= len(groups) > 1
            new += [g for g in groups if len(g) > 1]
        return new, changed

    b = run(True, w)
    cand, _ = refine(b, cand)
    while True:
        b = run(False, w)
        for c in cand:
            for r in c[1:]:
                b.assume(eq(b.peek(c[0]), b.peek(r)))
        for i in free:
            b.inp(i)
        b.tick(list(domains))
        cand2, changed = refine(b, cand)
        tot.queries += b.res.queries
        tot.solver_s += b.res.solver_s
        if not changed:
            break
        cand = cand2
    # prop at every time >= w, and on the way there from reset
    b = run(False, w)
    for c in cand:
        for r in c[1:]:
            b.assume(eq(b.peek(c[0]), b.peek(r)))
    for n, c in prop(b, d):
        b.check(n, c)
    r = b.solve(timeout=timeout, validate=0)
    if r.status == "violated":
        r.status, r.replay = "open", None
        r.merge(tot)
        return r
    tot.merge(r)
    b = Bench(d, domains=domains)
    for t in range(w + 1):
        for n, c in prop(b, d):
            b.check(n, c)
        for i in free:
            b.inp(i)
        b.tick(list(domains))
    tot.merge(b.solve(timeout=timeout, validate=1))
    tot.detail = tot.detail or "inductive (%d register equalities), any length" % sum(len(c) - 1 for c in cand)
    return tot
