"""Unbounded claims by induction: the solver selects, from candidate equalities between registers of the design and
terms of a reference machine, the largest inductive subset (Houdini) and then shows the property from it.

Nothing here depends on register names or on the shape of the design: any register may match any term.  When no
sufficient invariant is found the result is 'open' and the caller falls back to its bounded claim."""
import os

import z3
from .bench import *
from .pipe import registers, havoc


def houdini(d, drive, terms, prop, domains=("sys",), exclude=(), clocks=None, timeout=300, user=None, guards=(),
            state_guards=False, watch=None, step_prop=None):
    """d: module (DUT and reference machine in it); drive(b, d, prev) sets the inputs of one cycle, adding assumptions,
    and returns a context for the next; terms: signals of the reference machine; prop(b, d) -> [(name, cond)] evaluated after drive;
    exclude: registers of the reference machine; guards(b, d) -> [conditions] under which equalities are also tried; state_guards: the values of one- and two-bit
    registers (FSM states) are such conditions; watch: the invariant only speaks about registers in
    the cone of these signals; step_prop(b, d) -> [(name, cond)]: what holds after any step between states of the invariant"""
    ex = {s.duid for s in exclude}
    clocks = clocks or list(domains)
    tot = Result()
    t0 = time.time()

    def bench(reset):
        b = Bench(d, domains=domains, watch=watch, logic="QF_BV" if watch else None)
        if not reset:
            havoc(b)
            for bm in [] if watch else b.design.bigs:
                b.set_mem(bm)
        return b, drive(b, d, None)

    def cands(b):
        gs = [True] + (list(guards(b, d)) if guards else [])
        if state_guards:
            for r in regs:
                if r.nbits <= 2:
                    gs += [bo(eq(b.peek(r), i)) for i in range(1 << r.nbits)]
        out = {}
        for r in regs:
            v = b.peek(r)
            for i, x in enumerate(terms):
                w, x = len(x), b.peek(x)
                if (w == 1) != (r.nbits == 1):
                    continue
                n = max(w, r.nbits)
                e = bv(v, n) == bv(x, n)
                e = z3.BoolVal(e) if isinstance(e, bool) else e
                for j, g in enumerate(gs):
                    out[(r.duid, i, j, 0)] = bo(Implies(g, e))
                    if w == 1:
                        out[(r.duid, i, j, 1)] = bo(Implies(g, z3.Not(e)))
        if state_guards:
            for i, x in enumerate(terms):
                for j, g in enumerate(gs):
                    out[(-1, i, j, 0)] = bo(Implies(g, eq(b.peek(x), 0)))
                    if len(x) == 1:
                        out[(-1, i, j, 1)] = bo(Implies(g, eq(b.peek(x), 1)))
        for k, c in (user(b, d) if user else []):
            out[("user", k)] = bo(c)
        return {k: (z3.BoolVal(c) if isinstance(c, bool) else c) for k, c in out.items()}

    b, ctx = bench(True)
    regs = [r for r in registers(b) if r.duid not in ex and (b.sym.keep is None or r.duid in b.sym.keep)]

    def prune(b, cs, assume):
        """drop the candidates some model falsifies"""
        s = b.solver(timeout)
        for c in b.constraints + b.assumes + assume:
            s.add(c)
        changed = False
        cs = dict(cs)
        while cs:
            s.push()
            s.add(z3.Not(z3.And(*cs.values())) if len(cs) > 1 else z3.Not(next(iter(cs.values()))))
            t = time.time()
            r = s.check()
            tot.solver_s += time.time() - t
            tot.queries += 1
            if r != z3.sat:
                s.pop()
                if r == z3.unknown:
                    raise TimeoutError
                return cs, changed
            m = s.model()
            s.pop()
            bad = [k for k, c in cs.items() if not z3.is_true(m.eval(c, model_completion=True))]
            if not bad:
                raise RuntimeError("no progress")
            for k in bad:
                del cs[k]
            changed = True
        return cs, changed

    try:
        # base: reset state, and a few steps (only to prune quickly)
        live, _ = prune(b, cands(b), [])
        for i in range(4):
            b.tick(clocks)
            ctx = drive(b, d, ctx)
            c = cands(b)
            live, _ = prune(b, {k: c[k] for k in live}, [])
        while True:
            b, ctx = bench(False)
            pre = cands(b)
            b.tick(clocks)
            drive(b, d, ctx)
            post = cands(b)
            live2, changed = prune(b, {k: post[k] for k in live}, [pre[k] for k in live])
            if not changed:
                break
            live = live2
    except TimeoutError:
        tot.status, tot.detail = "open", "timeout while selecting the invariant"
        return tot
    if os.environ.get("FV_DEBUG"):
        import sys
        b, _ = bench(True)
        for k in live:
            print(k if k[0] == "user" else (k[0] if k[0] < 0 else b.name(b.design.sig[k[0]]), b.name(terms[k[1]]), k[2:]), file=sys.stderr)
    b, ctx = bench(False)
    c = cands(b)
    for k in live:
        b.assume(c[k])
    for n, x in prop(b, d):
        b.check(n, x)
    r = b.solve(timeout=timeout, validate=0)
    if r.status == "violated":
        r.status, r.replay = "open", None
    tot.merge(r)
    if step_prop and r.status == "held":
        watch = None
        b, ctx = bench(False)
        c = cands(b)
        for k in live:
            b.assume(c[k])
        b.tick(clocks)
        drive(b, d, ctx)
        c = cands(b)
        for k in live:
            b.assume(c[k])
        for n, x in step_prop(b, d):
            b.check(n, x)
        r = b.solve(timeout=timeout, validate=0)
        if r.status == "violated":
            r.status, r.replay = "open", None
        tot.merge(r)
    if r.status == "open":
        tot.status = "open"
    tot.frames = max(tot.frames, 6)
    tot.detail = tot.detail or "%d inductive equalities" % len(live)
    return tot
