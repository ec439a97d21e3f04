"""Bench: one symbolic run of a real design, its obligations, and the replay of
counterexamples in Migen's own simulator (the engine that executes this code)."""
import json
import os
import random
import time

import z3

from migen import Module, Signal, Instance, If, Mux
from migen.fhdl.specials import Tristate
from migen.sim.core import Simulator

from .sym import Design, SymSim, BigMem, EncodeError, bvv, same, _effective, _low


# ---------------------------------------------------------------- helpers

def bv(v, n):
    """int / BitVec / Bool -> BitVec(n), zero-extended or truncated"""
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return z3.BitVecVal(v, n)
    if z3.is_bool(v):
        v = z3.If(v, bvv(1, 1), bvv(0, 1))
    w = v.size()
    if w == n:
        return v
    return z3.ZeroExt(n - w, v) if w < n else z3.Extract(n - 1, 0, v)


def sbv(v, n):
    """as bv but sign-extended"""
    if isinstance(v, int):
        return z3.BitVecVal(v, n)
    w = v.size()
    return z3.SignExt(n - w, v) if w < n else z3.Extract(n - 1, 0, v)


def bo(v):
    """truth of an int / BitVec / Bool"""
    if isinstance(v, (bool, int)):
        return bool(v)
    if z3.is_bool(v):
        return v
    from .sym import bit2bool
    if v.size() == 1:
        return bit2bool(v)
    return v != 0


def And(*xs):
    r = []
    for x in xs:
        x = bo(x)
        if x is False:
            return False
        if x is not True:
            r.append(x)
    if not r:
        return True
    return r[0] if len(r) == 1 else z3.And(*r)


def Or(*xs):
    r = []
    for x in xs:
        x = bo(x)
        if x is True:
            return True
        if x is not False:
            r.append(x)
    if not r:
        return False
    return r[0] if len(r) == 1 else z3.Or(*r)


def Not(x):
    x = bo(x)
    if isinstance(x, bool):
        return not x
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    a, b = bo(a), bo(b)
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, bool):
        return b if a else Not(b)
    if isinstance(b, bool):
        return a if b else Not(a)
    return a == b


def eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, bool):
        a = int(a)
    if isinstance(b, bool):
        b = int(b)
    if not isinstance(a, int) and z3.is_bool(a):
        a = bv(a, 1)
    if not isinstance(b, int) and z3.is_bool(b):
        b = bv(b, 1)
    if isinstance(a, int):
        a, b = b, a
    n = a.size()
    if isinstance(b, int):
        if b < 0:
            b &= (1 << n) - 1
        if b >= 1 << n:
            return False
        return a == bvv(b, n)
    m = max(n, b.size())
    return bv(a, m) == bv(b, m)


def ite(c, a, b, n=None):
    c = bo(c)
    if c is True:
        return a
    if c is False:
        return b
    if n is None:
        for x in (a, b):
            if not isinstance(x, (bool, int)) and z3.is_bv(x):
                n = x.size() if n is None else max(n, x.size())
    if n is None:
        if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool):
            n = max(a.bit_length(), b.bit_length(), 1)
        else:
            return z3.If(c, bo(a), bo(b)) if not (isinstance(a, bool) and isinstance(b, bool)) else (
                a if a == b else (c if a else Not(c)))
    a, b = bv(a, n), bv(b, n)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def cat(*xs):
    """xs: (value, width) pairs, least significant first"""
    r = [bv(v, n) for v, n in xs]
    return z3.Concat(*reversed(r)) if len(r) > 1 else r[0]


def bit(v, i):
    if isinstance(v, int):
        return bool((v >> i) & 1)
    from .sym import bit2bool
    return bit2bool(z3.Extract(i, i, v))


def bits(v, hi, lo):
    if isinstance(v, int):
        return (v >> lo) & ((1 << (hi - lo + 1)) - 1)
    return z3.Extract(hi, lo, v)


# ---------------------------------------------------------------- specials

class _Nothing:
    seen = []

    @staticmethod
    def lower(dr):
        _Nothing.seen.append(dr)
        return Module()


class _TristateModel:
    @staticmethod
    def lower(dr):
        m = Module()
        if dr.i is not None:
            m.comb += dr.i.eq(Mux(dr.oe, dr.o, dr.target))
        return m


OVERRIDES = {Instance: _Nothing, Tristate: _TristateModel}


class Result:
    def __init__(self):
        self.status = "held"
        self.detail = ""
        self.queries = 0
        self.trivial = 0
        self.solver_s = 0.0
        self.frames = 0
        self.checks = 0
        self.validated = 0
        self.replay = None
        self.covers = 0
        self.functions = []
        self.vars = 0

    def merge(self, o):
        for k in ("queries", "trivial", "solver_s", "frames", "checks", "validated", "covers", "vars"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        for f in o.functions:
            if f not in self.functions:
                self.functions.append(f)
        if self.status == "held" and o.status != "held":
            self.status, self.detail, self.replay = o.status, o.detail, o.replay


class Early(Exception):
    """a check recorded so far fails: e.args[0] is the bench to solve"""


def stops_early(f):
    def g(**kw):
        try:
            return f(**kw)
        except Early as e:
            return e.args[0].solve(timeout=200)
    return g


class Bench:
    def __init__(self, module, domains=("sys",), cut=True, bigmem=1 << 30, watch=None, keep_log=True,
                 seed=None, logic=None):
        self.module = module
        self.domains = list(domains)
        # every instance reached through Module.get_fragment
        shared = module.__dict__.get("_fv_shared")
        if shared is None:
            _Nothing.seen.clear()
            sim = Simulator(module, [], clocks={d: 2 for d in self.domains},
                            special_overrides=OVERRIDES)
            shared = (sim, Design(sim.fragment, sim.evaluator.replaced_memories, bigmem),
                      sorted(_Nothing.seen, key=lambda x: x.duid))
            module.__dict__["_fv_shared"] = shared
        self.sim, self.design, self.instances = shared
        self.sym = SymSim(self.design, None if watch is None else [s.duid for s in watch])
        self.cut = cut
        self.log = []
        self.cuts = {}            # expression -> constant
        self.constraints = []     # definitions of cut points
        self.assumes = []
        self.checks = []
        self.asked = 0
        self.wait = {}          # (name, cond, frame)
        self.covers = []
        self.frame = 0
        self.nvar = 0
        self.ivars = []
        self.concretise = 0       # registers of up to this many bits become constants when the solver shows they are
        self.csolver = None
        self.defmap = None
        self.budget = None
        self.born = time.time()
        self.res = Result()
        self.seed = int(os.environ.get("VERIF_SEED", "1")) if seed is None else seed
        self.logic = logic or ("QF_ABV" if self.design.bigs else "QF_BV")
        self.names = {}

    # -- stimulus
    def var(self, name, n=None):
        self.nvar += 1
        nm = "%s@%d#%d" % (name, self.frame, self.nvar)
        v = z3.BitVec(nm, n) if n else z3.Bool(nm)
        self.ivars.append(v)
        return v

    def set(self, sig, v):
        if isinstance(v, bool):
            v = int(v)
        if not isinstance(v, int):
            if z3.is_bool(v):
                v = bv(v, 1)
            v = bv(v, sig.nbits)
        self.sym.set(sig, v)
        self.log.append(("set", sig, v))
        return v

    def set_mem(self, bm, v=None):
        """contents of a large memory of the design (b.design.bigs): a z3 array, by default arbitrary"""
        if v is None:
            self.nvar += 1
            v = z3.Array("mem_%s#%d" % (bm.name or "", self.nvar), z3.BitVecSort(bm.aw), z3.BitVecSort(bm.width))
        self.sym.put(bm.duid, v)
        self.log.append(("mem", bm, v))
        return v

    def inp(self, sig, name=None):
        v = self.var(name or self.name(sig), sig.nbits)
        self.set(sig, v)
        return v

    def name(self, sig):
        r = self.names.get(sig.duid)
        if r is None:
            bt = [x[0] for x in (sig.backtrace or []) if x[0]]
            r = "_".join(bt[-3:]) if bt else "sig"
            self.names[sig.duid] = r
        return r

    def get(self, node):
        v = self.sym.get(node)
        self.log.append(("get", node, v))
        return v

    def peek(self, node):
        """read without recording an observation"""
        return self.sym.get(node)

    def tick(self, domains=None):
        if domains is None:
            domains = self.domains
        if isinstance(domains, str):
            domains = [domains]
        if not isinstance(domains, dict):
            domains = {d: True for d in domains}
        domains = {d: bo(c) for d, c in domains.items()}
        self.log.append(("tick", domains))
        self.sym.step(domains)
        self.frame += 1
        if self.budget and time.time() - self.born > self.budget:
            # a run that got slow: decide what it has checked so far first (assumptions are made before they matter)
            self.budget *= 2
            r = self.solve(timeout=60, validate=0)
            if r.status == "violated":
                raise Violated(r)
            r.status, r.detail = "held", ""
        if self.cut:
            self.do_cut()

    def do_cut(self):
        s = self.sym
        for k in self.design.sync:
            if s.keep is not None and k not in s.keep:
                continue
            v = s.val.get(k)
            if isinstance(v, int) or v is None:
                continue
            if z3.is_const(v):
                continue
            df = s.defs.get(k)
            if df is not None and df[1] is v:
                continue
            sig = self.design.sig[k]
            if isinstance(sig, BigMem):
                continue          # stores stay visible: naming arrays would need extensionality
            v2 = z3.simplify(v)
            if z3.is_bv_value(v2):
                s.put(k, s.store(sig, v2.as_long()))
                continue
            if z3.is_const(v2):
                s.put(k, v2)
                s.defs[k] = (v, s.val[k])
                continue
            if z3.is_app_of(v2, z3.Z3_OP_CONCAT) and v2.num_args() <= 16 and \
                    any(self.plain(x) for x in v2.children()):
                # shift registers: keep the parts that are already plain, name the others
                v3 = z3.Concat(*[x if self.plain(x) else self.named(k, sig, x) for x in v2.children()])
                s.put(k, v3)
                s.defs[k] = (v, s.val[k])
                continue
            if self.concretise and v2.size() <= self.concretise and self.frame >= self.wait.get(k, (0, 0))[0]:
                c = self.forced(v2)
                n = 0 if c is not None else min(self.wait.get(k, (0, 0))[1] * 2 + 1, 40)
                self.wait[k] = (self.frame + n, n)      # back off from registers that stay undetermined
                if c is not None:
                    s.put(k, s.store(sig, c))
                    continue
            s.put(k, self.named(k, sig, v2))
            s.defs[k] = (v, s.val[k])

    def forced(self, v):
        """the only value v can have under the assumptions so far, if the solver shows there is just one"""
        if self.csolver is None:
            self.csolver = (z3.SolverFor(self.logic), [0, 0])
        s, n = self.csolver
        for c in self.constraints[n[0]:]:
            s.add(c)
        for c in self.assumes[n[1]:]:
            s.add(c)
        n[:] = [len(self.constraints), len(self.assumes)]
        t = time.time()
        r = None
        if s.check() == z3.sat:
            x = s.model().eval(v, model_completion=True).as_long()
            s.push()
            s.add(v != x)
            if s.check() == z3.unsat:
                r = x
            s.pop()
        self.res.queries += 2
        self.res.solver_s += time.time() - t
        return r

    @staticmethod
    def plain(x):
        if z3.is_app_of(x, z3.Z3_OP_ZERO_EXT):
            x = x.arg(0)
        return z3.is_const(x) or (z3.is_app_of(x, z3.Z3_OP_EXTRACT) and z3.is_const(x.arg(0)))

    def named(self, k, sig, v):
        hit = self.cuts.get(v.get_id())
        if hit is not None and hit[0].eq(v):
            return hit[1]
        if z3.is_bv(v):
            n = _effective(v)       # leading zeros stay visible
            if n < v.size():
                if n == 0:
                    return z3.BitVecVal(0, v.size())
                return z3.ZeroExt(v.size() - n, self.named(k, sig, _low(v, n)))
        nm = "r%s!%d!%d" % (self.name(sig) if isinstance(sig, Signal) else sig.name, self.frame, self.nvar)
        self.nvar += 1
        f = z3.Const(nm, v.sort())
        self.constraints.append(f == v)
        self.cuts[v.get_id()] = (v, f)
        return f

    # -- any of the states of a long run
    def snap(self):
        """the state reached now, for jump()"""
        self.sym.settle()
        val = self.sym.val
        r = {k: val.get(k) for k in self.design.sync}
        for k, v in r.items():
            if isinstance(v, z3.ExprRef) and not z3.is_array(v):
                s = z3.simplify(v)
                if z3.is_bv_value(s):
                    r[k] = s.as_long()
                elif z3.is_true(s) or z3.is_false(s):
                    r[k] = int(z3.is_true(s))
        return r, len(self.log)

    def jump(self, snaps, name="steps"):
        """continue from any of these states, the index being symbolic; returns the index.  The caller drives all inputs
        again before the next clock."""
        n = max(1, (len(snaps) - 1).bit_length())
        j = self.var(name, n)
        self.assume(z3.ULT(j, len(snaps)) if len(snaps) < 1 << n else True)
        self.log.append(("jump", j, [x[1] for x in snaps]))
        for k in self.design.sync:
            sig = self.design.sig[k]
            vs = [x[0][k] for x in snaps]
            if isinstance(sig, BigMem) or not all(isinstance(v, int) or v is None for v in vs):
                if any(v is not vs[0] and not (isinstance(v, z3.ExprRef) and isinstance(vs[0], z3.ExprRef) and v.eq(vs[0]))
                       for v in vs):
                    raise EncodeError("states to jump to must be concrete")
                continue
            vs = [sig.reset.value if v is None else v for v in vs]
            v = self.table(j, vs, sig.nbits)
            self.sym.put(k, self.sym.store(sig, v) if isinstance(v, int) else self.named(k, sig, v))
        self.sym.dirty_regs.update(k for k in self.design.sync if self.sym.keep is None or k in self.sym.keep)
        return j

    @staticmethod
    def table(j, vs, w):
        """vs[j] as a w-bit value"""
        m = (1 << w) - 1
        vs = [v & m for v in vs]
        if all(v == vs[0] for v in vs):
            return vs[0]
        d = (vs[1] - vs[0]) & m
        if all((vs[i + 1] - vs[i]) & m == d for i in range(len(vs) - 1)):
            return bv(j, w) * bvv(d, w) + bvv(vs[0], w)
        memo = {}

        def tree(lo, size):
            part = tuple(vs[lo:lo + size]) or (vs[-1],)
            r = memo.get((part, size))
            if r is None:
                if all(x == part[0] for x in part):
                    r = bvv(part[0], w)
                else:
                    h = size // 2
                    i = h.bit_length() - 1
                    r = z3.If(z3.Extract(i, i, j) == 1, tree(lo + h, h), tree(lo, h))
                memo[(part, size)] = r
            return r
        return tree(0, 1 << j.size())

    # -- obligations
    def assume(self, c):
        c = bo(c)
        if c is True:
            return
        self.assumes.append(z3.BoolVal(False) if c is False else c)

    def check(self, name, c):
        self.res.checks += 1
        c = bo(c)
        if c is True:
            self.res.trivial += 1
            return
        if c is False:
            c = z3.BoolVal(False)
        self.checks.append((name, c, self.frame, len(self.log)))

    def early(self, timeout=10):
        """ask about the checks recorded since the last call, and stop here if one of them can fail: a broken design can
        make the rest of a long run expensive to encode"""
        new = self.checks[self.asked:]
        self.asked = len(self.checks)
        if new and self.query([z3.Not(z3.And(*[c for _, c, _, _ in new]))], timeout, True)[0] == z3.sat:
            raise Early(self)

    def cover(self, name, c):
        self.covers.append((name, bo(c)))

    # -- solving
    def solver(self, timeout):
        s = z3.SolverFor(self.logic)
        if timeout:
            s.set("timeout", int(timeout * 1000))
        return s

    def cone(self, terms):
        """the definitions of the named constants that the terms depend on, directly or indirectly"""
        if self.defmap is None or self.defmap[1] != len(self.constraints):
            dm = {}
            for c in self.constraints:
                if z3.is_eq(c) and z3.is_const(c.arg(0)) and c.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    dm[c.arg(0).get_id()] = c
                else:
                    dm.setdefault(None, []).append(c)
            self.defmap = (dm, len(self.constraints))
        dm = self.defmap[0]
        out = list(dm.get(None, []))
        seen = set()
        todo = list(terms) + out
        while todo:
            e = todo.pop()
            i = e.get_id()
            if i in seen:
                continue
            seen.add(i)
            if e.num_args() == 0:
                c = dm.get(i)
                if c is not None:
                    out.append(c)
                    todo.append(c.arg(1))
            else:
                todo.extend(e.children())
        return out

    def query(self, extra, timeout, sliced=False):
        s = self.solver(timeout)
        for c in self.cone(list(extra) + self.assumes) if sliced else self.constraints:
            s.add(c)
        for c in self.assumes:
            s.add(c)
        for c in extra:
            s.add(c)
        t = time.time()
        r = s.check()
        self.res.solver_s += time.time() - t
        self.res.queries += 1
        return r, s

    def solve(self, timeout=300, split=False, validate=2, replay_name=None, by_frame=False, part=None,
              group=None):
        """discharge all recorded checks; returns Result.

        by_frame: one query per clock cycle, in which the checks of all earlier cycles are assumed (induction over the
        cycles of the bounded run: the first violated check is found by the query of its cycle).  group: number of
        consecutive checks per query, each query containing only the definitions they depend on.  part=(i, n) only
        discharges every n-th cycle, the other parts being other jobs of the same check."""
        res = self.res
        res.frames = self.frame
        res.vars = self.nvar
        res.functions = sorted({type(self.module).__name__})
        try:
            if validate:
                self.validate(validate)
        except Mismatch as e:
            res.status, res.detail = "error", "translator/simulator mismatch: %s" % e
            return res
        for name, c in self.covers:
            if c is True:
                res.covers += 1
                continue
            r, s = self.query([c if c is not False else z3.BoolVal(False)], timeout)
            if r == z3.sat:
                res.covers += 1
            elif r == z3.unsat:
                res.status, res.detail = "vacuous", "cover %s is unreachable" % name
            else:
                res.status, res.detail = "unknown", "cover %s: %s" % (name, s.reason_unknown())
        groups = [[c] for c in self.checks] if split else ([self.checks] if self.checks else [])
        lemmas = []
        if group:
            groups = [self.checks[i:i + group] for i in range(0, len(self.checks), group)]
        if by_frame:
            groups = {}
            for c in self.checks:
                groups.setdefault(c[2], []).append(c)
            groups = [groups[f] for f in sorted(groups)]
        deadline = time.time() + timeout
        for gi, g in enumerate(groups):
            if by_frame and part and gi % part[1] != part[0]:
                lemmas += [c for _, c, _, _ in g]
                continue
            goal = [z3.Not(z3.And(*[c for _, c, _, _ in g])) if len(g) > 1 else z3.Not(g[0][1])]
            left = max(1, deadline - time.time()) if by_frame or group else timeout
            r, s = self.query(lemmas + goal, left, bool(group))
            if group and r == z3.sat:
                # a model of the whole run
                m = s.model()
                fix = [v == m.eval(v, model_completion=True) for v in self.ivars]
                r, s2 = self.query(goal + fix, left)
                if r == z3.sat:
                    s = s2
                else:
                    r, s = self.query(goal, left)
            if by_frame:
                lemmas += [c for _, c, _, _ in g]
            if r == z3.unsat:
                continue
            if r == z3.unknown:
                if res.status in ("held",):
                    res.status, res.detail = "unknown", "%s: %s" % (g[0][0], s.reason_unknown())
                continue
            m = s.model()
            bad = [(n, f) for n, c, f, _ in g if z3.is_false(m.eval(c, model_completion=True))]
            try:
                rep = self.replay(m)
            except Mismatch as e:
                res.status, res.detail = "error", "counterexample does not reproduce: %s" % e
                return res
            except ValueError as e:
                rep = ["the simulator rejects this run: %s" % e]
            res.status = "violated"
            res.detail = "; ".join("%s (cycle %d)" % x for x in bad[:4])
            res.replay = {"violated": [{"check": n, "cycle": f} for n, f in bad], "trace": rep}
            return res
        return res

    # -- concrete side
    def value(self, m, v):
        if isinstance(v, (int, bool)):
            return int(v)
        r = m.eval(v, model_completion=True)
        if z3.is_bool(r):
            return int(z3.is_true(r))
        return r.as_long()

    def replay(self, m, observe=None):
        """run the recorded stimulus, concretised by m, in Migen's simulator and compare every observation"""
        rs = RealSim(self.sim)
        out = []
        cur = {"in": {}, "out": {}}
        log = self.log
        for i, e in enumerate(log):
            if e[0] == "jump":
                log = log[:e[2][min(self.value(m, e[1]), len(e[2]) - 1)]] + log[i + 1:]
                break
        for e in log:
            if e[0] == "set":
                v = self.value(m, e[2])
                rs.set(e[1], v)
                cur["in"][self.name(e[1])] = v
            elif e[0] == "mem":
                # default of the model's array, then the entries it names
                arr = m.eval(e[2], model_completion=True)
                for i, x in enumerate(e[1].sigs):
                    rs.set(x, self.value(m, z3.Select(arr, z3.BitVecVal(i, e[1].aw))))
            elif e[0] == "get":
                want = self.value(m, e[2])
                n = len(e[1])
                got = rs.get(e[1])
                nm = self.name(e[1]) if isinstance(e[1], Signal) else "expr"
                cur["out"][nm] = got & ((1 << n) - 1)
                if (got - want) & ((1 << n) - 1):
                    raise Mismatch("cycle %d %s: simulator %x, encoding %x" % (len(out), nm, got, want))
            else:
                doms = [d for d, c in e[1].items() if self.value(m, c)]
                rs.tick(doms)
                cur["clock"] = doms
                out.append(cur)
                cur = {"in": {}, "out": {}}
        out.append(cur)
        return out

    def validate(self, n):
        """agreement of the encoding with Migen's simulator on random concretisations of this very run"""
        rnd = random.Random(self.seed)
        base = z3.SolverFor(self.logic)
        base.set("timeout", 60000)
        for c in self.constraints:
            base.add(c)
        for c in self.assumes:
            base.add(c)
        for i in range(n):
            base.push()
            for v in self.ivars:
                if z3.is_bool(v):
                    base.add(v == bool(rnd.getrandbits(1)))
                else:
                    w = v.size()
                    x = rnd.getrandbits(w)
                    base.add(v == x)
            r = base.check()
            if r == z3.sat:
                m = base.model()
            base.pop()
            if r != z3.sat:
                # random point outside the assumptions: fix a random subset greedily
                m = self.random_model(base, rnd)
                if m is None:
                    if i == 0:
                        r2 = base.check()
                        if r2 == z3.unsat:
                            raise Mismatch("assumptions are unsatisfiable")
                    continue
            try:
                self.replay(m)
            except ValueError:
                continue          # the design executes a negative shift: undefined in the simulator
            self.res.validated += 1

    def random_model(self, base, rnd):
        soft = []
        base.push()
        for v in self.ivars:
            if z3.is_bool(v):
                soft.append(v == bool(rnd.getrandbits(1)))
            else:
                soft.append(v == rnd.getrandbits(v.size()))
        rnd.shuffle(soft)
        soft = soft[:400]
        m = None
        chunk = max(1, len(soft) // 8)
        i = 0
        while i < len(soft):
            part = soft[i:i + chunk]
            base.push()
            base.add(part)
            if base.check() == z3.sat:
                m = base.model()
                base.pop()
                base.add(part)
            else:
                base.pop()
            i += chunk
        if m is None and base.check() == z3.sat:
            m = base.model()
        base.pop()
        return m


class Mismatch(Exception):
    pass


class Violated(Exception):
    """a violation found before the end of a run"""

    def __init__(self, result):
        super().__init__(result.detail)
        self.result = result


class RealSim:
    """Migen's simulator driven step by step."""

    def __init__(self, sim):
        self.sim = sim
        ev = self.ev = sim.evaluator
        from migen.fhdl.structure import DUID
        ev.signal_values = [None] * DUID.get_max_duid()
        ev.modifications.clear()
        ev.execute(sim.fragment.comb)
        sim._commit_and_comb_propagate()
        self.pending = False

    def set(self, sig, v):
        self.ev.assign(sig, v)
        self.pending = True

    def flush(self):
        if self.pending:
            self.sim._commit_and_comb_propagate()
            self.pending = False

    def get(self, node):
        self.flush()
        return int(self.ev.eval(node))

    def tick(self, domains):
        self.flush()
        sync = self.sim.fragment.sync
        for cd in domains:
            if cd in sync:
                self.ev.execute(sync[cd])
        self.sim._commit_and_comb_propagate()


def dump_replay(path, payload):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump(payload, f, indent=1, default=str)


class IntBench(Bench):
    """Bench whose symbolic values are bounded integers (linear arithmetic back end)."""

    def __init__(self, module, domains=("sys",), **kw):
        super().__init__(module, domains, cut=False, **kw)
        from .intsim import IntSim
        self.logic = "QF_LIA"
        self.sym = IntSim(self.design, self.constraints)

    def ivar(self, name, lo, hi):
        from .intsim import IV
        x = z3.Int(name)
        self.constraints.append(z3.And(x >= lo, x <= hi))
        v = IV(x, lo, hi)
        self.ivars.append(v)
        self.nvar += 1
        return v

    def set(self, sig, v):
        self.sym.set(sig, int(v) if isinstance(v, bool) else v)
        self.log.append(("set", sig, v))
        return v

    def do_cut(self):
        pass

    def value(self, m, v):
        from .intsim import IV
        if isinstance(v, IV):
            return m.eval(v.e, model_completion=True).as_long()
        return super().value(m, v)

    def validate(self, n):
        rnd = random.Random(self.seed)
        base = self.solver(60)
        for c in self.constraints + self.assumes:
            base.add(c)
        for i in range(n):
            base.push()
            for v in self.ivars:
                base.add(v.e == rnd.randint(v.lo, v.hi))
            r = base.check()
            m = base.model() if r == z3.sat else None
            base.pop()
            if m is None:
                r = base.check()
                if r != z3.sat:
                    raise Mismatch("assumptions are unsatisfiable")
                m = base.model()
            self.replay(m)
            self.res.validated += 1
