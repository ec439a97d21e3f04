"""Symbolic execution of elaborated Migen designs (z3 bit-vectors).

The input is the very fragment that migen.sim.Simulator prepared for execution
(memories expanded, specials lowered, resets inserted), i.e. the statement list
the real simulator interprets.  Each signal holds either a Python int (concrete,
signed range if the signal is signed) or a z3 bit-vector of exactly nbits.

Expression semantics mirror migen.sim.core.Evaluator: expressions are evaluated
over unbounded integers and truncated on assignment; conditions are masked to
their declared width; array indices are clamped to the last element; in
combinational logic targets default to their reset value and the last
assignment wins; synchronous statements read pre-edge values.
"""
import heapq

import z3

from migen.fhdl.structure import (Constant, Signal, Cat, Replicate, If, Case,
                                  ClockSignal, ResetSignal, Display,
                                  _Operator, _Slice, _Part, _ArrayProxy, _Assign, _Value)
from migen.fhdl.bitcontainer import value_bits_sign
from migen.fhdl.specials import _MemoryLocation


class EncodeError(Exception):
    pass


# --------------------------------------------------------------------------
# exact integer values: Python int, or SV(bit-vector, signed)

class SV:
    __slots__ = ("e", "s", "w")

    def __init__(self, e, s):
        self.e = e
        self.s = s
        self.w = e.size()


_bv_cache = {}


def bvv(v, w):
    k = (v, w)
    r = _bv_cache.get(k)
    if r is None:
        r = _bv_cache[k] = z3.BitVecVal(v, w)
    return r


def is_bvconst(e):
    return z3.is_bv_value(e)


def b2v(b):
    """Bool (python or z3) -> exact value"""
    if b is True:
        return 1
    if b is False:
        return 0
    return SV(z3.If(b, bvv(1, 1), bvv(0, 1)), False)


def bit2bool(e):
    """1-bit bit-vector -> z3 Bool"""
    if z3.is_bv_value(e):
        return e.as_long() != 0
    k = e.decl().kind()
    if k == z3.Z3_OP_BNOT:
        return b_not(bit2bool(e.arg(0)))
    if k == z3.Z3_OP_ITE:
        a, b = e.arg(1), e.arg(2)
        if z3.is_bv_value(a) and z3.is_bv_value(b):
            av, bv = a.as_long(), b.as_long()
            if av == 1 and bv == 0:
                return e.arg(0)
            if av == 0 and bv == 1:
                return z3.Not(e.arg(0))
    return e == bvv(1, 1)


def b_not(a):
    if a is True:
        return False
    if a is False:
        return True
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def complement(a, b):
    return (z3.is_not(a) and a.arg(0).eq(b)) or (z3.is_not(b) and b.arg(0).eq(a))


def b_and(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    if a.eq(b):
        return a
    if complement(a, b):
        return False
    return z3.And(a, b)


def b_or(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    if a.eq(b):
        return a
    if complement(a, b):
        return True
    return z3.Or(a, b)


def b_xor(a, b):
    if a is False:
        return b
    if b is False:
        return a
    if a is True:
        return b_not(b)
    if b is True:
        return b_not(a)
    if a.eq(b):
        return False
    if complement(a, b):
        return True
    return z3.Xor(a, b)


def ext(e, n, signed):
    w = e.size()
    if w == n:
        return e
    if w > n:
        return extract(e, n - 1, 0)
    return z3.SignExt(n - w, e) if signed else z3.ZeroExt(n - w, e)


def extract(e, hi, lo):
    if lo == 0 and hi == e.size() - 1:
        return e
    if z3.is_bv_value(e):
        return bvv((e.as_long() >> lo) & ((1 << (hi - lo + 1)) - 1), hi - lo + 1)
    k = e.decl().kind()
    if k == z3.Z3_OP_EXTRACT:
        base = e.decl().params()[1]
        return extract(e.arg(0), hi + base, lo + base)
    if k == z3.Z3_OP_ZERO_EXT:
        a = e.arg(0)
        aw = a.size()
        if hi < aw:
            return extract(a, hi, lo)
        if lo >= aw:
            return bvv(0, hi - lo + 1)
        return z3.ZeroExt(hi - aw + 1, extract(a, aw - 1, lo))
    if k == z3.Z3_OP_CONCAT:
        pos = e.size()
        for a in e.children():
            aw = a.size()
            pos -= aw
            if lo >= pos and hi < pos + aw:
                return extract(a, hi - pos, lo - pos)
        # spans several parts
        parts = []
        pos = e.size()
        for a in e.children():
            aw = a.size()
            pos -= aw
            h, l = min(hi, pos + aw - 1), max(lo, pos)
            if l <= h:
                parts.append(extract(a, h - pos, l - pos))
        return z3.Concat(*parts)
    return z3.Extract(hi, lo, e)


def trunc(v, n):
    """low n bits of an exact value: int in [0, 2**n) or BitVec(n)"""
    if type(v) is SV:
        r = ext(v.e, n, v.s)
        return r.as_long() if z3.is_bv_value(r) else r
    return v & ((1 << n) - 1)


def asbv(t, n):
    """truncated value -> BitVec(n)"""
    return bvv(t, n) if isinstance(t, int) else t


def mk(e, s):
    if z3.is_bv_value(e):
        v = e.as_long()
        if s and v >> (e.size() - 1):
            v -= 1 << e.size()
        return v
    return SV(e, s)


def int_dims(v):
    """minimal (width, signed) of a python int"""
    if v >= 0:
        return max(v.bit_length(), 1), False
    return (-v - 1).bit_length() + 1, True


def dims(v):
    return (v.w, v.s) if type(v) is SV else int_dims(v)


def common(a, b, extra=0):
    wa, sa = dims(a)
    wb, sb = dims(b)
    s = sa or sb
    if s:
        if not sa:
            wa += 1
        if not sb:
            wb += 1
    return max(wa, wb) + extra, s


def tobv(v, n):
    if type(v) is SV:
        return ext(v.e, n, v.s)
    return bvv(v & ((1 << n) - 1), n)


def x_add(a, b):
    if not (type(a) is SV or type(b) is SV):
        return a + b
    if type(a) is int and a == 0:
        return b
    if type(b) is int and b == 0:
        return a
    n, s = common(a, b, 1)
    return SV(tobv(a, n) + tobv(b, n), s)


def x_sub(a, b):
    if not (type(a) is SV or type(b) is SV):
        return a - b
    if type(b) is int and b == 0:
        return a
    n, s = common(a, b, 1)
    return SV(tobv(a, n) - tobv(b, n), True)


def x_neg(a):
    if type(a) is not SV:
        return -a
    n = a.w + 1
    return SV(-tobv(a, n), True)


def _effective(e, depth=8):
    """upper bound on the number of significant bits of the unsigned value e, from its structure"""
    if z3.is_bv_value(e):
        return e.as_long().bit_length()
    k = e.decl().kind()
    if k == z3.Z3_OP_ZERO_EXT:
        return _effective(e.arg(0), depth)
    if k == z3.Z3_OP_CONCAT:
        n = e.size()
        for c in e.children():
            n -= c.size()
            x = _effective(c, depth)
            if x:
                return n + x
        return 0
    if k == z3.Z3_OP_ITE and depth:
        x = _effective(e.arg(1), depth - 1)
        return x if x == e.size() else max(x, _effective(e.arg(2), depth - 1))
    return e.size()


def _low(e, n, depth=9):
    """the low n bits of e, below conditionals and concatenations"""
    if e.size() == n:
        return e
    if z3.is_bv_value(e):
        return z3.BitVecVal(e.as_long(), n)
    k = e.decl().kind()
    if k == z3.Z3_OP_ITE and depth:
        return z3.If(e.arg(0), _low(e.arg(1), n, depth - 1), _low(e.arg(2), n, depth - 1))
    if k == z3.Z3_OP_ZERO_EXT:
        x = e.arg(0)
        return _low(x, n, depth) if x.size() >= n else z3.ZeroExt(n - x.size(), x)
    if k == z3.Z3_OP_CONCAT:
        parts, have = [], 0
        for c in reversed(e.children()):
            if have + c.size() >= n:
                parts.append(_low(c, n - have, depth))
                break
            parts.append(c)
            have += c.size()
        parts.reverse()
        return z3.Concat(*parts) if len(parts) > 1 else parts[0]
    return z3.Extract(n - 1, 0, e)


def x_mul(a, b):
    if not (type(a) is SV or type(b) is SV):
        return a * b
    if (type(a) is int and a == 0) or (type(b) is int and b == 0):
        return 0
    if type(a) is int and a == 1:
        return b
    if type(b) is int and b == 1:
        return a
    wa, sa = dims(a)
    wb, sb = dims(b)
    n = wa + wb
    return SV(tobv(a, n) * tobv(b, n), sa or sb)


def x_inv(a):
    if type(a) is not SV:
        return ~a
    n = a.w if a.s else a.w + 1
    return SV(~tobv(a, n), True)


def x_bit(op, a, b):
    if not (type(a) is SV or type(b) is SV):
        return a & b if op == "&" else a | b if op == "|" else a ^ b
    wa, sa = dims(a)
    wb, sb = dims(b)
    if op == "&":
        if (type(a) is int and a == 0) or (type(b) is int and b == 0):
            return 0
        if not sa and not sb:
            n = min(wa, wb)
            return mk(tobv_lo(a, n) & tobv_lo(b, n), False)
        if not sa:
            return mk(tobv(a, wa) & tobv(b, wa), False)
        if not sb:
            return mk(tobv(a, wb) & tobv(b, wb), False)
        n = max(wa, wb)
        return mk(tobv(a, n) & tobv(b, n), True)
    n, s = common(a, b)
    x, y = tobv(a, n), tobv(b, n)
    return mk(x | y if op == "|" else x ^ y, s)


def tobv_lo(v, n):
    if type(v) is SV:
        return ext(v.e, n, v.s)
    return bvv(v & ((1 << n) - 1), n)


def x_shr(a, b):
    if type(b) is int:
        if type(a) is int:
            return a >> b
        if b >= a.w:
            if not a.s:
                return 0
            b = a.w - 1
        return mk(extract(a.e, a.w - 1, b), a.s)
    # symbolic amount (assumed non negative, as in the simulator)
    if type(a) is int:
        wa, sa = int_dims(a)
        a = SV(bvv(a & ((1 << wa) - 1), wa), sa)
    n = max(a.w, b.w + (1 if b.s else 0))
    x, y = ext(a.e, n, a.s), ext(b.e, n, b.s)
    r = (x >> y) if a.s else z3.LShR(x, y)
    return mk(extract(r, a.w - 1, 0), a.s)


def x_shl(a, b, limit=None):
    if type(b) is int:
        if type(a) is int:
            return a << b
        if b == 0:
            return a
        n = a.w + b
        return SV(z3.Concat(a.e, bvv(0, b)), a.s)
    wa, sa = dims(a)
    bmax = (1 << b.w) - 1
    n = wa + bmax
    if limit is not None:
        n = min(n, max(limit, b.w))
    if n > 4096:
        raise EncodeError("shift too wide")
    n = max(n, b.w)
    return SV(tobv(a, n) << ext(b.e, n, False), sa)


def x_cmp(op, a, b):
    """returns python bool or z3 Bool"""
    if not (type(a) is SV or type(b) is SV):
        return {"<": a < b, "<=": a <= b, "==": a == b, "!=": a != b, ">": a > b, ">=": a >= b}[op]
    if op in ("==", "!="):
        # cheap cases
        for x, y in ((a, b), (b, a)):
            if type(y) is int and type(x) is SV:
                if x.s:
                    lo, hi = -(1 << (x.w - 1)), (1 << (x.w - 1)) - 1
                else:
                    lo, hi = 0, (1 << x.w) - 1
                if y < lo or y > hi:
                    return op == "!="
                if x.w == 1 and not x.s:
                    r = bit2bool(x.e)
                    if y == 0:
                        r = b_not(r)
                    return r if op == "==" else b_not(r)
        n, s = common(a, b)
        x, y = tobv(a, n), tobv(b, n)
        if x.eq(y):
            return op == "=="
        return x == y if op == "==" else x != y
    n, s = common(a, b)
    x, y = tobv(a, n), tobv(b, n)
    if s:
        return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
    return {"<": z3.ULT, "<=": z3.ULE, ">": z3.UGT, ">=": z3.UGE}[op](x, y)


def x_ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if type(a) is int and type(b) is int:
        if a == b:
            return a
        if a == 1 and b == 0:
            return b2v(c)
        if a == 0 and b == 1:
            return b2v(b_not(c))
    n, s = common(a, b)
    x, y = tobv(a, n), tobv(b, n)
    if x.eq(y):
        return mk(x, s)
    return SV(z3.If(c, x, y), s)


def t_ite(c, a, b, n):
    """ite over truncated values of n bits"""
    if c is True:
        return a
    if c is False:
        return b
    ia, ib = isinstance(a, int), isinstance(b, int)
    if ia and ib:
        if a == b:
            return a
        if n == 1:
            return z3.If(c, bvv(a, 1), bvv(b, 1)) if a == 1 else z3.If(b_not(c), bvv(1, 1), bvv(0, 1))
    elif not ia and not ib and a.eq(b):
        return a
    a, b = asbv(a, n), asbv(b, n)
    # collapse ite(c, x, ite(c, y, z))
    if z3.is_app_of(b, z3.Z3_OP_ITE) and b.arg(0).eq(c):
        b = b.arg(2)
    if z3.is_app_of(a, z3.Z3_OP_ITE) and a.arg(0).eq(c):
        a = a.arg(1)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def same(a, b):
    if a is b:
        return True
    ia, ib = isinstance(a, int), isinstance(b, int)
    if ia or ib:
        return ia and ib and a == b
    return a.eq(b)


# --------------------------------------------------------------------------

_NORM = {}


def ntype(node):
    t = type(node)
    r = _NORM.get(t)
    if r is not None:
        return r
    for k in (Constant, Signal, _Operator, _Slice, _Part, Cat, Replicate, _ArrayProxy,
              _MemoryLocation, ClockSignal, ResetSignal, _Assign, If, Case, Display):
        if issubclass(t, k):
            _NORM[t] = k
            return k
    return t


class BigMem:
    """marker for a memory kept as one z3 array"""

    def __init__(self, sigs, name):
        self.sigs = sigs
        self.depth = len(sigs)
        self.width = sigs[0].nbits
        self.aw = max(1, (self.depth - 1).bit_length())
        self.name = name
        self.duid = ("mem", sigs[0].duid)


class Design:
    """Static structure of a prepared fragment: per-signal statement slices and dependencies."""

    def __init__(self, fragment, replaced_memories, bigmem_depth=1 << 30):
        self.cds = fragment.clock_domains
        self.memrep = replaced_memories
        self.big = {}            # duid of element -> BigMem
        self.bigs = []
        for mem, arr in replaced_memories.items():
            if len(arr) >= bigmem_depth:
                bm = BigMem(list(arr), mem.name_override)
                self.bigs.append(bm)
                for s in arr:
                    self.big[s.duid] = bm
        self.sig = {}
        self.comb = {}           # duid -> filtered statements
        self.sync = {}           # duid -> (cd, filtered statements)
        self.bigw = {}           # bm.duid -> (cd, statements)
        self._tcache = {}
        self._build(fragment)

    # -- targets
    def lhs_targets(self, node):
        t = ntype(node)
        if t is Signal:
            return {node.duid: node}
        if t is Cat:
            r = {}
            for e in node.l:
                r.update(self.lhs_targets(e))
            return r
        if t in (_Slice, _Part):
            return self.lhs_targets(node.value)
        if t is _ArrayProxy:
            bm = self.bigof(node)
            if bm is not None:
                return {bm.duid: bm}
            r = {}
            for c in node.choices:
                r.update(self.lhs_targets(c))
            return r
        if t is _MemoryLocation:
            return self.lhs_targets(_ArrayProxy(self.memrep[node.memory], node.index))
        raise EncodeError("lhs %s" % t)

    def bigof(self, proxy):
        c = proxy.choices[0]
        if type(c) is Signal or isinstance(c, Signal):
            bm = self.big.get(c.duid)
            if bm is not None and len(proxy.choices) == bm.depth:
                return bm
        return None

    def targets(self, s):
        k = id(s)
        r = self._tcache.get(k)
        if r is not None:
            return r[1]
        t = ntype(s)
        if t is _Assign:
            r = self.lhs_targets(s.l)
        elif t is If:
            r = {}
            for x in s.t:
                r.update(self.targets(x))
            for x in s.f:
                r.update(self.targets(x))
        elif t is Case:
            r = {}
            for b in s.cases.values():
                for x in b:
                    r.update(self.targets(x))
        elif t is Display:
            r = {}
        elif isinstance(s, (list, tuple)) or hasattr(s, "__iter__"):
            r = {}
            for x in s:
                r.update(self.targets(x))
        else:
            raise EncodeError("statement %s" % t)
        self._tcache[k] = (s, r)
        return r

    def slice_stmts(self, stmts, duid):
        out = []
        for s in stmts:
            if duid not in self.targets(s):
                continue
            t = ntype(s)
            if t is _Assign:
                out.append(("a", s.l, s.r))
            elif t is If:
                out.append(("i", s.cond, self.slice_stmts(s.t, duid), self.slice_stmts(s.f, duid)))
            elif t is Case:
                keys = []
                default = None
                for k, v in s.cases.items():
                    body = self.slice_stmts(v, duid)
                    if isinstance(k, str) and k == "default":
                        default = body
                    else:
                        keys.append((k.value, body))
                out.append(("c", s.test, keys, default))
            else:
                out.extend(self.slice_stmts(list(s), duid))
        return out

    # -- dependencies
    def deps_expr(self, node, acc):
        t = ntype(node)
        if t is Constant:
            return
        if t is Signal:
            acc[node.duid] = node
        elif t is _Operator:
            for o in node.operands:
                self.deps_expr(o, acc)
        elif t is _Slice:
            self.deps_expr(node.value, acc)
        elif t is _Part:
            self.deps_expr(node.value, acc)
            self.deps_expr(node.offset, acc)
        elif t is Cat:
            for o in node.l:
                self.deps_expr(o, acc)
        elif t is Replicate:
            self.deps_expr(node.v, acc)
        elif t is _ArrayProxy:
            self.deps_expr(node.key, acc)
            bm = self.bigof(node)
            if bm is not None:
                acc[bm.duid] = bm
            else:
                for c in node.choices:
                    self.deps_expr(c, acc)
        elif t is _MemoryLocation:
            self.deps_expr(_ArrayProxy(self.memrep[node.memory], node.index), acc)
        elif t is ClockSignal:
            s = self.cds[node.cd].clk
            acc[s.duid] = s
        elif t is ResetSignal:
            s = self.cds[node.cd].rst
            if s is not None:
                acc[s.duid] = s
        else:
            raise EncodeError("expr %s" % t)

    def deps_lhs(self, node, acc):
        """keys/offsets read by an lhs"""
        t = ntype(node)
        if t is Cat:
            for e in node.l:
                self.deps_lhs(e, acc)
        elif t is _Slice:
            self.deps_lhs(node.value, acc)
        elif t is _Part:
            self.deps_lhs(node.value, acc)
            self.deps_expr(node.offset, acc)
        elif t is _ArrayProxy:
            self.deps_expr(node.key, acc)
            if self.bigof(node) is None:
                for c in node.choices:
                    self.deps_lhs(c, acc)

    def deps_sliced(self, sl, acc):
        for s in sl:
            if s[0] == "a":
                self.deps_lhs(s[1], acc)
                self.deps_expr(s[2], acc)
            elif s[0] == "i":
                self.deps_expr(s[1], acc)
                self.deps_sliced(s[2], acc)
                self.deps_sliced(s[3], acc)
            else:
                self.deps_expr(s[1], acc)
                for _, b in s[2]:
                    self.deps_sliced(b, acc)
                if s[3] is not None:
                    self.deps_sliced(s[3], acc)

    def _build(self, f):
        by_t = {}

        def index(stmts):
            r = {}
            for s in stmts:
                for d, sg in self.targets(s).items():
                    self.sig[d] = sg
                    r.setdefault(d, []).append(s)
            return r

        def flat(stmts):
            out = []
            for s in stmts:
                if isinstance(s, (_Assign, If, Case, Display)):
                    out.append(s)
                else:
                    out.extend(flat(list(s)))
            return out
        for d, ss in index(flat(f.comb)).items():
            self.comb[d] = self.slice_stmts(ss, d)
        for cd, stmts in f.sync.items():
            for d, ss in index(flat(stmts)).items():
                if d in self.sync:
                    raise EncodeError("signal %r driven from two domains" % self.sig[d])
                self.sync[d] = (cd, self.slice_stmts(ss, d))
        self.deps = {}
        for d, sl in self.comb.items():
            acc = {}
            self.deps_sliced(sl, acc)
            self.deps[d] = set(acc)
            self.sig.update(acc)
        self.sdeps = {}
        for d, (cd, sl) in self.sync.items():
            acc = {}
            self.deps_sliced(sl, acc)
            acc[d] = self.sig[d]
            self.sdeps[d] = set(acc)
            self.sig.update(acc)
        for cd in self.cds:
            self.sig[cd.clk.duid] = cd.clk
            if cd.rst is not None:
                self.sig[cd.rst.duid] = cd.rst
        # topological order of comb signals (cycles share the order of their first member)
        order = {}
        state = {}
        seq = []
        self.cyclic = set()
        for root in self.comb:
            if root in state:
                continue
            stack = [(root, iter([x for x in self.deps[root] if x in self.comb]))]
            state[root] = 1
            while stack:
                n, it = stack[-1]
                for m in it:
                    st = state.get(m)
                    if st is None:
                        state[m] = 1
                        stack.append((m, iter([x for x in self.deps[m] if x in self.comb])))
                        break
                    if st == 1:
                        self.cyclic.add(m)
                else:
                    state[n] = 2
                    seq.append(n)
                    stack.pop()
        for i, n in enumerate(seq):
            order[n] = i
        self.order = order
        self.fan_comb = {}
        for d, ds in self.deps.items():
            for x in ds:
                self.fan_comb.setdefault(x, []).append(d)
        self.fan_sync = {}
        for d, ds in self.sdeps.items():
            for x in ds:
                self.fan_sync.setdefault(x, []).append(d)
        self.regs_of = {}
        for d, (cd, _) in self.sync.items():
            self.regs_of.setdefault(cd, []).append(d)

    def coi(self, duids):
        """cone of influence: set of comb and sync duids feeding the given signals"""
        seen = set()
        todo = list(duids)
        while todo:
            d = todo.pop()
            if d in seen:
                continue
            seen.add(d)
            if d in self.comb:
                todo.extend(self.deps[d])
            if d in self.sync:
                todo.extend(self.sdeps[d])
        return seen

    def free_inputs(self):
        return [s for d, s in self.sig.items()
                if d not in self.comb and d not in self.sync and isinstance(s, Signal)
                and not any(s is cd.clk for cd in self.cds)]


class SymSim:
    """Cycle-accurate symbolic simulator over a Design."""

    def __init__(self, design, coi=None):
        self.d = design
        self.keep = design.coi(coi) if coi is not None else None
        self.val = {}
        self.next_cache = {}
        self.dirty_comb = []
        self.in_heap = set()
        self.dirty_regs = set()
        self.memo = None
        self.functions = 0
        self.roms = {}
        self.defs = {}            # register -> (expression, the constant that names it), see Bench.do_cut
        self.limit = 200
        self.reset()

    # -- state -----------------------------------------------------------
    def reset(self):
        d = self.d
        self.val.clear()
        for k, s in d.sig.items():
            if isinstance(s, BigMem):
                a = z3.K(z3.BitVecSort(s.aw), bvv(0, s.width))
                for i, e in enumerate(s.sigs):
                    if e.reset.value:
                        a = z3.Store(a, bvv(i, s.aw), bvv(e.reset.value & ((1 << s.width) - 1), s.width))
                self.val[k] = a
            else:
                self.val[k] = s.reset.value if k not in d.big else s.reset.value
        self.dirty_comb = []
        self.in_heap.clear()
        for k in d.comb:
            if self.keep is None or k in self.keep:
                self.val[k] = self.d.sig[k].reset.value
                heapq.heappush(self.dirty_comb, (d.order[k], k))
                self.in_heap.add(k)
        self.dirty_regs = {k for k in d.sync if self.keep is None or k in self.keep}
        self.settle()

    def touch(self, duid):
        d = self.d
        keep = self.keep
        for f in d.fan_comb.get(duid, ()):
            if f not in self.in_heap and (keep is None or f in keep):
                heapq.heappush(self.dirty_comb, (d.order[f], f))
                self.in_heap.add(f)
        for f in d.fan_sync.get(duid, ()):
            if keep is None or f in keep:
                self.dirty_regs.add(f)

    def put(self, duid, v):
        old = self.val.get(duid)
        if old is None or not same(old, v):
            self.val[duid] = v
            self.touch(duid)
            return True
        return False

    def set(self, sig, v):
        """drive an input or overwrite a register; v: int or z3 (exact width)"""
        if sig.duid in self.d.comb:
            raise EncodeError("%r is driven by the design" % sig)
        self.put(sig.duid, self.store(sig, v))

    def store(self, sig, v):
        if isinstance(v, int):
            v &= (1 << sig.nbits) - 1
            if sig.signed and v >> (sig.nbits - 1):
                v -= 1 << sig.nbits
            return v
        if z3.is_bool(v):
            v = z3.If(v, bvv(1, 1), bvv(0, 1))
        if z3.is_bv_value(v):
            return self.store(sig, v.as_long())
        if v.size() != sig.nbits:
            raise EncodeError("width of %r" % sig)
        return v

    def settle(self):
        d = self.d
        count = {}
        while self.dirty_comb:
            _, k = heapq.heappop(self.dirty_comb)
            if k not in self.in_heap:
                continue
            self.in_heap.discard(k)
            c = count[k] = count.get(k, 0) + 1
            if c > self.limit:
                raise EncodeError("combinational loop through %r" % d.sig[k])
            s = d.sig[k]
            v = self.run(d.comb[k], s, self.unsigned(s, s.reset.value))
            v = self.tosig(s, v)
            if c > 3 and not isinstance(v, int):
                v = z3.simplify(v)
                v = self.store(s, v)
                o = self.val.get(k)
                if c > 4 and not isinstance(v, int) and o is not None and not isinstance(o, int) and not same(o, v) \
                        and z3.is_bv(v):
                    # bit-level self reference: stop once the value no longer changes semantically
                    sv = z3.SolverFor("QF_BV")
                    sv.add(v != o)
                    if sv.check() == z3.unsat:
                        continue
            self.put(k, v)

    def unsigned(self, s, v):
        return v & ((1 << s.nbits) - 1) if isinstance(v, int) else v

    def tosig(self, s, t):
        if isinstance(t, int):
            if s.signed and t >> (s.nbits - 1):
                return t - (1 << s.nbits)
            return t
        if z3.is_bv_value(t):
            return self.tosig(s, t.as_long())
        return t

    def get(self, node):
        """exact value of a signal / expression -> python int or z3 BitVec of len(node) bits"""
        self.settle()
        if isinstance(node, Signal):
            if self.keep is not None and node.duid in self.d.comb and node.duid not in self.keep:
                raise EncodeError("%r outside the cone" % node)
            v = self.val.get(node.duid)
            if v is None:
                return node.reset.value
            return v
        r = self.ev_t(node, len(node))
        return r

    def step(self, domains):
        """domains: iterable of names, or dict name -> z3 Bool / True"""
        self.settle()
        d = self.d
        if not isinstance(domains, dict):
            domains = {k: True for k in domains}
        upd = []
        for k in list(self.dirty_regs):
            kk = d.sync[k]
            cond = domains.get(kk[0], False)
            if cond is False:
                continue
            if cond is True:
                self.dirty_regs.discard(k)
            s = d.sig[k]
            if isinstance(s, BigMem):
                v = self.run_mem(kk[1], s, self.val[k])
                if cond is not True:
                    v = z3.If(cond, v, self.val[k])
                upd.append((k, v))
                continue
            cur = self.unsigned(s, self.val[k])
            v = self.run(kk[1], s, cur)
            if cond is not True:
                v = t_ite(cond, v, cur, s.nbits)
            v = self.tosig(s, v)
            df = self.defs.get(k)
            if df is not None and not isinstance(v, int) and df[1] is self.val[k] and df[0].eq(v):
                continue
            upd.append((k, v))
        for k, v in upd:
            self.put(k, v)
        self.settle()

    # -- statements ------------------------------------------------------
    def run(self, sl, sig, cur):
        for s in sl:
            k = s[0]
            if k == "a":
                cur = self.assign(s[1], s[2], sig, cur)
            elif k == "i":
                c = self.ev_b(s[1])
                if c is True:
                    cur = self.run(s[2], sig, cur)
                elif c is False:
                    cur = self.run(s[3], sig, cur)
                else:
                    a = self.run(s[2], sig, cur)
                    b = self.run(s[3], sig, cur)
                    cur = t_ite(c, a, b, sig.nbits)
            else:
                nb, sg = value_bits_sign(s[1])
                t = self.ev_t(s[1], nb)
                if isinstance(t, int):
                    if sg and t >> (nb - 1):
                        t -= 1 << nb
                    for key, body in s[2]:
                        if key == t:
                            cur = self.run(body, sig, cur)
                            break
                    else:
                        if s[3] is not None:
                            cur = self.run(s[3], sig, cur)
                else:
                    r = self.run(s[3], sig, cur) if s[3] is not None else cur
                    tv = SV(t, sg)
                    for key, body in reversed(s[2]):
                        c = x_cmp("==", tv, key)
                        if c is False:
                            continue
                        r = t_ite(c, self.run(body, sig, cur), r, sig.nbits)
                    cur = r
        return cur

    def assign(self, lhs, rhs, sig, cur):
        t = ntype(lhs)
        if t is Signal:
            return self.ev_t(rhs, sig.nbits)
        n = len(lhs)
        v = self.ev_t(rhs, n)
        return self.assign_v(lhs, v, n, sig, cur)

    def assign_v(self, lhs, v, n, sig, cur):
        """v: truncated n-bit value assigned to lhs; returns new value of sig"""
        t = ntype(lhs)
        if t is Signal:
            if lhs.duid != sig.duid:
                return cur
            # v may be narrower than the target: values assigned through Cat/Array are masked
            return self.fit(v, n, sig.nbits)
        if t is Cat:
            pos = 0
            for e in lhs.l:
                w = len(e)
                if sig.duid in self.d.lhs_targets(e):
                    if isinstance(v, int):
                        part = (v >> pos) & ((1 << w) - 1)
                    elif pos >= n:
                        part = 0
                    else:
                        part = self.fit(extract(v, min(pos + w, n) - 1, pos), min(pos + w, n) - pos, w)
                    cur = self.assign_v(e, part, w, sig, cur)
                pos += w
            return cur
        if t is _Slice:
            if ntype(lhs.value) is not Signal:
                # nested lhs: read-modify-write of the inner expression is only supported on signals
                if ntype(lhs.value) is _Slice:
                    inner = lhs.value
                    return self.assign_v(_Slice(inner.value, inner.start + lhs.start, inner.start + lhs.stop),
                                         v, n, sig, cur)
                if ntype(lhs.value) is Cat:
                    # split over the members
                    pos = 0
                    vpos = 0
                    for e in lhs.value.l:
                        w = len(e)
                        lo, hi = max(lhs.start, pos), min(lhs.stop, pos + w)
                        if lo < hi:
                            ww = hi - lo
                            part = (v >> vpos) & ((1 << ww) - 1) if isinstance(v, int) else extract(v, vpos + ww - 1, vpos)
                            if sig.duid in self.d.lhs_targets(e):
                                cur = self.assign_v(_Slice(e, lo - pos, hi - pos), part, ww, sig, cur)
                            vpos += ww
                        pos += w
                    return cur
                if ntype(lhs.value) is _ArrayProxy:
                    return self.assign_array(lhs.value, lambda c, cu: self.assign_v(_Slice(c, lhs.start, lhs.stop), v, n, sig, cu), sig, cur)
                raise EncodeError("nested slice lhs")
            if lhs.value.duid != sig.duid:
                return cur
            N = sig.nbits
            lo, hi = lhs.start, lhs.stop
            w = hi - lo
            v = self.fit(v, n, w)
            if isinstance(v, int) and isinstance(cur, int):
                m = ((1 << w) - 1) << lo
                return (cur & ~m) | (v << lo)
            cb = asbv(cur, N)
            parts = []
            if hi < N:
                parts.append(extract(cb, N - 1, hi))
            parts.append(asbv(v, w))
            if lo > 0:
                parts.append(extract(cb, lo - 1, 0))
            return z3.Concat(*parts) if len(parts) > 1 else parts[0]
        if t is _Part:
            if ntype(lhs.value) is not Signal:
                raise EncodeError("nested part lhs")
            if lhs.value.duid != sig.duid:
                return cur
            N = sig.nbits
            off = self.ev(lhs.offset)
            v = self.fit(v, n, lhs.width)
            mask = x_shl((1 << lhs.width) - 1, off, N)
            val = x_shl(v if isinstance(v, int) else SV(v, False), off, N)
            m, vv = trunc(mask, N), trunc(val, N)
            if isinstance(m, int) and isinstance(vv, int) and isinstance(cur, int):
                return (cur & ~m) | vv
            m, vv, cb = asbv(m, N), asbv(vv, N), asbv(cur, N)
            return (cb & ~m) | vv
        if t is _ArrayProxy:
            return self.assign_array(lhs, lambda c, cu: self.assign_v(c, v, n, sig, cu), sig, cur)
        if t is _MemoryLocation:
            return self.assign_v(_ArrayProxy(self.d.memrep[lhs.memory], lhs.index), v, n, sig, cur)
        raise EncodeError("lhs %s" % t)

    def assign_array(self, proxy, f, sig, cur):
        key = self.ev(proxy.key)
        last = len(proxy.choices) - 1
        if type(key) is int:
            c = proxy.choices[min(last, key)]
            if sig.duid in self.d.lhs_targets(c):
                return f(c, cur)
            return cur
        base = cur
        for i, c in enumerate(proxy.choices):
            if sig.duid not in self.d.lhs_targets(c):
                continue
            cond = x_cmp("==", key, i) if i < last else x_cmp(">=", key, i)
            if cond is False:
                continue
            cur = t_ite(cond, f(c, base), cur, sig.nbits)
        return cur

    def fit(self, v, n, N):
        if isinstance(v, int):
            return v & ((1 << N) - 1)
        if v.size() == N:
            return v
        return ext(v, N, False)

    def run_mem(self, sl, bm, cur):
        for s in sl:
            k = s[0]
            if k == "a":
                lhs = s[1]
                lo, hi = 0, bm.width
                if ntype(lhs) is _Slice:
                    lo, hi = lhs.start, lhs.stop
                    lhs = lhs.value
                key = self.ev(lhs.key)
                key = self.memkey(key, bm)
                v = asbv(self.ev_t(s[2], hi - lo), hi - lo)
                if lo != 0 or hi != bm.width:
                    old = z3.Select(cur, key)
                    parts = []
                    if hi < bm.width:
                        parts.append(extract(old, bm.width - 1, hi))
                    parts.append(v)
                    if lo:
                        parts.append(extract(old, lo - 1, 0))
                    v = z3.Concat(*parts)
                cur = z3.Store(cur, key, v)
            elif k == "i":
                c = self.ev_b(s[1])
                if c is True:
                    cur = self.run_mem(s[2], bm, cur)
                elif c is False:
                    cur = self.run_mem(s[3], bm, cur)
                else:
                    a = self.run_mem(s[2], bm, cur)
                    b = self.run_mem(s[3], bm, cur)
                    cur = a if a.eq(b) else z3.If(c, a, b)
            else:
                raise EncodeError("case on memory write")
        return cur

    def memkey(self, key, bm):
        if type(key) is int:
            return bvv(min(key, bm.depth - 1), bm.aw)
        n = max(key.w, bm.aw)
        k = ext(key.e, n, False)
        if bm.depth < (1 << key.w):
            k = z3.If(z3.UGE(k, bvv(bm.depth - 1, n)), bvv(bm.depth - 1, n), k)
        return extract(k, bm.aw - 1, 0)

    # -- expressions -----------------------------------------------------
    def sigval(self, node):
        v = self.val.get(node.duid)
        if v is None:
            return node.reset.value
        if isinstance(v, int):
            return v
        return SV(v, node.signed)

    def ev(self, node):
        """exact value"""
        t = ntype(node)
        if t is Constant:
            return node.value
        if t is Signal:
            return self.sigval(node)
        if t is _Operator:
            op = node.op
            ops = node.operands
            if op == "m":
                a = self.ev(ops[0])
                c = x_cmp("!=", a, 0)
                if c is True:
                    return self.ev(ops[1])
                if c is False:
                    return self.ev(ops[2])
                return x_ite(c, self.ev(ops[1]), self.ev(ops[2]))
            if op == "~":
                return x_inv(self.ev(ops[0]))
            if op == "-" and len(ops) == 1:
                return x_neg(self.ev(ops[0]))
            a, b = self.ev(ops[0]), self.ev(ops[1])
            if op == "+":
                return x_add(a, b)
            if op == "-":
                return x_sub(a, b)
            if op == "*":
                return x_mul(a, b)
            if op == ">>>":
                return x_shr(a, b)
            if op == "<<<":
                return x_shl(a, b)
            if op in "&|^":
                return x_bit(op, a, b)
            return b2v(x_cmp(op, a, b))
        if t is _Slice:
            return self.wrap(self.ev_t(node.value, node.stop), node.stop, node.start)
        if t is _Part:
            v = x_shr(self.ev(node.value), self.ev(node.offset))
            return self.wrap(trunc(v, node.width), node.width, 0)
        if t is Cat:
            r = 0
            parts = []
            for e in node.l:
                w = len(e)
                if w:
                    parts.append((self.ev_t(e, w), w))
            return self.cat(parts)
        if t is Replicate:
            w = len(node.v)
            return self.cat([(self.ev_t(node.v, w), w)] * node.n)
        if t is _ArrayProxy:
            key = self.ev(node.key)
            last = len(node.choices) - 1
            bm = self.d.bigof(node)
            if bm is not None:
                return mk(z3.simplify(z3.Select(self.val[bm.duid], self.memkey(key, bm))), False)
            if type(key) is int:
                return self.ev(node.choices[min(last, key)])
            return self.select(key, node.choices)
        if t is _MemoryLocation:
            return self.ev(_ArrayProxy(self.d.memrep[node.memory], node.index))
        if t is ClockSignal:
            return self.sigval(self.d.cds[node.cd].clk)
        if t is ResetSignal:
            s = self.d.cds[node.cd].rst
            if s is None:
                if node.allow_reset_less:
                    return 0
                raise EncodeError("reset of resetless domain")
            return self.sigval(s)
        raise EncodeError("expr %s" % t)

    def wrap(self, t, w, lo):
        if isinstance(t, int):
            return t >> lo
        return mk(extract(t, w - 1, lo), False)

    def cat(self, parts):
        if not parts:
            return 0
        if all(isinstance(p, int) for p, _ in parts):
            r = sh = 0
            for p, w in parts:
                r |= p << sh
                sh += w
            return r
        out = []
        for p, w in parts:
            # merge runs of constants
            if isinstance(p, int) and out and isinstance(out[-1][0], int):
                q, qw = out[-1]
                out[-1] = (q | (p << qw), qw + w)
            else:
                out.append((p, w))
        bvs = [asbv(p, w) for p, w in out]
        return SV(z3.Concat(*reversed(bvs)) if len(bvs) > 1 else bvs[0], False)

    def select(self, key, choices):
        """balanced selection on the key bits"""
        last = len(choices) - 1
        kw = key.w
        ke = key.e
        n = 1 << max(1, (len(choices) - 1).bit_length())
        nb = n.bit_length() - 1
        vals = [self.ev(c) for c in choices]
        if len(vals) > 16 and all(type(v) is int for v in vals):
            # a table of constants: the same key gives the same term
            ck = (ke.get_id(), kw, tuple(vals))
            hit = self.roms.get(ck)
            if hit is not None and hit[0].eq(ke):
                return hit[1]
            self.roms[ck] = (ke, self.select_in(ke, kw, n, nb, vals, key))
            return self.roms[ck][1]
        return self.select_in(ke, kw, n, nb, vals, key)

    def select_in(self, ke, kw, n, nb, vals, key):
        full = vals + [vals[-1]] * (n - len(vals))

        def rec(lo, cnt, bit):
            if cnt == 1:
                return full[lo]
            h = cnt // 2
            if bit >= kw:
                return rec(lo, h, bit - 1)
            c = bit2bool(extract(ke, bit, bit))
            if c is True:
                return rec(lo + h, h, bit - 1)
            if c is False:
                return rec(lo, h, bit - 1)
            return x_ite(c, rec(lo + h, h, bit - 1), rec(lo, h, bit - 1))
        r = rec(0, n, nb - 1)
        if kw > nb:
            over = x_cmp(">=", key, n)
            r = x_ite(over, vals[-1], r)
        return r

    def ev_t(self, node, n):
        """low n bits of the exact value: int or BitVec(n)"""
        t = ntype(node)
        if t is Constant:
            return node.value & ((1 << n) - 1)
        if t is Signal:
            v = self.val.get(node.duid)
            if v is None:
                v = node.reset.value
            if isinstance(v, int):
                return v & ((1 << n) - 1)
            w = node.nbits
            if w == n:
                return v
            return ext(v, n, node.signed)
        if t is _Operator:
            op = node.op
            ops = node.operands
            if op in ("+", "-", "*", "~", "&", "|", "^") :
                w = self.swidth(node)
                if w is not None and w > n:
                    if len(ops) == 1:
                        a = self.ev_t(ops[0], n)
                        if isinstance(a, int):
                            return (~a if op == "~" else -a) & ((1 << n) - 1)
                        return ~a if op == "~" else -a
                    a, b = self.ev_t(ops[0], n), self.ev_t(ops[1], n)
                    if isinstance(a, int) and isinstance(b, int):
                        r = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "&": lambda: a & b,
                             "|": lambda: a | b, "^": lambda: a ^ b}[op]()
                        return r & ((1 << n) - 1)
                    if op == "&":
                        if (isinstance(a, int) and a == 0) or (isinstance(b, int) and b == 0):
                            return 0
                    x, y = asbv(a, n), asbv(b, n)
                    if n == 1 and op in ("&", "|", "^"):
                        bx, by = bit2bool(x), bit2bool(y)
                        return trunc(b2v({"&": b_and, "|": b_or, "^": b_xor}[op](bx, by)), 1)
                    if op == "+":
                        return x + y
                    if op == "-":
                        return x - y
                    if op == "*":
                        return x * y
                    if op == "&":
                        return x & y
                    if op == "|":
                        return x | y
                    return x ^ y
            elif op == "m":
                c = x_cmp("!=", self.ev(ops[0]), 0)
                if c is True:
                    return self.ev_t(ops[1], n)
                if c is False:
                    return self.ev_t(ops[2], n)
                return t_ite(c, self.ev_t(ops[1], n), self.ev_t(ops[2], n), n)
            elif op == "<<<":
                a, b = self.ev(ops[0]), self.ev(ops[1])
                return trunc(x_shl(a, b, n), n)
            if n == 1 and op in ("&", "|", "^", "~"):
                return trunc(b2v(self.ev_b1(node)), 1)
            return trunc(self.ev(node), n)
        if t is _ArrayProxy:
            key = self.ev(node.key)
            if type(key) is int and self.d.bigof(node) is None:
                return self.ev_t(node.choices[min(len(node.choices) - 1, key)], n)
        return trunc(self.ev(node), n)

    def swidth(self, node):
        """static upper bound of the exact width (None: unknown)"""
        t = ntype(node)
        if t is Constant:
            return int_dims(node.value)[0]
        if t is Signal:
            return node.nbits
        if t is _Operator:
            op = node.op
            if op in ("<", "<=", "==", "!=", ">", ">="):
                return 1
            if op == "m":
                ws = [self.swidth(o) for o in node.operands[1:]]
            else:
                ws = [self.swidth(o) for o in node.operands]
            if any(w is None for w in ws):
                return None
            if op in ("+", "-"):
                return max(ws) + 1
            if op == "*":
                return sum(ws)
            if op == "~":
                return ws[0] + 1
            if op in ("&", "|", "^", "m"):
                return max(ws) + 1
            if op == ">>>":
                return ws[0]
            return None
        if t in (_Slice, _Part, Cat, Replicate):
            return len(node)
        return None

    def ev_b(self, node):
        """If-condition: value masked to len(node) is nonzero"""
        n = len(node)
        if n == 1:
            return self.ev_b1(node)
        v = self.ev_t(node, n)
        if isinstance(v, int):
            return v != 0
        return x_cmp("!=", SV(v, False), 0)

    def ev_b1(self, node):
        """low bit of node as a Bool"""
        t = ntype(node)
        if t is _Operator:
            op = node.op
            ops = node.operands
            if op in ("<", "<=", "==", "!=", ">", ">="):
                return x_cmp(op, self.ev(ops[0]), self.ev(ops[1]))
            if op == "&":
                a = self.ev_b1(ops[0])
                if a is False:
                    return False
                return b_and(a, self.ev_b1(ops[1]))
            if op == "|":
                a = self.ev_b1(ops[0])
                if a is True:
                    return True
                return b_or(a, self.ev_b1(ops[1]))
            if op == "^":
                return b_xor(self.ev_b1(ops[0]), self.ev_b1(ops[1]))
            if op == "~":
                return b_not(self.ev_b1(ops[0]))
        v = self.ev_t(node, 1)
        if isinstance(v, int):
            return v != 0
        return bit2bool(v)
