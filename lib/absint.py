"""Forward abstract interpreter over LLVM IR with a disjunctive (trace
partitioned) domain.  Never runs the program: registers hold abstract values
(dom.Poly modulo 2^N) under a constraint store."""
import os
import heapq
import re
from dom import *
import dom
import ir

MAXSTATES = 20000


SMALL_WORDS = not os.environ.get('VP_MODEL', 'lp64').startswith('lp64')     # 64-bit values are handled in words


class Exit:
    __slots__ = ('kind', 'val', 'st', 'inst', 'events', 'why', 'mem', 'fn', 'trace')

    def __init__(self, kind, val, st, inst, events, mem=None, fn=None, trace=()):
        self.kind, self.val, self.st, self.inst, self.events, self.mem, self.fn = kind, val, st, inst, events, mem, fn
        t = []
        while trace:
            t.append(trace[1])
            trace = trace[0]
        self.trace = t[::-1]


class State:
    __slots__ = ('fn', 'blk', 'idx', 'prev', 'env', 'st', 'mem', 'ev', 'stack', 'visits', 'trace')

    def clone(self, st=None):
        s = State.__new__(State)
        s.fn, s.blk, s.idx, s.prev = self.fn, self.blk, self.idx, self.prev
        s.env = dict(self.env)
        s.st = st if st is not None else self.st.copy()
        s.mem = {k: dict(v) for k, v in self.mem.items()}
        s.ev = self.ev
        s.trace = self.trace
        s.stack = [(f, b, i, p, dict(e), r) for f, b, i, p, e, r in self.stack]
        s.visits = dict(self.visits)
        return s


class Analyzer:
    """handlers: dict name -> fn(an, state, inst, args) -> None (default external event)"""

    def __init__(self, mod, externs=None, max_steps=400000, max_visits=200, coarse=False):
        self.m = mod
        self.coarse = coarse
        self.externs = externs or {}
        self.max_steps = max_steps
        self.max_visits = max_visits
        self.steps = 0
        self.npaths = 0
        self.nobj = 0
        self.funcs_seen = set()
        self.splits = 0
        self._order = {}

    # ------------------------------------------------------------------
    def run(self, fname, args, st):
        """args: list of abstract values; returns list of Exit"""
        f = self.m.funcs.get(fname)
        if f is None:
            raise ir.IRError('no function ' + fname)
        s = State.__new__(State)
        f.blocks
        s.fn, s.blk, s.idx, s.prev = f, f.order[0], 0, None
        s.env = {}
        s.st = st
        s.mem = {}
        s.ev = ()
        s.trace = None
        s.stack = []
        s.visits = {}
        if len(args) != len(f.params):
            raise ir.IRError('arity %s' % fname)
        for (t, n, a), v in zip(f.params, args):
            s.env[n] = v
        self.exits = []
        self.work = [s]
        self.funcs_seen.add(fname)
        while self.work:
            if len(self.work) > MAXSTATES:
                raise Imprecise('too many states')
            s = self.work.pop()
            try:
                self.exec_state(s)
            except Infeasible:
                pass
        return self.exits

    # ------------------------------------------------------------------
    def newobj(self, s, size=None):
        self.nobj += 1
        o = 'o%d' % self.nobj
        s.mem[o] = {}
        return ('ptr', o, 0)

    def exit(self, s, kind, val, inst):
        self.npaths += 1
        self.exits.append(Exit(kind, val, s.st, inst, s.ev, s.mem, s.fn, s.trace))

    def exec_state(self, s):
        while True:
            ins = s.fn.blocks[s.blk]
            if s.idx >= len(ins):
                raise ir.IRError('fell off block')
            i = ins[s.idx]
            self.steps += 1
            if self.steps > self.max_steps:
                raise Imprecise('step budget')
            r = self.step(s, i)
            if r is None:
                return
            if r is True:
                continue

    def goto(self, s, tgt):
        s.prev = s.blk
        s.blk = tgt
        s.idx = 0
        k = (s.fn.name, tgt, len(s.stack))
        v = s.visits.get(k, 0) + 1
        s.visits[k] = v
        if v > self.max_visits:
            raise Imprecise('loop does not settle: %s %s' % (s.fn.name, tgt))
        # phis, simultaneously
        ins = s.fn.blocks[tgt]
        vals = []
        j = 0
        while j < len(ins) and ins[j].op == 'phi':
            for v, b in ins[j].a:
                if b == s.prev:
                    vals.append((ins[j].res, self.opnd(s, ins[j].ty, v)))
                    break
            else:
                raise ir.IRError('phi edge')
            j += 1
        for n, v in vals:
            s.env[n] = v
        s.idx = j
        return True

    # ------------------------------------------------------------------ operands
    def opnd(self, s, ty, o):
        k = o[0]
        if k == 'l':
            return s.env[o[1]]
        if k == 'c':
            return K(o[1])
        if k == 'g':
            return ('ptr', o[1], 0)
        if k in ('undef', 'poison'):
            return self.undef(s, ty)
        if k == 'null':
            return ('ptr', None, 0)
        if k == 'zero':
            return self.zero(ty)
        if k == 'agg':
            return ('agg', [self.opnd(s, t, v) for t, v in o[1]])
        if k == 'gep':
            base = self.opnd(s, PTRT, o[2])
            return self.gep(s, base, o[1], o[3])
        if k == 'cast':
            v = self.opnd(s, o[2], o[3])
            if o[1] == 'ptrtoint':
                return self.p2i(v)
            if o[1] == 'inttoptr':
                return self.i2p(v)
            return v
        if k == 'f':
            return ('float', o[1])
        if k == 'str':
            return ('bytes', o[1])
        raise Imprecise('operand ' + k)

    def undef(self, s, ty):
        t = self.m.resolve(ty)
        if t[0] == 'st':
            return ('agg', [self.undef(s, x) for x in t[1]])
        if t[0] == 'arr':
            return ('agg', [self.undef(s, t[2]) for _ in range(t[1])])
        return ('undefp',)

    def toint(self, s, v, N):
        """integer view of any scalar abstract value (undef / pointer bits become an opaque atom)"""
        if isinstance(v, Poly):
            return v
        if v[0] in ('undefp', 'partial'):
            return unknown(s.st, 0, (1 << N) - 1, 'undef')
        if v[0] in ('ptrint', 'ptr', 'intptr', 'ptrsym'):
            p = v[1] if v[0] == 'ptrint' else v
            if p[0] == 'ptr' and p[1] is None:
                return K(p[2])
            if p[0] == 'intptr':
                return p[1]
            if p[0] != 'ptr':
                return unknown(s.st, 0, (1 << N) - 1, 'undef')
            a = atom('unk', 'ptr%r' % (p,))
            s.st.assume(A(a), 0, (1 << N) - 1)
            return A(a)
        raise Imprecise('integer view of ' + v[0])

    def p2i(self, v):
        if isinstance(v, Poly):
            return v
        if v[0] == 'intptr':
            return v[1]
        if v[0] in ('ptr', 'ptrsym'):
            return ('ptrint', v)
        return v

    def i2p(self, v):
        if isinstance(v, Poly):
            return ('ptr', None, 0) if v.const() == 0 else ('intptr', v)
        if v[0] == 'ptrint':
            return v[1]
        return v

    def zero(self, ty):
        t = self.m.resolve(ty)
        if t[0] == 'i':
            return ZERO
        if t[0] == 'st':
            return ('agg', [self.zero(x) for x in t[1]])
        if t[0] == 'arr':
            return ('agg', [self.zero(t[2]) for _ in range(t[1])])
        if t[0] == 'ptr':
            return ('ptr', None, 0)
        return ('float', '0.0')

    # ------------------------------------------------------------------ representatives
    def wraps(self, s, e, base, N):
        """partition by k such that base+k*2^N <= e < base+(k+1)*2^N : [(state, e - k*2^N)]"""
        M = 1 << N
        e = s.st.simp(e)
        l, h = s.st.bounds(e)
        if l is None or h is None:
            raise Imprecise('unbounded value')
        e0, l0, h0 = e, l, h
        if (l < base or h >= base + M) and any(m and c % M == 0 for m, c in e.d.items()):
            # terms that are multiples of 2^N do not matter
            e = Poly({m: c for m, c in e.d.items() if not m or c % M})
            l, h = s.st.bounds(e)
        kl, kh = (l - base) // M, (h - base) // M
        if kl == kh:
            return [(s, e - kl * M)]
        if any(m and 2 * abs(c) > M for m, c in e.d.items()):
            # coefficients in the symmetric residue system have the smaller spread
            e2 = Poly({m: (c + M // 2) % M - M // 2 if m else c for m, c in e.d.items()})
            l2, h2 = s.st.bounds(e2)
            if l2 is not None and h2 is not None and h2 - l2 < h - l:
                e, l, h = e2, l2, h2
                kl, kh = (l - base) // M, (h - base) // M
                if kl == kh:
                    return [(s, e - kl * M)]
        # large spread: reduce constant/coefs
        if kh - kl > 8:
            e2 = self.reduce(e, N)
            if e2 != e:
                l, h = s.st.bounds(e2)
                kl, kh = (l - base) // M, (h - base) // M
                e = e2
                if kl == kh:
                    return [(s, e - kl * M)]
        if kh - kl > 8:
            if SMALL_WORDS and base == 0 and (l0 >= 0 or h0 < 0 and l0 >= -(1 << 64)) and h0 < 1 << 64:
                # a word of a wider value: the rest is the value divided by 2^N
                x = e0 if l0 >= 0 else e0 + (1 << (32 if l0 >= -(1 << 32) else 64))
                v = x - posdiv(s.st, x, K(M)) * M
                s.st.assume(v, 0, M - 1)
                return [(s, v)]
            v = unknown(s.st, base, base + M - 1, 'wrap')
            return [(s, v)]
        out = []
        self.splits += 1
        for k in range(kl, kh + 1):
            t = s.clone()
            try:
                t.st.assume(e, base + k * M, base + (k + 1) * M - 1)
            except Infeasible:
                continue
            out.append((t, e - k * M))
        return out

    def reduce(self, e, N):
        M = 1 << N
        d = {}
        for m, c in e.d.items():
            c %= M
            if c > M // 2:
                c -= M
            if c:
                d[m] = c
        return Poly(d)

    def usig(self, s, e, N):
        return self.wraps(s, e, 0, N)

    def ssig(self, s, e, N):
        return self.wraps(s, e, -(1 << (N - 1)), N)

    # ------------------------------------------------------------------ one instruction
    def branch(self, outs):
        """outs: list of states ready to continue; push them"""
        for t in outs:
            self.work.append(t)
        return None

    def fin(self, outs, res):
        """outs: [(state, value)] assign and advance"""
        if len(outs) == 1:
            t, v = outs[0]
            if t is self.cur:
                if res:
                    t.env[res] = v
                t.idx += 1
                return True
        for t, v in outs:
            if res:
                t.env[res] = v
            t.idx += 1
            self.work.append(t)
        return None

    def step(self, s, i):
        self.cur = s
        op = i.op
        if op in ir.BIN:
            N = i.ty[1]
            a = self.opnd(s, i.ty, i.a[0])
            b = self.opnd(s, i.ty, i.a[1])
            return self.fin(self.binop(s, i, op, N, a, b, i.a[2]), i.res)
        if op == 'icmp':
            return self.icmp(s, i)
        if op == 'cbr':
            c = self.opnd(s, ('i', 1), i.a[0])
            outs = self.boolsplit(s, c)
            if len(outs) == 1:
                t, v = outs[0]
                if t is s:
                    s.trace = (s.trace, (i.dbg, 'true' if v else 'false'))
                    return self.goto(s, i.a[1] if v else i.a[2])
            for t, v in outs:
                try:
                    t.trace = (t.trace, (i.dbg, 'true' if v else 'false'))
                    self.goto(t, i.a[1] if v else i.a[2])
                    self.work.append(t)
                except Infeasible:
                    pass
            return None
        if op == 'br':
            return self.goto(s, i.a[0])
        if op == 'select':
            c = self.opnd(s, ('i', 1), i.a[0])
            outs = self.boolsplit(s, c)
            return self.fin([(t, self.opnd(t, i.ty, i.a[1] if v else i.a[2])) for t, v in outs], i.res)
        if op == 'ret':
            v = None if i.a[0] is None else self.opnd(s, i.ty, i.a[0])
            if not s.stack:
                self.exit(s, 'ret', (v, i.ty), i)
                return None
            f, b, ix, pv, env, res = s.stack.pop()
            s.fn, s.blk, s.idx, s.prev, s.env = f, b, ix + 1, pv, env
            if res:
                s.env[res] = v
            if f.blocks[b][ix].op == 'invoke':
                return self.goto(s, f.blocks[b][ix].a[2])
            return True
        if op == 'unreachable':
            self.exit(s, 'unreachable', None, i)
            return None
        if op in ('zext', 'sext', 'trunc'):
            return self.cast(s, i)
        if op == 'freeze':
            return self.fin([(s, self.opnd(s, i.ty, i.a[0]))], i.res)
        if op == 'alloca':
            return self.fin([(s, self.newobj(s))], i.res)
        if op == 'load':
            return self.fin(self.load(s, i.ty, self.opnd(s, PTRT, i.a[0])), i.res)
        if op == 'store':
            v = self.opnd(s, i.ty, i.a[0])
            self.store(s, i.ty, v, self.opnd(s, PTRT, i.a[1]))
            return self.fin([(s, None)], None)
        if op == 'gep':
            base = self.opnd(s, PTRT, i.a[1])
            return self.fin([(s, self.gep(s, base, i.a[0], i.a[2]))], i.res)
        if op == 'insertvalue':
            a = self.opnd(s, i.ty, i.a[0])
            v = self.opnd(s, i.a[1], i.a[2])
            return self.fin([(s, self.insertv(s, i.ty, a, v, i.a[3]))], i.res)
        if op == 'extractvalue':
            a = self.opnd(s, i.ty, i.a[0])
            for k in i.a[1]:
                if a[0] != 'agg':
                    a = ('undefp',)
                    break
                a = a[1][k]
            return self.fin([(s, a)], i.res)
        if op in ('call', 'invoke'):
            return self.call(s, i)
        if op == 'switch':
            return self.switch(s, i)
        if op in ('ptrtoint', 'inttoptr', 'bitcast'):
            v = self.opnd(s, i.a[0], i.a[1])
            if op == 'ptrtoint':
                v = self.p2i(v)
            elif op == 'inttoptr':
                v = self.i2p(v)
            return self.fin([(s, v)], i.res)
        if op == 'phi':
            raise ir.IRError('phi')
        if op == 'resume':
            self.exit(s, 'resume', None, i)
            return None
        raise Imprecise('instruction ' + op)

    def boolsplit(self, s, c):
        c = self.toint(s, c, 1)
        c = s.st.simp(c)
        k = c.const()
        if k is not None:
            return [(s, k & 1)]
        l, h = s.st.bounds(c)
        if l == h and l is not None:
            return [(s, l & 1)]
        out = []
        for v in (0, 1):
            t = s.clone()
            try:
                t.st.assume(c, v, v)
            except Infeasible:
                continue
            out.append((t, v))
        return out

    # ------------------------------------------------------------------ casts
    def cast(self, s, i):
        v = self.opnd(s, i.a[0], i.a[1])
        N = i.a[0][1]
        if i.op == 'trunc' and isinstance(v, tuple) and v[0] == 'partial' and i.ty[1] <= v[1]:
            return self.fin([(s, v[2])], i.res)
        v = self.toint(s, v, N)
        if i.op == 'trunc':
            return self.fin([(s, v)], i.res)
        if i.op == 'zext':
            return self.fin(self.usig(s, v, N), i.res)
        return self.fin(self.ssig(s, v, N) if N > 1 else [(t, -x) for t, x in self.usig(s, v, N)], i.res)

    # ------------------------------------------------------------------ binary operators
    def lift(self, s, outs_f, fn):
        res = []
        for t, x in outs_f:
            res.extend(fn(t, x))
        return res

    def with_store(self, s, pairs):
        """[(store,val)] from a dom function run on s.st -> [(state,val)]"""
        if len(pairs) == 1 and pairs[0][0] is s.st:
            return [(s, pairs[0][1])]
        out = []
        for st, v in pairs:
            t = s.clone(st=st)
            out.append((t, v))
        return out

    def partial(self, s, op, N, a, b):
        """a register whose low k bits are known and whose other bits are undefined: ('partial', k, low)"""
        if isinstance(a, Poly) and isinstance(b, tuple):
            a, b = b, a
        if not isinstance(a, tuple) or not isinstance(b, Poly):
            return None
        if op == 'and' and a[0] in ('undefp', 'partial') and b.const() is not None:
            m = (-b.const()) % (1 << N)
            if m and m & (m - 1) == 0:
                return ('partial', m.bit_length() - 1, ZERO)
        if op == 'or' and a[0] == 'partial' and a[2].const() == 0:
            l, h = s.st.bounds(b)
            if l is not None and h is not None and l >= 0 and h < (1 << a[1]):
                return ('partial', a[1], b)
        return None

    def binop(self, s, i, op, N, a, b, flags=()):
        if op in ('and', 'or') and (isinstance(a, tuple) or isinstance(b, tuple)):
            r = self.partial(s, op, N, a, b)
            if r is not None:
                return [(s, r)]
        a = self.toint(s, a, N)
        b = self.toint(s, b, N)
        st = s.st
        if N == 1 and op in ('and', 'or', 'xor', 'add', 'sub', 'mul'):
            out = []
            for t, x in self.boolsplit(s, a):
                for t2, y in self.boolsplit(t, b):
                    r = {'and': x & y, 'or': x | y, 'xor': x ^ y, 'add': x ^ y, 'sub': x ^ y, 'mul': x & y}[op]
                    out.append((t2, K(r)))
            return out
        if op == 'add':
            return [(s, a + b)]
        if op == 'sub':
            return [(s, a - b)]
        if op == 'mul':
            a, b = st.simp(a), st.simp(b)
            # products of wide values: use reduced representatives where they are unique
            return [(s, self.mulred(s, a, N) * self.mulred(s, b, N))]
        if op in ('and', 'or', 'xor'):
            return self.bitop(s, op, N, a, b)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            rep = self.usig if op[0] == 'u' else self.ssig
            out = []
            for t, x in rep(s, a, N):
                for t2, y in rep(t, b, N):
                    l, h = t2.st.bounds(y)
                    if l == 0 == h:
                        self.exit(t2, 'ub', 'divide by zero', i)
                        continue
                    if l <= 0 <= h:
                        z = t2.clone()
                        try:
                            z.st.assume(y, 0, 0)
                            self.exit(z, 'ub', 'divide by zero', i)
                        except Infeasible:
                            pass
                    if op[0] == 's':
                        # INT_MIN / -1
                        mn = -(1 << (N - 1))
                        if t2.st.bounds(x)[0] <= mn and t2.st.bounds(y)[0] <= -1 <= t2.st.bounds(y)[1]:
                            z = t2.clone()
                            try:
                                z.st.assume(x, mn, mn)
                                z.st.assume(y, -1, -1)
                                self.exit(z, 'ub', 'division overflow', i)
                            except Infeasible:
                                pass
                            # the remaining states exclude that point
                            parts = []
                            for (xl, xh, yl, yh) in ((mn + 1, None, None, None), (mn, mn, None, -2), (mn, mn, 0, None)):
                                w = t2.clone()
                                try:
                                    w.st.assume(x, xl, xh)
                                    w.st.assume(y, yl, yh)
                                    parts.append(w)
                                except Infeasible:
                                    pass
                        else:
                            parts = [t2]
                    else:
                        parts = [t2]
                    for w in parts:
                        for t3, q in self.with_store(w, tdiv(w.st, x, y)):
                            out.append((t3, q if op.endswith('div') else x - q * y))
            return out
        if op in ('shl', 'lshr', 'ashr'):
            out = []
            for t, y in self.usig(s, b, N):
                l, h = t.st.bounds(y)
                if l >= N:
                    self.exit(t, 'ub', 'shift amount', i)
                    continue
                if h >= N:
                    z = t.clone()
                    try:
                        z.st.assume(y, N, None)
                        self.exit(z, 'ub', 'shift amount', i)
                    except Infeasible:
                        pass
                    try:
                        t.st.assume(y, None, N - 1)
                    except Infeasible:
                        continue
                if op == 'shl':
                    out.append((t, shl_term(t.st, self.reduce(t.st.simp(a), N), y)))
                    continue
                rep = self.usig if op == 'lshr' else self.ssig
                for t2, x in rep(t, a, N):
                    for st3, sg in split_sign(t2.st, x):
                        t3 = t2 if st3 is t2.st else t2.clone(st=st3)
                        out.append((t3, shr_term(t3.st, x, y)))
            return out
        raise Imprecise(op)

    def mulred(self, s, a, N):
        if a.const() is not None:
            return a
        # reduce by whole multiples of 2^N only if it makes the term simpler
        return self.reduce(a, N) if len(a.d) > 1 or True else a

    def bitop(self, s, op, N, a, b):
        # xor with all ones
        st = s.st
        for x, y in ((a, b), (b, a)):
            # disjoint bits
            z = min([(c & -c).bit_length() - 1 for c in y.d.values()] or [0])
            l, h = st.bounds(x) if z else (None, None)
            if l is not None and h is not None and l >= 0 and h < 1 << z:
                return [(s, ZERO if op == 'and' else a + b)]
        outs = [(s, a, b)]
        # resolve signs for precise bounds when cheap
        res = []
        for t, x, y in outs:
            ca, cb = x.const(), y.const()
            if op == 'xor' and (ca is not None and ca % (1 << N) == (1 << N) - 1):
                res.append((t, -1 - y))
                continue
            if op == 'xor' and (cb is not None and cb % (1 << N) == (1 << N) - 1):
                res.append((t, -1 - x))
                continue
            for t1, xs in self.bitrep(t, x, N):
                for t2, ys in self.bitrep(t1, y, N):
                    q = band(t2.st, xs, ys, N)
                    if op == 'and':
                        r = q
                    elif op == 'or':
                        r = xs + ys - q
                    else:
                        r = xs + ys - q * 2
                    res.append((t2, r))
        return res

    def bitrep(self, s, x, N):
        """representative with known sign (so that the bounds of and/or are tight)"""
        if x.const() is not None:
            return [(s, x)]
        outs = []
        l, h = s.st.bounds(x)
        M = 1 << N
        if l >= 0 and h < M:
            return [(s, x)]
        for t, y in self.ssig(s, x, N):
            for st2, sg in split_sign(t.st, y):
                t2 = t if st2 is t.st else t.clone(st=st2)
                outs.append((t2, y))
        return outs

    # ------------------------------------------------------------------ comparisons
    def icmp(self, s, i):
        pred, oa, ob = i.a
        a = self.opnd(s, i.ty, oa)
        b = self.opnd(s, i.ty, ob)
        if i.ty[0] == 'i' and (isinstance(a, tuple) and a[0] == 'undefp' or isinstance(b, tuple) and b[0] == 'undefp'):
            a, b = self.toint(s, a, i.ty[1]), self.toint(s, b, i.ty[1])
        if isinstance(a, tuple) or isinstance(b, tuple):
            r = self.ptrcmp(s, pred, a, b)
            if r is None:
                out = [(s, ZERO), (s.clone(), ONE)]
                return self.fin([(out[0][0], ZERO), (out[1][0], ONE)], i.res)
            return self.fin([(s, K(int(r)))], i.res)
        N = i.ty[1]
        rep = self.ssig if pred[0] == 's' else self.usig
        if pred in ('eq', 'ne'):
            # choose the representation that does not split
            l, h = s.st.bounds(a)
            l2, h2 = s.st.bounds(b)
            half = 1 << (N - 1)
            if -half <= l and h < half and -half <= l2 and h2 < half:
                rep = self.ssig
        outs = []
        for t, x in rep(s, a, N):
            for t2, y in rep(t, b, N):
                outs.extend(self.compare(t2, pred, x, y))
        return self.fin(outs, i.res)

    def compare(self, s, pred, x, y):
        d = s.st.simp(x - y)
        p = pred.lstrip('su') if pred not in ('eq', 'ne') else pred
        l, h = s.st.bounds(d)
        # constraints for the true side, false side
        if p in ('lt', 'le', 'gt', 'ge'):
            tl = {'lt': (None, -1), 'le': (None, 0), 'gt': (1, None), 'ge': (0, None)}[p]
            fl = {'lt': (0, None), 'le': (1, None), 'gt': (None, 0), 'ge': (None, -1)}[p]

            def inside(r):
                return (r[0] is None or (l is not None and l >= r[0])) and (r[1] is None or (h is not None and h <= r[1]))
            if inside(tl):
                return [(s, ONE)]
            if inside(fl):
                return [(s, ZERO)]
            out = []
            for v, r in ((1, tl), (0, fl)):
                t = s.clone()
                try:
                    t.st.assume(d, r[0], r[1])
                except Infeasible:
                    continue
                out.append((t, K(v)))
            self.splits += 1
            return out
        eqv = 1 if p == 'eq' else 0
        if l == 0 and h == 0:
            return [(s, K(eqv))]
        if (l is not None and l > 0) or (h is not None and h < 0):
            return [(s, K(1 - eqv))]
        out = []
        self.splits += 1
        for v, lo, hi in ((eqv, 0, 0), (1 - eqv, 1, None), (1 - eqv, None, -1)):
            t = s.clone()
            try:
                t.st.assume(d, lo, hi)
            except Infeasible:
                continue
            out.append((t, K(v)))
        return out

    def ptrcmp(self, s, pred, a, b):
        def norm(v):
            if isinstance(v, Poly):
                return v.const()
            if v[0] == 'ptrint':
                return norm(v[1])
            if v[0] == 'intptr':
                return v[1].const()
            return v
        a, b = norm(a), norm(b)
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'ptr' and b[0] == 'ptr':
            if pred == 'eq':
                return a == b
            if pred == 'ne':
                return a != b
        if a is not None and b is not None and (a == 0 or b == 0):
            other = b if a == 0 else a
            if isinstance(other, tuple) and other[0] == 'ptr':
                z = other[1] is None
                return z if pred == 'eq' else (not z) if pred == 'ne' else None
        return None

    # ------------------------------------------------------------------ aggregates
    def insertv(self, s, ty, a, v, ix):
        t = self.m.resolve(ty)
        if not (isinstance(a, tuple) and a[0] == 'agg'):
            n = len(t[1]) if t[0] == 'st' else t[1]
            a = ('agg', [('undefp',)] * n)
        items = list(a[1])
        if len(ix) == 1:
            items[ix[0]] = v
        else:
            sub = t[1][ix[0]] if t[0] == 'st' else t[2]
            items[ix[0]] = self.insertv(s, sub, items[ix[0]], v, ix[1:])
        return ('agg', items)

    # ------------------------------------------------------------------ memory
    def gep(self, s, base, bt, idx):
        if base[0] != 'ptr':
            return ('undefp',)
        off = base[2]
        ty = bt
        first = True
        for t, o in idx:
            v = self.opnd(s, t, o)
            if isinstance(v, tuple):
                return ('undefp',)
            v = s.st.simp(v)
            c = v.const()
            if c is None:
                l, h = s.st.bounds(v)
                if l == h and l is not None:
                    c = l
            if first:
                sz = self.m.size_align(ty)[0]
                first = False
                if c is None:
                    return ('ptrsym', base[1], off, v, sz, self._sx(s, t))
                if c >= 1 << 63:
                    c -= 1 << 64
                off += c * sz
                continue
            rt = self.m.resolve(ty)
            if rt[0] == 'st':
                o2, ty = self.m.field_off(ty, c)
                off += o2
            elif rt[0] == 'arr':
                ty = rt[2]
                sz = self.m.size_align(ty)[0]
                if c is None:
                    return ('ptrsym', base[1], off, v, sz, rt[1])
                if c >= 1 << 63:
                    c -= 1 << 64
                off += c * sz
            else:
                raise Imprecise('gep')
        return ('ptr', base[1], off)

    def _sx(self, s, t):
        return None

    def globmem(self, name):
        """constant initialiser of a global as {off: (size, value)}"""
        cache = self.__dict__.setdefault('_gm', {})
        if name in cache:
            return cache[name]
        g = self.m.glob(name)
        out = None
        if g is not None and g.init is not None:
            out = {}
            try:
                self._flat(g.ty, g.init, 0, out)
            except Imprecise:
                out = None
        cache[name] = (out, g.const if g else False)
        return cache[name]

    def _flat(self, ty, init, off, out):
        t = self.m.resolve(ty)
        if init[0] == 'zero':
            n = self.m.size_align(ty)[0]
            out[off] = (n, 'zero')
            return
        if init[0] in ('undef', 'poison'):
            return
        if t[0] == 'st':
            if init[0] != 'agg':
                raise Imprecise('init')
            for k, (ft, v) in enumerate(init[1]):
                o, _ = self.m.field_off(ty, k)
                self._flat(ft, v, off + o, out)
        elif t[0] == 'arr':
            sz = self.m.size_align(t[2])[0]
            if init[0] == 'str':
                for k, c in enumerate(init[1]):
                    out[off + k] = (1, K(c))
            else:
                for k, (ft, v) in enumerate(init[1]):
                    self._flat(ft, v, off + k * sz, out)
        elif t[0] == 'i':
            if init[0] == 'c':
                out[off] = (self.m.size_align(ty)[0], K(init[1]))
            elif init[0] == 'cast':
                out[off] = (8, ('ptrint', ('ptr', '?', 0)))
            else:
                raise Imprecise('init int')
        elif t[0] == 'ptr':
            if init[0] == 'null':
                out[off] = (8, ('ptr', None, 0))
            elif init[0] == 'g':
                out[off] = (8, ('ptr', init[1], 0))
            elif init[0] == 'gep':
                class _S:
                    pass
                base = ('ptr', init[2][1], 0) if init[2][0] == 'g' else ('undefp',)
                dummy = State.__new__(State)
                dummy.st = Store()
                dummy.env = {}
                out[off] = (8, self.gep(dummy, base, init[1], init[3]))
            else:
                out[off] = (8, ('undefp',))
        elif t[0] == 'f':
            out[off] = (t[1] // 8, ('float', init[1] if len(init) > 1 else '0'))
        else:
            raise Imprecise('init type')

    def cells(self, s, obj, write=False):
        if obj in s.mem:
            return s.mem[obj]
        if obj is None:
            raise Imprecise('null dereference')
        if obj.startswith('@'):
            d, const = self.globmem(obj)
            if d is None:
                if write:
                    s.mem[obj] = {}
                    return s.mem[obj]
                raise Imprecise('load from external global ' + obj)
            if write:
                s.mem[obj] = dict(d)
                return s.mem[obj]
            return d
        raise Imprecise('unknown object ' + obj)

    def load(self, s, ty, p):
        t = self.m.resolve(ty)
        if p[0] == 'ptrsym':
            # symbolic index into a constant table: split on the index
            _, obj, off, v, sz, n = p
            l, h = s.st.bounds(v)
            if l is None or h is None or h - l > 300:
                raise Imprecise('symbolic index')
            out = []
            c = self.cells(s, obj)
            size = self.m.size_align(ty)[0]

            def cell(k):
                e = c.get(off + k * sz)
                if e is not None and e[0] == size and isinstance(e[1], Poly):
                    return e[1].const()
                return None
            if self.coarse and h - l >= 4:
                cs = [cell(k) for k in range(l, h + 1)]
                if None not in cs:
                    cs = [((c_ + (1 << (8 * size - 1))) % (1 << (8 * size))) - (1 << (8 * size - 1)) for c_ in cs]
                    return [(s, unknown(s.st, min(cs), max(cs), 'table'))]
            k = l
            while k <= h:
                k2 = k
                cv = cell(k)
                # runs of equal table entries are one case
                while cv is not None and k2 < h and cell(k2 + 1) == cv:
                    k2 += 1
                q = s.clone()
                try:
                    q.st.assume(v, k, k2)
                    out.extend(self.load(q, ty, ('ptr', obj, off + k * sz)))
                except Infeasible:
                    pass
                k = k2 + 1
            return out
        if p[0] != 'ptr':
            raise Imprecise('load through unknown pointer')
        if t[0] in ('st', 'arr'):
            items = []
            n = len(t[1]) if t[0] == 'st' else t[1]
            for k in range(n):
                if t[0] == 'st':
                    o, ft = self.m.field_off(ty, k)
                else:
                    ft = t[2]
                    o = k * self.m.size_align(ft)[0]
                r = self.load(s, ft, ('ptr', p[1], p[2] + o))
                items.append(r[0][1])
            return [(s, ('agg', items))]
        size = self.m.size_align(ty)[0]
        if t[0] == 'i' and t[1] % 8:
            size = (t[1] + 7) // 8
        c = self.cells(s, p[1])
        off = p[2]
        e = c.get(off)
        if e is not None and e[1] == 'zero' and e[0] >= size:
            return [(s, self.zero(ty))]
        if e is not None and e[0] == size and e[1] != 'zero':
            v = e[1]
            if t[0] == 'ptr':
                v = self.i2p(v)
            elif t[0] == 'i':
                v = self.p2i(v)
            return [(s, v)]
        for o, (n, v) in c.items():
            if v == 'zero' and o <= off and off + size <= o + n:
                return [(s, self.zero(ty))]
        if t[0] == 'i':
            # part of a wider cell
            for o, (n, v) in c.items():
                if o == off and size <= n and isinstance(v, tuple) and v[0] == 'partial' and 8 * size <= v[1]:
                    return [(s, v[2])]
                if isinstance(v, tuple) and v[0] == 'intptr':
                    v = v[1]
                if o <= off and off + size <= o + n and isinstance(v, Poly):
                    out = []
                    for q, u in self.usig(s, v, 8 * n):
                        out.append((q, posdiv(q.st, u, K(1 << (8 * (off - o))))))
                    return out
            # assembled from several cells
            if e is not None and e[0] < size and isinstance(e[1], Poly):
                # ... which are the pieces of one value
                l, h = s.st.bounds(e[1])
                if l is not None and h is not None and l >= 0 and h < 1 << (8 * size):
                    pos = off + e[0]
                    while pos < off + size:
                        x = c.get(pos)
                        if x is None or x[1] == 'zero' and h >= 1 << (8 * (pos - off)) or x[1] != 'zero' and not isinstance(x[1], Poly):
                            break
                        if x[1] != 'zero' and s.st.simp(posdiv(s.st, e[1], K(1 << (8 * (pos - off)))) - x[1]).const() != 0:
                            break
                        pos += x[0]
                    if pos == off + size:
                        return [(s, e[1])]
            pos = off
            states = [(s, ZERO)]
            while pos < off + size:
                e = c.get(pos)
                if e is None or e[1] == 'zero' or not isinstance(e[1], Poly) or pos + e[0] > off + size:
                    u = unknown(states[0][0].st, 0, 255, 'undef') if len(states) == 1 else None
                    if u is None:
                        raise Imprecise('partial load')
                    if e is not None and e[1] == 'zero':
                        u = ZERO
                    states = [(q, acc + u * (1 << (8 * (pos - off)))) for q, acc in states]
                    pos += 1
                    continue
                nxt = []
                for q, acc in states:
                    for q2, u in self.usig(q, e[1], 8 * e[0]):
                        nxt.append((q2, acc + u * (1 << (8 * (pos - off)))))
                states = nxt
                pos += e[0]
            return states
        if t[0] == 'ptr':
            return [(s, ('undefp',))]
        if t[0] == 'f':
            return [(s, ('float', '?'))]
        raise Imprecise('load')

    def store(self, s, ty, v, p):
        if p[0] != 'ptr':
            raise Imprecise('store through unknown pointer')
        t = self.m.resolve(ty)
        if t[0] in ('st', 'arr'):
            n = len(t[1]) if t[0] == 'st' else t[1]
            for k in range(n):
                if t[0] == 'st':
                    o, ft = self.m.field_off(ty, k)
                else:
                    ft = t[2]
                    o = k * self.m.size_align(ft)[0]
                self.store(s, ft, v[1][k] if v[0] == 'agg' else ('undefp',), ('ptr', p[1], p[2] + o))
            return
        size = self.m.size_align(ty)[0]
        c = self.cells(s, p[1], True)
        self.clobber(s, c, p[2], size)
        c[p[2]] = (size, v)

    def clobber(self, s, c, off, size):
        for o in list(c):
            n, v = c[o]
            if o < off + size and off < o + n:
                del c[o]
                if v == 'zero':
                    if o < off:
                        c[o] = (off - o, 'zero')
                    if o + n > off + size:
                        c[off + size] = (o + n - off - size, 'zero')
                elif isinstance(v, Poly) and v.const() is not None and (o < off or o + n > off + size):
                    for b in range(n):
                        if not (off <= o + b < off + size):
                            c[o + b] = (1, K((v.const() >> (8 * b)) & 255))

    def memcpy(self, s, dst, src, n):
        sc = dict(self.cells(s, src[1]))
        dc = self.cells(s, dst[1], True)
        self.clobber(s, dc, dst[2], n)
        for o, (sz, v) in sc.items():
            if o >= src[2] and o + sz <= src[2] + n:
                dc[dst[2] + o - src[2]] = (sz, v)
            elif v == 'zero' and o < src[2] + n and src[2] < o + sz:
                a, b = max(o, src[2]), min(o + sz, src[2] + n)
                dc[dst[2] + a - src[2]] = (b - a, 'zero')

    # ------------------------------------------------------------------ calls
    def switch(self, s, i):
        v = self.opnd(s, i.ty, i.a[0])
        N = i.ty[1]
        work = self.usig(s, v, N)
        for t, x in work:
            rest = [t]
            for c, lab in i.a[2]:
                c %= 1 << N
                nrest = []
                for r in rest:
                    for q, b in self.compare(r, 'eq', x, K(c)):
                        if b.const() == 1:
                            try:
                                self.goto(q, lab)
                                self.work.append(q)
                            except Infeasible:
                                pass
                        else:
                            nrest.append(q)
                rest = nrest
            for r in rest:
                self.goto(r, i.a[1])
                self.work.append(r)
        return None

    def call(self, s, i):
        callee, oargs, norm, unw, attr = i.a

        def cont(outs):
            if i.op == 'invoke':
                for t, v in outs:
                    if i.res:
                        t.env[i.res] = v
                    self.goto(t, norm)
                    self.work.append(t)
                return None
            return self.fin(outs, i.res)
        if callee.startswith('%'):
            fp = s.env.get(callee)
            if isinstance(fp, tuple) and fp[0] == 'ptr' and fp[1] and fp[1].startswith('@'):
                callee = fp[1]
            else:
                raise Imprecise('indirect call')
        name = callee[1:].strip('"')
        if name.startswith('llvm.'):
            return self.intrinsic(s, i, name, oargs, cont)
        args = [self.opnd(s, t, o) for t, o in oargs if t[0] != 'meta']
        h = self.externs.get(name)
        if h is not None:
            r = h(self, s, i, args)
            if r is None:
                return None
            return cont(r)
        f = self.m.funcs.get(callee)
        if f is not None:
            if len(s.stack) > 60:
                raise Imprecise('recursion')
            self.funcs_seen.add(callee)
            s.stack.append((s.fn, s.blk, s.idx, s.prev, s.env, i.res))
            f.blocks
            s.fn, s.blk, s.idx, s.prev = f, f.order[0], 0, None
            s.env = {}
            for (t, n, a), v in zip(f.params, args):
                s.env[n] = v
            return True
        if name in ('__assert_fail', '__assert_rtn'):
            self.exit(s, 'assert', None, i)
            return None
        dl = self.m.decls.get(callee, '')
        am = ' '.join(self.m.attrs.get(x, '') for x in set(re.findall(r'#[0-9]+', dl)) | attr)
        if 'noreturn' in am:
            self.exit(s, 'call', (name, args), i)
            return None
        s.ev = s.ev + ((name, tuple(args), i),)
        t = self.m.resolve(i.ty) if i.ty != ir.VOID else i.ty
        if t == ir.VOID:
            v = None
        else:
            v = self.undef(s, i.ty)
        return cont([(s, v)])

    def intrinsic(self, s, i, name, oargs, cont):
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.invariant',
                            'llvm.stacksave', 'llvm.stackrestore', 'llvm.donothing')):
            return cont([(s, None)])
        args = [self.opnd(s, t, o) for t, o in oargs if t[0] != 'meta']
        if name == 'llvm.ubsantrap' or name == 'llvm.trap':
            self.exit(s, 'ub', 'ubsan:%s' % (args[0].const() if args else ''), i)
            return None
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            n = args[2].const()
            if n is None or args[0][0] != 'ptr' or args[1][0] != 'ptr':
                raise Imprecise('memcpy')
            self.memcpy(s, args[0], args[1], n)
            return cont([(s, None)])
        if name.startswith('llvm.memset'):
            n = args[2].const()
            v = args[1].const() if isinstance(args[1], Poly) else None
            if n is None or args[0][0] != 'ptr':
                raise Imprecise('memset')
            c = self.cells(s, args[0][1], True)
            self.clobber(s, c, args[0][2], n)
            if v == 0:
                c[args[0][2]] = (n, 'zero')
            elif v is not None:
                for k in range(n):
                    c[args[0][2] + k] = (1, K(v & 255))
            return cont([(s, None)])
        m = re.match(r'llvm\.([su])(add|sub|mul)\.with\.overflow\.i([0-9]+)', name)
        if m:
            sg, op, N = m.group(1), m.group(2), int(m.group(3))
            rep = self.ssig if sg == 's' else self.usig
            base = -(1 << (N - 1)) if sg == 's' else 0
            out = []
            for t, x in rep(s, args[0], N):
                for t2, y in rep(t, args[1], N):
                    x2, y2 = t2.st.simp(x), t2.st.simp(y)
                    e = x2 + y2 if op == 'add' else x2 - y2 if op == 'sub' else x2 * y2
                    lo, hi = base, base + (1 << N) - 1
                    l, h = t2.st.bounds(e)
                    for a, b, fl in ((lo, hi, 0), (None, lo - 1, 1), (hi + 1, None, 1)):
                        if (a is not None and h is not None and h < a) or (b is not None and l is not None and l > b):
                            continue
                        inside = (a is None or (l is not None and l >= a)) and (b is None or (h is not None and h <= b))
                        if inside:
                            out.append((t2, ('agg', [e, K(fl)])))
                            break
                        t3 = t2.clone()
                        try:
                            t3.st.assume(e, a, b)
                        except Infeasible:
                            continue
                        out.append((t3, ('agg', [e, K(fl)])))
            return cont(out)
        m = re.match(r'llvm\.([su])(min|max)\.i([0-9]+)', name)
        if m:
            N = int(m.group(3))
            rep = self.ssig if m.group(1) == 's' else self.usig
            out = []
            for t, x in rep(s, args[0], N):
                for t2, y in rep(t, args[1], N):
                    for t3, b in self.compare(t2, 'slt' if m.group(2) == 'min' else 'sgt', x, y):
                        out.append((t3, x if b.const() else y))
            return cont(out)
        m = re.match(r'llvm\.abs\.i([0-9]+)', name)
        if m:
            N = int(m.group(1))
            out = []
            for t, x in self.ssig(s, args[0], N):
                for t3, b in self.compare(t, 'slt', x, ZERO):
                    out.append((t3, -x if b.const() else x))
            return cont(out)
        m = re.match(r'llvm\.(ctlz|cttz|ctpop)\.i([0-9]+)', name)
        if m and m.group(1) in ('ctlz', 'cttz'):
            N = int(m.group(2))
            out = []
            zero_poison = m.group(1) != 'ctpop' and isinstance(args[1], Poly) and args[1].const() == 1
            for t, x in self.usig(s, args[0], N):
                l, h = t.st.bounds(x)
                for k in range(N + 1):
                    # ctlz == k  <=> 2^(N-k-1) <= x < 2^(N-k)
                    if m.group(1) == 'cttz' and k not in (0, N):
                        raise Imprecise('cttz')
                    lo, hi = ((1 << (N - k - 1)), (1 << (N - k)) - 1) if k < N else (0, 0)
                    if h < lo or l > hi:
                        continue
                    t2 = t.clone()
                    try:
                        t2.st.assume(x, lo, hi)
                    except Infeasible:
                        continue
                    if k == N and zero_poison:
                        self.exit(t2, 'ub', 'clz(0)', i)
                        continue
                    out.append((t2, K(k)))
            return cont(out)
        if name.startswith('llvm.expect') or name.startswith('llvm.ssa.copy') or name.startswith('llvm.launder'):
            return cont([(s, args[0])])
        if name.startswith('llvm.is.constant'):
            return cont([(s, ZERO)])
        if name.startswith('llvm.eh.typeid'):
            return cont([(s, unknown(s.st, 0, 1000))])
        raise Imprecise('intrinsic ' + name)


PTRT = ir.PTR
