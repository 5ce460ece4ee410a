"""T01: with trap policies a program compiles exactly if no operation in it can fail."""
from tl import *
from ops import *
import a04
import a02

TR = 'strict_trap_policy'
RG = [(0, 0, 1), (5, 5, 1), (-1, 1, 1), (0, 100, 1), (-100, 100, 1), (1, 10, 1), (-10, -1, 1), (5, 10, 1), (100, 300, 1), (-40000, 40000, 1), (-128, 127, 1),
      (2**31 - 1, 2**31 - 1, 1), (2**31 - 1, 2**31, 1), (-2**31, -1, 1), (-2**31, -2**31, 1), (-2**31 + 1, 5, 1), (0, 2**63 - 1, 1), (-2**63, -1, 1), (-2**63 + 1, 2**63 - 1, 1), (46340, 46340, 1), (46341, 46341, 1),
      (2**30, 2**30, 1), (2**30 - 1, 2**30 - 1, 1), (2**62, 2**62, 1), (0, 1, 0), (3, 7, 0), (200, 300, 0), (1, 65535, 0), (0, 2**32 - 1, 0), (1, 2**32 - 2, 0), (65535, 65536, 0),
      (2**31, 2**31, 0), (2**63, 2**64 - 1, 0), (1, 2**64 - 2, 0), (0, 2**32, 0), (1, 1, 0), (0, 0, 0)]
TB = ['clang 18 and g++ 13 front ends (type checking of /repo headers)', 'interval specification in /verif/checks/t01.py']


def fits(iv, lo, hi):
    return iv is not None and lo <= iv[0] and iv[1] <= hi


def common(P, a, b):
    """range of the type the policy computes in"""
    if P == 'native':
        return rng(usual(a.pty, b.pty))
    return (0, 2**64 - 1) if not signed(a.pty) and not signed(b.pty) else (-2**63, 2**63 - 1)


def arith(P, op, a, b):
    """True: can not fail; False: can fail; None: not specified"""
    ra, rb = (a.lo, a.hi), (b.lo, b.hi)
    lo, hi = common(P, a, b)
    if op in ('div', 'mod') and b.lo <= 0 <= b.hi:
        return False
    if P == 'automatic' and op == 'sub' and lo == 0:
        lo, hi = -2**63, 2**63 - 1          # difference of unsigned values is computed in a signed type
    if not fits(ra, lo, hi) or not fits(rb, lo, hi):
        h = hull(op, ra, rb)
        if h[1] > 2**64 - 1 or h[0] < -2**63 or P == 'native' and not fits(h, lo, hi):
            return False if op in ('add', 'sub', 'mul') else None
        return None
    if op == 'mod':
        return None if a.lo < 0 and b.lo <= -1 <= b.hi and a.lo == lo else True
    h = hull(op, ra, rb)
    if op == 'div':
        bad = a.lo == lo and lo < 0 and b.lo <= -1 <= b.hi
        return not bad
    return fits(h, lo, hi)


def shift(op, a, b):
    R = promote(a.pty)
    W = bits(R)
    lo, hi = rng(R)
    if b.lo < 0 or b.hi >= W or a.lo < 0:
        if a.lo < 0 and b.lo == b.hi == 0 and op == 'shl':
            return None
        return False
    if op == 'shr':
        return True
    if a.hi == 0:
        return None
    return a.hi << b.hi <= hi


def main():
    r = Report('T01')
    r.extra['trusted_base'] = TB
    full = TIER == 'thorough'
    rnd = random.Random(SEED)
    W = []

    def add(key, code, verdict, what, where):
        if verdict is None:
            return
        W.append(Wit(key, code, verdict, what, where))

    cnt = Counter()
    keep = 1 if full else 3
    for P in ('native', 'automatic'):
        rg = [srange(l, h, s, P, TR) for l, h, s in RG]
        rg += [srange(*a04.rand_range(rnd), P=P, E=TR) for _ in range(40 if full else 6)]
        std = [safe(t, P, TR) for t in STD8]
        lits = [literal(v, s) for v, s in a04.LITS]
        prs = [(a, b) for a in rg for b in rg + std + lits] + [(b, a) for a in rg[:len(RG)] for b in std + lits] + [(a, b) for a in std for b in lits + std]
        for n, (a, b) in enumerate(prs):
            for m, op in enumerate(('add', 'sub', 'mul', 'div', 'mod')):
                v = arith(P, op, a, b)
                if v is None:
                    continue
                cnt[(op, v, P)] += 1
                # every case that cannot fail is cheap to check; those that can fail need a compilation each
                if not full and (cnt[(op, v, P)] % (11 if not v else 2) or n % 2):
                    continue
                e = '(x %s y)' % SYM[op]
                add('%s_%s_%s_%s' % (op, a.key, b.key, P[0]), 'inline auto f(const %s & x, const %s & y){ return %s; }' % (a.ty, b.ty, e), v,
                    '%s %s %s %s' % (a.ty, SYM[op], b.ty, 'can not fail and must compile with a trap policy' if v else 'can fail and must not compile with a trap policy'),
                    'safe_base_operations.hpp')
    P = 'native'
    rg = [srange(l, h, s, P, TR) for l, h, s in RG]
    std = [safe(t, P, TR) for t in STD8]
    cs = [srange(l, h, s, P, TR) for l, h, s in ((0, 0, 1), (0, 3, 1), (1, 4, 0), (0, 31, 0), (0, 32, 0), (31, 31, 1), (32, 32, 1), (0, 63, 0), (0, 64, 0), (63, 63, 0), (64, 64, 1), (-1, 3, 1), (16, 20, 1))] + [literal(v, s) for v, s in ((0, 0), (1, 1), (7, 1), (30, 0), (31, 0), (32, 0), (63, 1), (64, 1), (-1, 1))]
    for n, a in enumerate(rg + std):
        for m, b in enumerate(cs):
            for op in ('shl', 'shr'):
                v = shift(op, a, b)
                if v is None or not full and not v and (n * 3 + m * 2) % 9 or not full and v and (n + m) % 2:
                    continue
                add('%s_%s_%s' % (op, a.key, b.key), 'inline auto f(const %s & x, const %s & y){ return x %s y; }' % (a.ty, b.ty, SYM[op]), v,
                    '%s %s %s %s' % (a.ty, SYM[op], b.ty, 'can not fail and must compile with a trap policy' if v else 'can fail and must not compile with a trap policy'),
                    'safe_base_operations.hpp')
    # conversions
    srcs = rg + std + [builtin(t) for t in STD8] + [literal(v, s, 'native', TR) for v, s in a04.LITS]
    k = 0
    for n, t in enumerate(rg + std):
        for m, s in enumerate(srcs):
            ok = t.lo <= s.lo and s.hi <= t.hi
            k += 1
            if not full and (k % (3 if ok else 17)):
                continue
            for form, code in (('init', 'inline %s f(const %s & y){ %s x = y; return x; }' % (t.ty, s.ty, t.ty)),
                               ('asgn', 'inline void f(%s & x, const %s & y){ x = y; }' % (t.ty, s.ty)),
                               ('cast', 'inline auto f(const %s & y){ return static_cast<%s>(y); }' % (s.ty, t.ty))):
                if s.ty == t.ty:
                    continue
                add('%s_%s_%s' % (form, t.key, s.key), code, ok, '%s from %s %s' % (t.ty, s.ty, 'can not fail and must compile with a trap policy' if ok else 'can fail and must not compile with a trap policy'),
                    'safe_base_operations.hpp')
    for s in rg + std:
        for j, R in enumerate(STD8):
            ok = tmin(R) <= s.lo and s.hi <= tmax(R)
            k += 1
            if ok and not (tmin(R) <= tmin(s.pty) and tmax(s.pty) <= tmax(R)):
                continue            # decided on the range of the stored type: a rejection here is conservative
            if not full and k % (2 if ok else 7):
                continue
            add('to_%s_%s' % (R, s.key), 'inline %s f(const %s & y){ return y; }' % (cxx(R), s.ty), ok, '%s from %s' % (cxx(R), s.ty), 'safe_base_operations.hpp')
    for s in rg + std:
        for o in ('++x', 'x--') if full or s.key in ('r0_100', 'si32', 'q3_7', 'su8', 'r5_5', 'si64') else ():
            add('upd_%s_%s' % ('inc' if '+' in o else 'dec', s.key), 'inline void f(%s & x){ %s; }' % (s.ty, o), False, '%s on %s can fail' % (o, s.ty), 'safe_base.hpp')
    for t in std[:4] + rg[:6]:
        add('default_%s' % t.key, 'inline %s f(){ return %s(); }' % (t.ty, t.ty), False, 'default construction with a policy that traps uninitialised values', 'safe_base_operations.hpp')
        lt = t.ty.replace(TR, 'loose_trap_policy')
        if t.lo <= 0 <= t.hi:
            add('defloose_%s' % t.key, 'inline %s f(){ return %s(); }' % (lt, lt), True, 'default construction with loose_trap_policy', 'safe_base_operations.hpp')
    # compound assignment
    for t in [srange(l, h, s, P, TR) for l, h, s in ((0, 100, 1), (-100, 100, 1), (0, 255, 0), (1, 10, 1))]:
        for b in [literal(v, s) for v, s in ((0, 1), (1, 1), (-1, 1))]:
            for op in ('add', 'sub', 'mul', 'div', 'mod'):
                if op in ('div', 'mod') and b.lo == 0:
                    continue
                h = hull(op, (t.lo, t.hi), (b.lo, b.hi))
                v = fits(h, t.lo, t.hi) and arith(P, op, t, b)
                if v is not None:
                    add('ca_%s_%s_%s' % (op, t.key, b.key), 'inline void f(%s & x, const %s & y){ x %s= y; }' % (t.ty, b.ty, SYM[op]), bool(v),
                        '%s %s= %s %s' % (t.ty, SYM[op], b.ty, 'can not fail' if v else 'can fail'), 'safe_base_operations.hpp')
    # comparisons that can be made in the common type
    for n, a in enumerate(rg + std):
        for m, b in enumerate(rg + std):
            if (n * 5 + m) % (1 if full else 6) == 0 and fits((a.lo, a.hi), *common(P, a, b)) and fits((b.lo, b.hi), *common(P, a, b)):
                for j, o in enumerate(('<', '>=', '==')):
                    add('cmp%d_%s_%s' % (j, a.key, b.key), 'inline bool f(const %s & x, const %s & y){ return x %s y; }' % (a.ty, b.ty, o), True,
                        'comparison in a type that holds both operands can not fail', 'safe_base_operations.hpp')
    r.extra['must_compile'] = sum(w.ok for w in W)
    r.extra['must_not_compile'] = sum(not w.ok for w in W)
    decide_wits(r, W, compilers=('clang', 'g++') if full else ('clang',), rule='trap policy')
    r.finish('operators, shifts, conversions, updates, default construction and comparisons on ranges, literals and standard types with strict_trap_policy: '
             'a program in which an operation can fail for some value of its operands must be rejected by the compiler, one in which none can must be accepted',
             ['LP64 data model, C++14'])
