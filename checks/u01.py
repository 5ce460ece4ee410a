"""U01: unary + - ~ on safe types, ranges and literals."""
from ops import *
from spec import *
from tl import Wit, decide_wits
import a04

CPPS = ['cpp<8,16,32,64,64>', 'cpp<8,16,16,32,64>']


def negregs(x, slo, shi, lo, hi):
    # the handler only when the negative is not representable in the result
    return range_regions(-x, lo, hi, Val(-x), Hnd({0}), Hnd({0}))


def main():
    r = Report('U01')
    full = TIER == 'thorough'
    rnd = random.Random(SEED)
    ents = []
    ranges = list(a04.RANGES) + [a04.rand_range(rnd) for _ in range(80 if full else 25)]
    for pi, P in enumerate(['native', 'automatic'] + CPPS):
        tag = '_%d' % pi
        ops_ = [safe(t, P) for t in STD8 + (['c', 'll', 'ull'] if P in ('native', 'automatic') else [])] + [srange(l, h, s, P) for l, h, s in ranges]
        for a in ops_:
            def pos(x, a=a):
                return [R_('all', [], Val(x))]
            n = 'n_pos_%s%s' % (a.key, tag)
            ents.append(Entry(n, [('t', a.param)], 'void %s(%s t){ vp_result = base_value(+(%s)); }' % (n, cxx(a.pty), a.make('t')), pos))
            n = 'n_neg_%s%s' % (a.key, tag)
            R = promote(a.pty)
            if P == 'native':
                lo, hi = rng(R)
            elif P == 'automatic':
                lo, hi = -2**63, 2**63 - 1
            else:
                lo = hi = None

            def neg(x, a=a, lo=lo, hi=hi, P=P):
                if lo is None:
                    # the result type is that of the emulated machine (R03), where the promotion of the operand may be wider
                    # than it is (the library computes 0 - t, and 0 is an int of the host): exact, or an error outside of it
                    w = max(bits(a.pty), 16 if P == CPPS[1] else 32)
                    l, h = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed(a.pty) else (0, (1 << w) - 1)
                    out = OneOf(Val(-x), Hnd({0}))
                    return range_regions(-x, l, h, Val(-x), out, out)
                if P == 'automatic' and a.hi >= 2**63:
                    # an operand that no signed type holds may be refused
                    return range_regions(-x, -2**63 + 1, hi, Val(-x), OneOf(Val(-x), Hnd({0})), Hnd({0}))
                return negregs(x, a.lo, a.hi, lo, hi)
            if P in CPPS and (a.key[0] != 's' or a.key[1:] not in STD8):
                continue
            ents.append(Entry(n, [('t', a.param)], 'void %s(%s t){ vp_result = base_value(-(%s)); }' % (n, cxx(a.pty), a.make('t')), neg))
            if P == 'native':
                n = 'n_not_%s%s' % (a.key, tag)

                def inv(x, a=a, R=R):
                    return [R_('all', [], Val(-1 - x if signed(R) else tmax(R) - x))]
                ents.append(Entry(n, [('t', a.param)], 'void %s(%s t){ vp_result = base_value(~(%s)); }' % (n, cxx(a.pty), a.make('t')), inv))
    ents = list({e.name: e for e in ents}.values())
    n = max(8, len(ents) // 60)
    r.absorb(run_jobs([Job('j%d' % i, ents[i::n]) for i in range(n)]))
    w = []
    vals = [(v, 1) for v in (0, 1, -1, 5, -5, 127, -127, 128, -129, 32767, 32768, 2**31 - 1, 2**31, -2**31 - 1, 2**63 - 1, -2**63 + 1)] + \
        [(v, 0) for v in (0, 1, 200, 255, 256, 65535, 2**32 - 1, 2**64 - 1)]
    for v, s in vals:
        for P in ('void', 'native', 'automatic'):
            l = 'safe_%s_literal<%s%s>' % ('signed' if s else 'unsigned', num(v), '' if P == 'void' else ',%s,EP' % P)
            pol = 'std::is_same<get_promotion_policy<Y>::type,%s>::value && std::is_same<get_exception_policy<Y>::type,%s>::value' % (P, P if P == 'void' else 'EP')

            def a(k, e, val, l=l, v=v, s=s, P=P, pol=pol):
                w.append(Wit('lit/%s/%d%s/%s' % (k, v, 's' if s else 'u', P), 'using X = %s; using Y = decltype(%s);\nstatic_assert(is_safe<Y>::value && base_value(Y()) == %s && base_value(%s) == %s && %s, "");' % (l, e % 'std::declval<const X &>()', num(val), e % 'X()', num(val), pol),
                             what='%s of %s is %d and keeps the policies' % (k, l, val)))
            a('+', '+%s', v)
            if s or v == 0:
                a('-', '-%s', -v)
            if s:
                a('~', '~%s', ~v)
    decide_wits(r, w, rule='unary operators of literals')
    r.finish('unary + - (native, automatic, cpp<>) and ~ (native) on every value of %d safe types and ranges; unary operators of %d literals' % (len(STD8) + 3 + len(ranges), len(vals)),
             ['LP64 data model, clang 18 lowering, C++14', 'two\'s complement'])
