"""C03: checked::cast."""
from ops import *

RANGES = [('i32', -100, 100), ('i32', 0, 100), ('i8', -5, 5), ('u8', 3, 200), ('i64', -2**62, 5), ('u64', 1, 2**63), ('u32', 0, 2**31 - 1),
          ('i16', 1, 1), ('i64', 2**31, 2**40), ('i32', -200, -100), ('u16', 0, 0)]


def main():
    r = Report('C03')
    T = STD8 + ['c', 'b', 'll', 'ull']
    ents = []
    for R in T:
        if R == 'b':
            continue
        for s in T:
            lo, hi = rng(R)
            n = 'n_cast_%s_%s' % (R, s)

            def regs(x, lo=lo, hi=hi):
                return range_regions(x, lo, hi, Val(x), Err(NEG, DOMAIN), Err(POS))
            ents.append(Entry(n, [('t', s)], 'void %s(%s t){ vp_result = vp_get(checked::cast<%s>(t)); }' % (n, cxx(s), cxx(R)), regs))
    for i, (R, lo, hi) in enumerate(RANGES):
        for s in STD8 + ['c', 'll', 'ull', 'b']:
            n = 'n_rcast_%d_%s' % (i, s)
            v = lambda x: num(x) if signed(R) else '%dUL' % x

            def regs(x, lo=lo, hi=hi):
                return range_regions(x, lo, hi, Val(x), Err(NEG, DOMAIN), Err(POS))
            code = 'void %s(%s t){ vp_result = vp_get(heterogeneous_checked_operation<%s,(%s)%s,(%s)%s,%s>::cast(t)); }' % (
                n, cxx(s), cxx(R), cxx(R), v(lo), cxx(R), v(hi), cxx(s))
            ents.append(Entry(n, [('t', s)], code, regs))
    n = max(8, len(ents) // 60)
    r.absorb(run_jobs([Job('j%d' % i, ents[i::n]) for i in range(n)]))
    r.finish('checked::cast between eleven target and twelve source integer types and heterogeneous_checked_operation::cast to limited ranges',
             ['LP64 data model, clang 18 lowering, C++14'])
