"""H01: << and >> on safe types and ranges."""
from ops import *
from spec import *
from c02 import shift_regions, shr_term
import a04

COUNTS = [(0, 7, 0), (0, 3, 1), (1, 4, 1), (0, 31, 0), (0, 63, 0), (-2, 5, 1), (8, 20, 0), (2, 2, 1), (0, 0, 0), (-7, -1, 1), (60, 70, 0), (0, 200, 0)]


def auto_regions(op, t, u, a, cap):
    """automatic promotion: exact up to 63 bits, or an error; an error for a negative count"""
    E = Hnd({0, 1, 2})
    out = [R_('negative count', [(u, None, -1)], E)]
    out.append(R_('count>=64', [(u, 64, None)], E if op == 'shl' else OneOf(E, Val(0))))
    for k in range(64):
        c = [(u, k, k)]
        if op == 'shl':
            e = t * (1 << k)
            out.append(R_('count %d fits' % k, c + [(t, 1, None), (e, None, 2**63 - 1)], Val(e) if k < cap else OneOf(Val(e), E)))
            out.append(R_('count %d beyond 63 bits' % k, c + [(t, 1, None), (e, 2**63, None)], OneOf(Val(e), E)))
        else:
            x = Val(lambda st, k=k: shr_term(st, t, K(k)))
            out.append(R_('count %d' % k, c + [(t, 0, None)], x if k < cap else OneOf(x, E)))
    if op == 'shl':
        out.append(R_('zero', [(t, 0, 0), (u, 0, 63)], OneOf(E, Val(0))))
        out.append(R_('negative value', [(t, None, -1), (u, 1, 63)], E))
        out.append(R_('negative value, count 0', [(t, None, -1), (u, 0, 0)], OneOf(E, Val(t))))
    else:
        out.append(R_('negative value', [(t, None, -1), (u, 0, 63)], E))
    return out


def gen_entries(op, a, b, P):
    n = opname(op, a, b, '_' + P[0])
    code = 'void %s(%s t, %s u){ vp_result = base_value%s; }' % (n, cxx(a.pty), cxx(b.pty), expr(op, a, b))

    def regs(x, y):
        if P == 'native':
            R = promote(a.pty)
            return shift_regions(op, x, y, R, *rng(R), lambda *k: Hnd({0, 1, 2}))
        return auto_regions(op, x, y, a, bits(a.pty))
    return Entry(n, [('t', a.param), ('u', b.param)], code, regs)


def entries(t, u, forms):
    es = []
    R = promote(t)
    lo, hi = rng(R)
    for op, sym in (('shl', '<<'), ('shr', '>>')):
        for f in forms:
            n = 'n_%s_%s_%s_%s' % (op, t, u, f)
            a = 'S<%s>(t)' % cxx(t) if f[0] == 's' else 't'
            b = 'S<%s>(u)' % cxx(u) if f[1] == 's' else 'u'
            code = 'void %s(%s t, %s u){ vp_result = base_value(%s %s %s); }' % (n, cxx(t), cxx(u), a, sym, b)

            def regs(x, y, op=op):
                return shift_regions(op, x, y, R, lo, hi, lambda *k: Hnd({0, 1, 2}))
            es.append(Entry(n, [('t', t), ('u', u)], code, regs))
    return es


def main():
    r = Report('H01')
    jobs = []
    forms = ('ss', 'sb', 'bs') if TIER == 'thorough' else ('ss',)
    for t in STD8:
        for u in STD8:
            f = forms
            if TIER != 'thorough' and t in ('i32', 'u64', 'i8'):
                f = ('ss', 'sb') if u in ('i32', 'u8') else f
            jobs.append(Job(t + u, entries(t, u, f)))
    rnd = random.Random(SEED)
    full = TIER == 'thorough'
    es = {}
    for P in ('native', 'automatic'):
        cnt = [srange(l, h, s, P) for l, h, s in COUNTS]
        std = [safe(t, P) for t in STD8]
        rg = [srange(l, h, s, P) for l, h, s in a04.RANGES] + [srange(*a04.rand_range(rnd), P=P) for _ in range(40 if full else 6)]
        prs = [(a, b) for a in std + rg for b in cnt + [builtin('i32'), builtin('u8')] + ([safe(t, P) for t in STD8] if P == 'automatic' else [safe('i32', P), safe('u64', P)])]
        prs += [(builtin(t), b) for t in STD8 for b in cnt]
        for i, (a, b) in enumerate(prs):
            if not full and a.key not in ('si32', 'su8') and rnd.random() < .8:
                continue
            for op in ('shl', 'shr'):
                e = gen_entries(op, a, b, P)
                es[e.name] = e
    es = list(es.values())
    m = max(8, len(es) // 40)
    jobs += [Job('g%d' % i, es[i::m]) for i in range(m)]
    r.absorb(run_jobs(jobs))
    r.finish('<< and >> for every pair of standard integer types, safe/safe and safe/built-in operands, partitioned by '
             'shift count and by representability of t*2^u', ['LP64 data model, clang 18 lowering, C++14'])
