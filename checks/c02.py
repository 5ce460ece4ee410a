"""C02: checked shifts and bitwise operations."""
from vp import *
from spec import *


def shift_regions(op, t, u, T, lo, hi, err, W=None):
    """T: result type; W: width of the promoted left operand (a shift count >= W has no defined meaning)"""
    W = W or bits(T)
    out = []
    E = err(*SHIFTE)
    ulo, uhi = (0, W - 1)
    out.append(R_('negative count', [(u, None, -1)], E))
    # a count that exceeds the width of the type but not that of the promoted operand still has an exact meaning
    if W < 32:
        out.append(R_('width<=count<32', [(u, W, 31)], E if op == 'shl' else OneOf(E, Val(lambda st: shr_term(st, t, u)))))
        out.append(R_('count>=32', [(u, 32, None)], E))
    else:
        out.append(R_('count>=width', [(u, W, None)], E))
    if op == 'shl':
        # negative left operand: undefined before C++20, except the exact identity t<<0
        out.append(R_('negative value', [(t, None, -1), (u, 1, W - 1)], E))
        out.append(R_('negative value, count 0', [(t, None, -1), (u, 0, 0)], OneOf(E, Val(t))))
        out.append(R_('zero', [(t, 0, 0), (u, 0, W - 1)], OneOf(E, Val(0))))
        for k in range(0, W):
            e = t * (1 << k)
            c = [(u, k, k), (t, 1, None)]
            out.append(R_('count %d fits' % k, c + [(e, lo, hi)], Val(e)))
            out.append(R_('count %d overflows' % k, c + [(e, hi + 1, None)], E))
    else:
        out.append(R_('negative value', [(t, None, -1), (u, 0, W - 1)], E))
        for k in range(0, W):
            out.append(R_('count %d' % k, [(u, k, k), (t, 0, None)],
                          Val(lambda st, k=k: shr_term(st, t, K(k)))))
    return out


def bit_regions(op, t, u, N, val=Val):
    out = []
    for n1, a, b in (('-', None, -1), ('+', 0, None)):
        for n2, c, d in (('-', None, -1), ('+', 0, None)):
            def f(st):
                q = band(st, t, u)
                return q if op == 'and' else t + u - q if op == 'or' else t + u - q * 2
            out.append(R_(n1 + n2, [(t, a, b), (u, c, d)], val(f)))
    return out


def main():
    r = Report('C02')
    jobs = []
    for t in STD8 + ['ll', 'ull', 'c']:
        es = []
        c = cxx(t)
        lo, hi = rng(t)
        for op, fn in (('shl', 'left_shift'), ('shr', 'right_shift')):
            n = 'chk_%s_%s' % (op, t)
            code = 'void %s(%s t, %s u){ vp_result = vp_get(checked::%s<%s>(t, u)); }' % (n, c, c, fn, c)

            def regs(a, b, op=op, t=t, lo=lo, hi=hi):
                return shift_regions(op, a, b, t, lo, hi, Err)
            es.append(Entry(n, [('t', t), ('u', t)], code, regs))
        for op in ('and', 'or', 'xor'):
            n = 'chk_%s_%s' % (op, t)
            code = 'void %s(%s t, %s u){ vp_result = vp_get(checked::bitwise_%s<%s>(t, u)); }' % (n, c, c, op, c)

            def regs(a, b, op=op, t=t):
                return bit_regions(op, a, b, bits(t))
            es.append(Entry(n, [('t', t), ('u', t)], code, regs))
        n = 'chk_not_%s' % t

        def regs1(a, t=t):
            e = -1 - a if signed(t) else tmax(t) - a
            return [R_('all', [], Val(e))]
        es.append(Entry(n, [('t', t)], 'void %s(%s t){ vp_result = vp_get(checked::bitwise_not<%s>(t)); }' % (n, c, c), regs1))
        jobs.append(Job(t, es))
    r.absorb(run_jobs(jobs))
    r.finish('checked::left_shift, right_shift, bitwise_and/or/xor/not for every built-in integer type: no undefined '
             'behaviour, the exact result when it is representable, a shift error otherwise',
             ['LP64 data model, clang 18 lowering, C++14'])
