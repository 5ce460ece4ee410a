"""W01: with handlers that return, operations yield what the built-in operation yields."""
from ops import *
import a04
from dom import shr_term

ANY = 'any'


def arith(op, a, b, R, tag, pol):
    """R: result type key; unsigned: the operation modulo 2^N is defined for all operands"""
    n = opname(op, a, b, tag + pol)
    code = 'auto %s(%s t, %s u) -> %s { return base_value%s; }' % (n, cxx(a.pty), cxx(b.pty), cxx(R), expr(op, a, b))
    lo, hi = rng(R)

    def regs(x, y):
        e = x + y if op == 'add' else x - y if op == 'sub' else x * y
        v = Val(e, ANY)
        out = []
        if not signed(R):
            for n1, l1, h1 in SIGNS:
                for n2, l2, h2 in SIGNS:
                    out.append(R_(n1 + n2, [(x, l1, h1), (y, l2, h2)], v))
        else:
            # operands converted, signed overflow of the built-in operation is undefined: only in-range results are specified
            out.append(R_('in-range', [(x, lo, hi), (y, lo, hi), (e, lo, hi)], v))
        return out
    return Entry(n, [('t', a.param), ('u', b.param)], code, regs)


def divmod_(op, a, b, R, tag):
    n = opname(op, a, b, tag)
    code = 'auto %s(%s t, %s u) -> %s { return base_value%s; }' % (n, cxx(a.pty), cxx(b.pty), cxx(R), expr(op, a, b))
    lo, hi = rng(R)

    def regs(x, y):
        out = []
        for n1, l1, h1 in SIGNS:
            for n2, l2, h2 in SIGNS:
                if n2 == '0' or n2 == '-' and not signed(R) or n1 == '-' and not signed(R):
                    continue
                c = [(x, l1, h1), (y, l2, h2), (x, lo if lo == 0 else lo + 1, hi), (y, lo, hi)]
                out.append(R_(n1 + n2, c, Val(quot(x, y) if op == 'div' else rem(x, y), ANY)))
        return out
    return Entry(n, [('t', a.param), ('u', b.param)], code, regs)


def shift(op, t, u, E):
    a, b = safe(t, 'native', E), safe(u, 'native', E)
    n = opname(op, a, b, E[:3])
    R = promote(t)
    W = bits(R)
    code = 'auto %s(%s t, %s u) -> %s { return base_value%s; }' % (n, cxx(t), cxx(u), cxx(R), expr(op, a, b))
    lo, hi = rng(R)

    def regs(x, y):
        o = []
        for k in range(0, W):
            e = x * (1 << k)
            if op == 'shl':
                if not signed(R):
                    o.append(R_('count %d' % k, [(y, k, k)], Val(e, ANY)))
                else:
                    o.append(R_('count %d' % k, [(y, k, k), (x, 0, None), (e, lo, hi)], Val(e, ANY)))
            else:
                o.append(R_('count %d' % k, [(y, k, k), (x, 0, None)], Val(lambda st, k=k: shr_term(st, x, K(k)), ANY)))
                if signed(t):
                    o.append(R_('negative, count %d' % k, [(y, k, k), (x, None, -1)], Val(lambda st, k=k: shr_term(st, x, K(k)), ANY)))
        return o
    return Entry(n, [('t', t), ('u', u)], code, regs)


def conv(src, tgt, form):
    n = 'n_%s_%s_from_%s' % (form, tgt.key, src.key)
    mk = src.make('t')
    B = tgt.pty
    if form == 'ctor':
        body = 'return base_value(%s(%s));' % (tgt.ty, mk)
    elif form == 'asgn':
        body = '%s x(%s); x = %s; return base_value(x);' % (tgt.ty, num(tgt.lo) if signed(tgt.pty) else '%dUL' % tgt.lo, mk)
    else:
        body = 'return static_cast<%s>(%s);' % (cxx(B), mk)
    code = 'auto %s(%s t) -> %s { %s }' % (n, cxx(src.pty), cxx(B), body)

    def regs(x):
        return [R_(a + b, [(x, l, h), (x, l2, h2)], Val(x, ANY)) for a, l, h in (('-', None, -1), ('+', 0, None))
                for b, l2, h2 in ((' below', None, tgt.lo - 1), (' in', tgt.lo, tgt.hi), (' above', tgt.hi + 1, None))]
    return Entry(n, [('t', src.param)], code, regs)


def main():
    r = Report('W01')
    full = TIER == 'thorough'
    E = 'EPN'
    ents = []
    std = [safe(t, 'native', E) for t in STD8]
    for i, t in enumerate(STD8):
        for j, u in enumerate(STD8):
            R = usual(t, u)
            for f, (a, b) in enumerate(((std[i], std[j]), (std[i], builtin(u)), (builtin(t), std[j]))):
                if f and not full and (i + 2 * j + f) % 3:
                    continue
                for op in ('add', 'sub', 'mul'):
                    ents.append(arith(op, a, b, R, '_n', ''))
                for op in ('div', 'mod'):
                    ents.append(divmod_(op, a, b, R, '_n'))
            if full or (i + j) % 2:
                ents += [shift('shl', t, u, E), shift('shr', t, u, E)]
                if full or (i * 3 + j) % 5 == 0:
                    ents += [shift('shl', t, u, 'LOOSE'), shift('shr', t, u, 'LOOSE')]
    rgs = [(-100, 100, 1), (0, 100, 1), (1, 10, 1), (-10, -1, 1), (-40000, 40000, 1), (0, 2**32 - 1, 0), (3, 7, 0), (200, 300, 0), (2**62, 2**63 - 1, 1)]
    rg = [srange(l, h, s, 'native', E) for l, h, s in rgs]
    for i, tg in enumerate(std + rg):
        for j, s in enumerate([builtin(t) for t in STD8] + std + rg):
            if s.hi < tg.lo or s.lo > tg.hi or s.key == tg.key:
                continue
            for f in ('ctor', 'asgn'):
                if full or (i + j + len(f)) % 2 == 0:
                    ents.append(conv(s, tg, f))
    for s in std + rg:
        for R in STD8:
            if not (s.hi < tmin(R) or s.lo > tmax(R)):
                ents.append(conv(s, builtin(R), 'toint'))
    n = max(8, len(ents) // 40)
    r.absorb(run_jobs([Job('j%d' % i, ents[i::n], 'using LOOSE = exception_policy<VH0,ignore_exception,ignore_exception,ignore_exception>;') for i in range(n)]))
    r.finish('with handlers that return: arithmetic in unsigned result types for all operands, in signed ones for representable results, shifts by less than the '
             'width, conversions to safe and built-in types: the value of the corresponding built-in operation',
             ['LP64 data model, clang 18 lowering, C++14', 'two\'s complement, arithmetic right shift'])
