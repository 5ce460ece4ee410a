"""Specification of the integer operations, as partitions of the input space."""
from vp import *
from dom import tdiv, shl_term, shr_term, band

SIGNS = (('-', None, -1), ('0', 0, 0), ('+', 1, None))


def R_(name, cons, exp):
    return Region(name, cons, exp)


def range_regions(e, lo, hi, ok, below, above, extra=(), tag=''):
    """e within [lo,hi] -> ok, else below/above"""
    ex = list(extra)
    return [R_(tag + 'in-range', ex + [(e, lo, hi)], ok),
            R_(tag + 'below', ex + [(e, None, lo - 1)], below),
            R_(tag + 'above', ex + [(e, hi + 1, None)], above)]


def quot(t, u):
    def f(st):
        r = tdiv(st, t, u)
        return r[0][1] if len(r) == 1 else None
    return f


def rem(t, u):
    def f(st):
        r = tdiv(st, t, u)
        return t - r[0][1] * u if len(r) == 1 else None
    return f


def outside_cells(t, u, trng, urng, lo, hi):
    """partition by whether the operands themselves lie in [lo,hi]"""
    def cells(x, r, n):
        o = []
        if r[0] < lo:
            o.append((n + '<min ', [(x, None, lo - 1)]))
        if r[1] > hi:
            o.append((n + '>max ', [(x, hi + 1, None)]))
        o.append(('', [(x, lo, hi)]))
        return o
    return [(a + b, c + d) for a, c in cells(t, trng, 't') for b, d in cells(u, urng, 'u')]


def op_regions(op, t, u, lo, hi, err, val=None, may_reject=None, trng=None, urng=None):
    """exact-or-error partition for a binary operator whose result type holds [lo,hi].
    err(code) -> expected outcome ; val(poly or callable) -> expected outcome"""
    val = val or Val
    out = []
    if may_reject:
        # an operand that the result type cannot hold may be rejected although the result is representable
        val0 = val

        def val(p):
            return OneOf(val0(p), may_reject)
        regs = []
        for tag, cons in outside_cells(t, u, trng, urng, lo, hi):
            sub = op_regions(op, t, u, lo, hi, lambda c: may_reject, val, None) if tag else \
                op_regions(op, t, u, lo, hi, err, val0, None)
            for r in sub:
                regs.append(R_(tag + r.name, cons + r.cons, r.expect))
        return regs
    if op in ('add', 'sub'):
        e = t + u if op == 'add' else t - u
        return range_regions(e, lo, hi, val(e), err(NEG), err(POS))
    if op == 'mul':
        e = t * u
        for n1, a, b in SIGNS:
            for n2, c, d in SIGNS:
                out += range_regions(e, lo, hi, val(e), err(NEG), err(POS), [(t, a, b), (u, c, d)], n1 + n2 + ' ')
        return out
    if op in ('div', 'mod'):
        out.append(R_('by-zero', [(u, 0, 0)], err(DOMAIN)))
        for n1, a, b in SIGNS:
            for n2, c, d in SIGNS:
                if n2 == '0':
                    continue
                ex = [(t, a, b), (u, c, d)]
                if op == 'mod':
                    # |t % u| <= |t|: always representable when t is
                    out.append(R_(n1 + n2, ex, val(rem(t, u))))
                elif n2 == '-':
                    # only a quotient by a negative can leave the range: t / -1
                    out.append(R_(n1 + n2 + ' u=-1 above', ex + [(u, -1, -1), (-t, hi + 1, None)], err(POS)))
                    out.append(R_(n1 + n2 + ' u=-1 below', ex + [(u, -1, -1), (-t, None, lo - 1)], err(NEG)))
                    out.append(R_(n1 + n2 + ' u=-1', ex + [(u, -1, -1), (-t, lo, hi)], val(-t)))
                    out.append(R_(n1 + n2 + ' u<-1', ex + [(u, None, -2)], val(quot(t, u))))
                else:
                    out.append(R_(n1 + n2, ex, val(quot(t, u))))
        return out
    raise KeyError(op)
