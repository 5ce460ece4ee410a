"""N01: interval arithmetic and interval predicates."""
from vp import *
from spec import *


def iv(T, a, b):
    return 'interval<%s>(%s, %s)' % (cxx(T), a, b)


TRI = 'vp_result = boost::logic::indeterminate(b_) ? 2 : b_ ? 1 : 0;'


def entries(T, full):
    es = []
    C = cxx(T)
    lo, hi = rng(T)
    P4 = [('a', T), ('b', T), ('c', T), ('d', T)]
    par = '%s a, %s b, %s c, %s d' % (C, C, C, C)
    x, y = iv(T, 'a', 'b'), iv(T, 'c', 'd')

    def valid(a, b, c, d):
        return [(b - a, 0, None), (d - c, 0, None)]
    promoted = bits(T) < 32
    # predicates
    for nm, ex in (('incl', 'x.includes(y)'), ('excl', 'x.excludes(y)'), ('isect', 'intersect(x, y)'), ('lt', 'x < y'), ('gt', 'x > y'), ('le', 'x <= y'), ('ge', 'x >= y'), ('eq', 'x == y'), ('ne', 'x != y')):
        code = 'void n_%s_%s(%s){ const auto x = %s; const auto y = %s; const boost::logic::tribool b_ = %s; %s }' % (nm, T, par, x, y, ex, TRI)

        def regs(a, b, c, d, nm=nm):
            v = valid(a, b, c, d)
            o = []

            def cells(cs):
                """cs: list of (name, constraints, value or None)"""
                for n, k, val in cs:
                    o.append(R_(n, v + k, ValIn(0, 2) if val is None else Val(val)))
            if nm == 'incl':
                cells([('both', [(c - a, 0, None), (b - d, 0, None)], 1), ('low out', [(a - c, 1, None)], 0), ('high out', [(c - a, 0, None), (d - b, 1, None)], 0)])
            elif nm == 'excl':
                cells([('right', [(c - b, 1, None)], 1), ('left', [(a - d, 1, None)], 1), ('overlap', [(b - c, 0, None), (d - a, 0, None)], 0)])
            elif nm == 'isect':
                cells([('right', [(c - b, 1, None)], 0), ('left', [(a - d, 1, None)], 0), ('overlap', [(b - c, 0, None), (d - a, 0, None)], 1)])
            elif nm in ('lt', 'ge', 'gt', 'le'):
                t = {'lt': (1, 0), 'ge': (0, 1), 'gt': (0, 1), 'le': (1, 0)}[nm]
                # all of x below all of y; all of x above all of y; otherwise only what is certain may be claimed
                cells([('right', [(c - b, 1, None)], t[0]), ('left', [(a - d, 1, None)], t[1])])
                amb = [(b - c, 0, None), (d - a, 0, None)]
                # x < y is possible if a < d and false is possible if b >= c
                if nm in ('lt', 'ge'):
                    o.append(R_('undecided', v + amb + [(d - a, 1, None)], Val(2)))
                    o.append(R_('touching', v + amb + [(d - a, 0, 0)], OneOf(Val(2), Val(0 if nm == 'lt' else 1))))
                else:
                    o.append(R_('undecided', v + amb + [(b - c, 1, None)], Val(2)))
                    o.append(R_('touching', v + amb + [(b - c, 0, 0)], OneOf(Val(2), Val(0 if nm == 'gt' else 1))))
            else:
                q = 1 if nm == 'eq' else 0
                cells([('same', [(a - c, 0, 0), (b - d, 0, 0)], q), ('low <', [(c - a, 1, None)], 1 - q), ('low >', [(a - c, 1, None)], 1 - q), ('high <', [(a - c, 0, 0), (d - b, 1, None)], 1 - q),
                       ('high >', [(a - c, 0, 0), (b - d, 1, None)], 1 - q)])
            return o
        es.append(Entry('n_%s_%s' % (nm, T), P4, code, regs))
    for nm, ex in (('inclv', 'x.includes(c)'), ('exclv', 'x.excludes(c)')):
        code = 'void n_%s_%s(%s a, %s b, %s c){ const auto x = %s; const boost::logic::tribool b_ = %s; %s }' % (nm, T, C, C, C, x, ex, TRI)

        def regs(a, b, c, q=1 if nm == 'inclv' else 0):
            v = [(b - a, 0, None)]
            return [R_('in', v + [(c - a, 0, None), (b - c, 0, None)], Val(q)), R_('below', v + [(a - c, 1, None)], Val(1 - q)), R_('above', v + [(c - b, 1, None)], Val(1 - q))]
        es.append(Entry('n_%s_%s' % (nm, T), P4[:3], code, regs))
    # union / intersection / sum / difference: the ends of the result
    for nm, op, fs in (('or', '|', None), ('and', '&', None)):
        for end in 'lu':
            code = 'void n_%s%s_%s(%s){ const auto x = %s; const auto y = %s; const auto z = x %s y; vp_result = z.%s; }' % (nm, end, T, par, x, y, op, end)

            def regs(a, b, c, d, nm=nm, end=end):
                p, q = (a, c) if end == 'l' else (b, d)
                least = (nm == 'or') == (end == 'l')
                v = valid(a, b, c, d)
                return [R_('first less', v + [(q - p, 0, None)], Val(p if least else q)), R_('second less', v + [(p - q, 1, None)], Val(q if least else p))]
            es.append(Entry('n_%s%s_%s' % (nm, end, T), P4, code, regs))
    # intervals of checked results: the ends carry the value or the right error
    K = 'interval<checked_result<%s>>' % C
    cx, cy = '%s(checked_result<%s>(a), checked_result<%s>(b))' % (K, C, C), '%s(checked_result<%s>(c), checked_result<%s>(d))' % (K, C, C)
    for nm, op in (('add', '+'), ('sub', '-')):
        for end in 'lu':
            code = 'void n_%s%s_%s(%s){ const auto x = %s; const auto y = %s; const auto z = x %s y; vp_result = vp_get(z.%s); }' % (nm, end, T, par, cx, cy, op, end)

            def regs(a, b, c, d, nm=nm, end=end):
                e = (a + c if end == 'l' else b + d) if nm == 'add' else (a - d if end == 'l' else b - c)
                return range_regions(e, lo, hi, Val(e), Err(NEG), Err(POS), valid(a, b, c, d))
            es.append(Entry('n_%s%s_%s' % (nm, end, T), P4, code, regs))
    for nm, ex in (('cincl', 'x.includes(y)'), ('cexcl', 'x.excludes(y)'), ('cisect', 'intersect(x, y)')):
        code = 'void n_%s_%s(%s){ const auto x = %s; const auto y = %s; const boost::logic::tribool b_ = %s; %s }' % (nm, T, par, cx, cy, ex, TRI)

        def regs(a, b, c, d, nm=nm):
            v = valid(a, b, c, d)
            if nm == 'cincl':
                cs = [('both', [(c - a, 0, None), (b - d, 0, None)], 1), ('low out', [(a - c, 1, None)], 0), ('high out', [(c - a, 0, None), (d - b, 1, None)], 0)]
            else:
                q = 1 if nm == 'cexcl' else 0
                cs = [('right', [(c - b, 1, None)], q), ('left', [(a - d, 1, None)], q), ('overlap', [(b - c, 0, None), (d - a, 0, None)], 1 - q)]
            return [R_(n, v + k, Val(val)) for n, k, val in cs]
        es.append(Entry('n_%s_%s' % (nm, T), P4, code, regs))
    return es


def main():
    r = Report('N01')
    full = TIER == 'thorough'
    jobs = [Job(T, entries(T, full)) for T in STD8]
    r.absorb(run_jobs(jobs))
    r.finish('interval predicates (includes, excludes, intersect, < > <= >= == !=), hull and intersection, sum and difference for intervals of eight integer types and of checked results, all ends symbolic',
             ['ends are ordered (l <= u)', 'LP64 data model, clang 18 lowering, C++14'])
