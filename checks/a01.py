"""A01: + - * / % on safe<T> (native promotion) are exact or reported."""
from vp import *
from spec import *

SYM = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'mod': '%'}


def pair_entries(t, u, forms=('ss', 'sb', 'bs')):
    es = []
    R = usual(t, u)
    lo, hi = rng(R)
    for op in SYM:
        for f in forms:
            n = 'n_%s_%s_%s_%s' % (op, t, u, f)
            a = 'S<%s>(t)' % cxx(t) if f[0] == 's' else 't'
            b = 'S<%s>(u)' % cxx(u) if f[1] == 's' else 'u'
            code = 'void %s(%s t, %s u){ vp_result = base_value(%s %s %s); }' % (n, cxx(t), cxx(u), a, SYM[op], b)

            def regs(x, y, op=op):
                return op_regions(op, x, y, lo, hi, lambda c: Hnd({0}), None, Hnd({0}), rng(t), rng(u))
            es.append(Entry(n, [('t', t), ('u', u)], code, regs))
    return es


def enum_entries():
    """an operand of an enumeration with the underlying type u"""
    es = []
    for t, u in (('i32', 'i32'), ('i64', 'u8'), ('u8', 'i16')):
        R = usual(t, u)
        lo, hi = rng(R)
        for op in SYM:
            for f in ('se', 'es'):
                n = 'n_%s_%s_%s_%s' % (op, t, u, f)
                a, b = 'S<%s>(t)' % cxx(t), 'static_cast<ve_%s>(u)' % u
                x, y = (a, b) if f == 'se' else (b, a)
                code = 'void %s(%s t, %s u){ vp_result = base_value(%s %s %s); }' % (n, cxx(t), cxx(u), x, SYM[op], y)

                def regs(x, y, op=op, f=f, t=t, u=u, lo=lo, hi=hi):
                    if f == 'es':
                        return op_regions(op, y, x, lo, hi, lambda c: Hnd({0}), None, Hnd({0}), rng(u), rng(t))
                    return op_regions(op, x, y, lo, hi, lambda c: Hnd({0}), None, Hnd({0}), rng(t), rng(u))
                es.append(Entry(n, [('t', t), ('u', u)], code, regs))
    return es


def main():
    r = Report('A01')
    jobs = []
    for t in STD8:
        for u in STD8:
            jobs.append(Job(t + u, pair_entries(t, u)))
    for t, u in (('c', 'u8'), ('c', 'i32'), ('ll', 'i32'), ('ll', 'ull'), ('ull', 'i64'), ('u32', 'll'), ('ull', 'c')):
        jobs.append(Job(t + u, pair_entries(t, u)))
    enums = ''.join('enum ve_%s : %s {};\n' % (t, cxx(t)) for t in STD8)
    jobs.append(Job('enum', enum_entries(), enums))
    r.absorb(run_jobs(jobs))
    r.finish('every pair of built-in integer types (8 standard widths/signs, plus char and long long), five operators, '
             'safe/safe, safe/built-in and built-in/safe operands; each input space partitioned into regions by the sign '
             'of the operands and by whether the exact result fits the C++ common type; each region decided by forward '
             'abstract interpretation of the lowered operator',
             ['LP64 data model, clang 18 lowering, C++14'])
