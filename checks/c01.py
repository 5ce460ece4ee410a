"""C01: checked::add/subtract/multiply/divide/modulus/minus."""
from vp import *
from spec import *

FN = {'add': 'add', 'sub': 'subtract', 'mul': 'multiply', 'div': 'divide', 'mod': 'modulus'}


def main():
    r = Report('C01')
    jobs = []
    for t in STD8 + ['ll', 'ull', 'c']:
        es = []
        c = cxx(t)
        lo, hi = rng(t)
        for op in FN:
            n = 'chk_%s_%s' % (op, t)
            code = 'void %s(%s t, %s u){ vp_result = vp_get(checked::%s<%s>(t, u)); }' % (n, c, c, FN[op], c)

            def regs(a, b, op=op, lo=lo, hi=hi):
                return op_regions(op, a, b, lo, hi, lambda k: Err(k))
            es.append(Entry(n, [('t', t), ('u', t)], code, regs))
        n = 'chk_minus_%s' % t

        def regs1(a, lo=lo, hi=hi):
            return range_regions(-a, lo, hi, Val(-a), Err(NEG), Err(POS))
        es.append(Entry(n, [('t', t)], 'void %s(%s t){ vp_result = vp_get(checked::minus<%s>(t)); }' % (n, c, c), regs1))
        jobs.append(Job(t, es))
    r.absorb(run_jobs(jobs))
    r.finish('checked::add, subtract, multiply, divide, modulus and minus for every built-in integer type; the success value '
             'must be the exact integer and the error must name the direction of the overflow (domain_error for a zero divisor)',
             ['LP64 data model, clang 18 lowering, C++14'])
