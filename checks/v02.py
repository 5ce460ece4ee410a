"""V02: conversion of safe types to built-in types."""
from ops import *
import a04
from v01 import TARGETS, conv_regions

FORMS = {'cast': 'vp_result = static_cast<%(R)s>(%(s)s);', 'impl': '%(R)s r = %(s)s; vp_result = r;',
         'arg': 'vp_result = vp_id<%(R)s>(%(s)s);', 'bv': 'vp_result = base_value(%(s)s);'}
EXTRA = 'template<class R> static R vp_id(R r){ return r; }\n'


def entry(src, R, form):
    n = 'n_%s_%s_to_%s' % (form, src.key, R)
    code = 'void %s(%s t){ %s }' % (n, cxx(src.pty), FORMS[form] % {'R': cxx(R), 's': src.make('t')})
    lo, hi = rng(R) if form != 'bv' else (src.lo, src.hi)

    def regs(x):
        return conv_regions(x, src.lo, src.hi, lo, hi)
    return Entry(n, [('t', src.param)], code, regs)


def main():
    r = Report('V02')
    full = TIER == 'thorough'
    rnd = random.Random(SEED)
    src = [safe(t, P) for t in STD8 + ['c', 'll', 'ull'] for P in ('native',)] + [srange(l, h, s) for l, h, s in TARGETS] + \
        [srange(*a04.rand_range(rnd)) for _ in range(60 if full else 16)] + \
        [literal(v, s, 'native', 'EP') for v, s in ((0, 1), (-1, 1), (7, 1), (200, 1), (0, 0), (7, 0), (200, 0), (2**64 - 1, 0), (-2**63, 1))]
    ents, seen = [], set()
    for s in src:
        for R in STD8 + ['c', 'b', 'll', 'ull']:
            lo, hi = rng(R)
            if s.hi < lo or s.lo > hi:
                continue
            for f in FORMS:
                if f == 'bv' and R != 'i32':
                    continue
                e = entry(s, R, f)
                if e.name not in seen:
                    seen.add(e.name)
                    ents.append(e)
    n = max(8, len(ents) // 60)
    r.absorb(run_jobs([Job('j%d' % i, ents[i::n], EXTRA) for i in range(n)]))
    r.finish('explicit, implicit and argument conversion of %d safe source types to 12 built-in integer types, and base_value' % len(src),
             ['LP64 data model, clang 18 lowering, C++14'])
