"""V01: construction of and assignment to safe types."""
from ops import *
import a02
import a04

TARGETS = [(0, 0, 1), (5, 5, 1), (-1, 1, 1), (0, 100, 1), (-100, 100, 1), (1, 10, 1), (-10, -1, 1), (100, 300, 1), (-40000, 40000, 1),
           (-5, 200, 1), (0, 2**31, 1), (2**31 - 1, 2**31, 1), (-2**31 - 1, 5, 1), (0, 2**63 - 1, 1), (-2**63, -1, 1), (2**62, 2**63 - 1, 1),
           (0, 1, 0), (3, 7, 0), (5, 200, 0), (200, 300, 0), (1, 65535, 0), (0, 2**32 - 2, 0), (2**31, 2**32 - 1, 0),
           (2**63, 2**64 - 1, 0), (1, 2**64 - 1, 0), (0, 2**63, 0)]
SRC = STD8 + ['c', 'b', 'll', 'ull']


def conv_regions(x, slo, shi, lo, hi, ok=None, kinds={0}, above=POS, below=(NEG, DOMAIN)):
    return range_regions(x, lo, hi, ok or Val(x), Hnd(kinds, below), Hnd(kinds, {above}))


FORMS = {'ctor': 'vp_result = base_value(%(T)s(%(s)s));',
         'asgn': '%(T)s x(%(init)s); x = %(s)s; vp_result = base_value(x);',
         'copyinit': '%(T)s x = %(s)s; vp_result = base_value(x);',
         'param': 'vp_result = vp_take<%(T)s>(%(s)s);'}
EXTRA = 'template<class T> static long double vp_dummy(T){return 0;}\ntemplate<class T> static auto vp_take(const T & t) -> decltype(base_value(t)) { return base_value(t); }\n'


EXTRA += ''.join('enum ve_%s : %s {}; enum class vs_%s : %s {};\n' % (t, cxx(t), t, cxx(t)) for t in STD8) + '''enum ve_x { vx_lo = -3, vx_hi = 2000000000 };
'''


def enum_(t, scoped):
    k = ('vs_' if scoped else 've_') + t
    return Operand(k, t, tmin(t), tmax(t), 'static_cast<%s>($)' % k, k)


def entry(src, tgt, form):
    n = 'n_%s_%s_from_%s' % (form, tgt.key, src.key)
    body = FORMS[form] % {'T': tgt.ty, 's': src.make('t'), 'init': num(tgt.lo) if signed(tgt.pty) or tgt.lo > 2**63 - 1 else '%dUL' % tgt.lo}
    if src.lo == src.hi and '$' not in src.expr:
        code = 'void %s(%s t){ %s }' % (n, cxx(src.pty), body)
    else:
        code = 'void %s(%s t){ %s }' % (n, cxx(src.pty), body)

    def regs(x):
        return conv_regions(x, src.lo, src.hi, tgt.lo, tgt.hi)
    return Entry(n, [('t', src.param)], code, regs)


def main():
    r = Report('V01')
    full = TIER == 'thorough'
    rnd = random.Random(SEED)
    P = 'native'
    tg = [safe(t, P) for t in STD8 + ['c', 'll', 'ull']] + [srange(l, h, s, P) for l, h, s in TARGETS]
    tg += [srange(*a04.rand_range(rnd), P=P) for _ in range(60 if full else 12)]
    src = [builtin(t) for t in SRC] + [safe(t, P) for t in STD8] + [srange(l, h, s, P) for l, h, s in TARGETS] + \
        [safe('i32', 'automatic'), srange(-100, 100, 1, 'automatic')] + \
        [literal(v, s) for v, s in ((0, 1), (-1, 1), (7, 1), (200, 1), (0, 0), (7, 0), (200, 0), (2**64 - 1, 0), (-2**63, 1))]
    src[-11].key += 'a'
    src += [enum_(t, False) for t in STD8] + [enum_(t, True) for t in STD8] + [Operand('ve_x', 'i32', tmin('i32'), tmax('i32'), 'static_cast<ve_x>($)', 've_x')]
    ents, seen, rej = [], set(), []
    k = 0
    for i, t in enumerate(tg):
        for j, s in enumerate(src):
            if s.hi < t.lo or s.lo > t.hi:
                # no value of the source fits: the program is rejected, or the handler is invoked
                if s.lo == s.hi or (i + 3 * j) % 7 == 0:
                    rej += [entry(s, t, f) for f in FORMS if f == 'ctor' or (i + j + len(f)) % 4 == 0]
                continue
            for f in FORMS:
                k += 1
                if s.key.startswith('vs_') and f != 'asgn':
                    continue  # a scoped enumeration is not implicitly convertible
                if s.key.startswith('vs_') and (i + j) % 4 == 0 or s.key.startswith('ve_') and f == 'ctor' and (i + j) % 2:
                    continue
                if s.key.startswith('vs_'):
                    e = entry(s, t, f)
                    ents.append(e)
                    continue
                if f != 'ctor' and not full and (i + j + len(f)) % 4:
                    continue
                e = entry(s, t, f)
                if e.name not in seen:
                    seen.add(e.name)
                    ents.append(e)
    n = max(8, len(ents) // 60)
    r.absorb(run_jobs([Job('j%d' % i, ents[i::n], EXTRA) for i in range(n)]))
    n = max(8, len(rej) // 60)
    r.absorb([(res, dict(info, build_failed=[])) for res, info in run_jobs([Job('k%d' % i, rej[i::n], EXTRA) for i in range(n)])])
    r.finish('construction, copy-initialisation, argument passing and assignment of %d safe target types from %d source types (built-in, safe, '
             'range, literal, enumeration), partitioned into in range / below / above' % (len(tg), len(src)), ['LP64 data model, clang 18 lowering, C++14'])
