"""K02: safe_compare primitives on built-in integers."""
from ops import *

FN = {'lt': ('less_than', '-'), 'le': ('less_than_equal', '-='), 'gt': ('greater_than', '+'), 'ge': ('greater_than_equal', '+='),
      'eq': ('equal', '='), 'ne': ('not_equal', '-+')}


def main():
    r = Report('K02')
    T = STD8 + ['c', 'b', 'll', 'ull']
    ents = []
    for a in T:
        for b in T:
            for op, (fn, tr) in FN.items():
                n = 'n_%s_%s_%s' % (op, a, b)

                def regs(x, y, tr=tr):
                    out = []
                    for s1, l1, h1 in (('-', None, -1), ('+', 0, None)):
                        for s2, l2, h2 in (('-', None, -1), ('+', 0, None)):
                            for s, l, h in (('-', None, -1), ('=', 0, 0), ('+', 1, None)):
                                out.append(R_(s1 + s2 + ' t-u' + s, [(x, l1, h1), (y, l2, h2), (x - y, l, h)], Val(int(s in tr))))
                    return out
                ents.append(Entry(n, [('t', a), ('u', b)], 'void %s(%s t, %s u){ vp_result = safe_compare::%s(t, u); }' % (n, cxx(a), cxx(b), fn), regs))
    n = max(8, len(ents) // 60)
    r.absorb(run_jobs([Job('j%d' % i, ents[i::n]) for i in range(n)]))
    r.finish('safe_compare::less_than, less_than_equal, greater_than, greater_than_equal, equal, not_equal on every pair of twelve built-in integer types',
             ['LP64 data model, clang 18 lowering, C++14'])
