"""B01: & | ^ ~ on safe types, ranges and literals under native and automatic promotion."""
from ops import *
from spec import *
import a04


def bitregs(op, t, u, T, U, R):
    """built-in semantics: operands converted to R, then the operator"""
    out = []
    M = 1 << bits(R)

    def cells(x, X):
        o = []
        if signed(X):
            o.append(('-', [(x, None, -1)], x if signed(R) else x + M))
        o.append(('+', [(x, 0, None)], x))
        return o
    for n1, c1, v1 in cells(t, T):
        for n2, c2, v2 in cells(u, U):
            def f(st, a=v1, b=v2):
                q = band(st, a, b)
                return q if op == 'and' else a + b - q if op == 'or' else a + b - q * 2
            out.append(R_(n1 + n2, c1 + c2, Val(f)))
    return out


def entries(t, u, forms):
    es = []
    R = usual(t, u)
    for op, sym in (('and', '&'), ('or', '|'), ('xor', '^')):
        for f in forms:
            n = 'n_%s_%s_%s_%s' % (op, t, u, f)
            a = 'S<%s>(t)' % cxx(t) if f[0] == 's' else 't'
            b = 'S<%s>(u)' % cxx(u) if f[1] == 's' else 'u'
            code = 'void %s(%s t, %s u){ vp_result = base_value(%s %s %s); }' % (n, cxx(t), cxx(u), a, sym, b)

            def regs(x, y, op=op):
                return bitregs(op, x, y, t, u, R)
            es.append(Entry(n, [('t', t), ('u', u)], code, regs))
    return es


def gen_entry(op, a, b, tag):
    n = opname(op, a, b, tag)
    code = 'void %s(%s t, %s u){ vp_result = base_value%s; }' % (n, cxx(a.pty), cxx(b.pty), expr(op, a, b))
    return Entry(n, [('t', a.param), ('u', b.param)], code, lambda x, y: bitregs(op, x, y, a.pty, b.pty, usual(a.pty, b.pty)))


def main():
    r = Report('B01')
    jobs = []
    full = TIER == 'thorough'
    rnd = random.Random(SEED)
    es = {}
    for P in ('native', 'automatic'):
        prs = a04.pairs(P, full, rnd) + a04.litpairs(P, full)
        if P == 'automatic':
            prs += [(safe(t, P), safe(u, P)) for t in STD8 for u in STD8]
            prs += [(safe(t, P), builtin(u)) for t in STD8 for u in STD8] + [(builtin(u), safe(t, P)) for t in STD8 for u in STD8]
        for i, (a, b) in enumerate(prs):
            for k, op in enumerate(('and', 'or', 'xor')):
                if full or (i + k) % 3 == 0:
                    e = gen_entry(op, a, b, '_' + P[0])
                    es[e.name] = e
    es = list(es.values())
    m = max(8, len(es) // 40)
    jobs += [Job('g%d' % i, es[i::m]) for i in range(m)]
    for t in STD8:
        for u in STD8:
            jobs.append(Job(t + u, entries(t, u, ('ss', 'sb', 'bs'))))
        R = promote(t)

        def regs(x, t=t, R=R):
            return [R_('all', [], Val(-1 - x if signed(R) else tmax(R) - x))]
        n = 'n_not_%s' % t
        jobs.append(Job('not' + t, [Entry(n, [('t', t)], 'void %s(%s t){ vp_result = base_value(~S<%s>(t)); }' % (n, cxx(t), cxx(t)), regs)]))
    r.absorb(run_jobs(jobs))
    r.finish('&, |, ^ for every pair of standard integer types and ~ for every type',
             ['LP64 data model, clang 18 lowering, C++14', 'two\'s complement'])
