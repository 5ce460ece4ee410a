"""M01: compound assignment, increment and decrement."""
from ops import *
import a04
from c02 import shift_regions
from b01 import bitregs

CA = {'add': '+=', 'sub': '-=', 'mul': '*=', 'div': '/=', 'mod': '%=', 'shl': '<<=', 'shr': '>>=', 'and': '&=', 'or': '|=', 'xor': '^='}
EPX = 'VEP'          # the exception policy of one entry; its handler copies the watched variable to vp_result


def wrap(n, decl, params, body):
    return ('extern "C++" { namespace ns_%s { void cur(); '
            'struct VH { constexpr VH(){} void operator()(const safe_numerics_error & e, const char*) const { cur(); vp_handler(0,(int)e); } };'
            'using VEP = exception_policy<VH,VH,VH,ignore_exception>; %s void cur(){ vp_result = base_value(g); } '
            'static inline void body(%s){ %s } } } void %s(%s){ ns_%s::body(%s); }' % (
                n, decl, ', '.join('%s %s' % p for p in params), body, n, ', '.join('%s %s' % p for p in params), n, ', '.join(p[1] for p in params)))


def entry(op, a, b, rt, tag):
    n = 'n_%s_%s_%s%s' % (op, a.key, b.key, tag)
    init = 'static %s g{};' % a.ty if a.ty.startswith('safe') else 'static %s g = 0;' % a.ty
    if a.lo > 0 or a.hi < 0:
        init = 'static %s g(%s);' % (a.ty, num(a.lo) if signed(a.pty) else '%dUL' % a.lo)
    code = wrap(n, init, [(cxx(a.pty), 't'), (cxx(b.pty), 'u')],
                'g = %s; auto r = (g %s %s); if(base_value(r) != base_value(g)) vp_out(1); vp_result = base_value(g);' % (a.make('t'), CA[op], b.make('u')))

    def regs(x, y):
        bad = HndKeep({0}, x)
        T = (a.lo, a.hi)
        if op in ('shl', 'shr'):
            R = promote(a.pty)
            return shift_regions(op, x, y, R, *rng(a.pty), err=lambda *k: bad, W=bits(R))
        if op in ('and', 'or', 'xor'):
            o = bitregs(op, x, y, a.pty, b.pty, usual(a.pty, b.pty))
            for q in o:
                q.expect = OneOf(Both(q.expect, ValIn(*T)), bad)
            return o
        out = []
        lo, hi = max(rt.blo, a.lo), min(rt.bhi, a.hi)
        h = hull(op, T, (b.lo, b.hi))
        exact = op in ('add', 'sub', 'mul') or h is not None and a.lo <= h[0] and h[1] <= a.hi or op == 'div' and a.lo == tmin(a.pty) and a.hi == tmax(a.pty) and (signed(a.pty) or b.lo >= 0)
        for tagc, cons in outside_cells(x, y, T, (b.lo, b.hi), rt.blo, rt.bhi):
            for q in op_regions(op, x, y, lo, hi, lambda c: bad):
                if q.expect is not bad and tagc:
                    q.expect = OneOf(q.expect, bad)
                if not exact and q.expect is not bad:
                    q.expect = OneOf(Both(q.expect, ValIn(*T)), bad)
                out.append(R_(tagc + q.name, cons + q.cons, q.expect))
        return out
    return Entry(n, [('t', a.param), ('u', b.param)], code, regs)


def incdec(nm, a):
    n = 'n_%s_%s' % (nm, a.key)
    ex = {'preinc': ('++g', 1), 'predec': ('--g', -1), 'postinc': ('g++', 1), 'postdec': ('g--', -1)}[nm]
    chk = 'if(&r != &g) vp_out(1);' if nm[:3] == 'pre' else 'if(base_value(r) != t) vp_out(1);'
    init = 'static %s g(%s);' % (a.ty, num(a.lo) if signed(a.pty) or a.lo > 2**63 - 1 else '%dUL' % a.lo)
    code = wrap(n, init, [(cxx(a.pty), 't')], 'g = %s; %s r = %s; %s vp_result = base_value(g);' % (a.make('t'), 'auto &' if nm[:3] == 'pre' else 'auto', ex[0], chk))

    def regs(x):
        bad = HndKeep({0}, x)
        out = range_regions(x + ex[1], a.lo, a.hi, Val(x + ex[1]), bad, bad)
        if 'automatic' in a.ty and a.hi > 2**63 - 1:
            # x + 1 with a signed 1: the policy computes in a signed type and may reject an x that does not fit
            return [R_(q.name + n, q.cons + c, OneOf(q.expect, bad) if n else q.expect) for q in out
                    for n, c in (('', [(x, None, 2**63 - 2)]), (' large', [(x, 2**63 - 1, None)]))]
        return out
    return Entry(n, [('t', a.param)], code, regs)


def main():
    r = Report('M01')
    full = TIER == 'thorough'
    rnd = random.Random(SEED)
    items, qs, ents = [], [], []
    RG = [(-100, 100, 1), (0, 100, 1), (1, 10, 1), (-10, -1, 1), (-5, 5, 1), (-40000, 40000, 1), (0, 255, 0), (3, 7, 0), (0, 2**32 - 1, 0), (0, 2**63 - 1, 1), (1, 65535, 0)]
    for P, pn in (('native', 'n'), ('automatic', 'a')):
        std = [safe(t, P, EPX) for t in STD8]
        rg = [srange(l, h, s, P, EPX) for l, h, s in RG]
        prs = [(a, b) for a in std for b in std] + [(a, builtin('i32')) for a in std]
        prs += [(a, builtin(t)) for i, a in enumerate(std) for j, t in enumerate(STD8) if full or (i + 3 * j) % 5 == 0]
        prs += [(builtin(t), b) for i, b in enumerate(std) for j, t in enumerate(STD8) if full or (i + 2 * j) % 5 == 0]
        for i, a in enumerate(rg):
            for j, b in enumerate(rg + std):
                if full or (3 * i + 2 * j) % 7 == 0:
                    prs.append((a, b))
            prs.append((a, builtin('i32')))
        for op in CA:
            for i, (a, b) in enumerate(a04.dedupe(prs)):
                if op in ('shl', 'shr', 'and', 'or', 'xor') and (pn == 'a' or a.key[0] not in 'siu' or b.key[0] not in 'siu'):
                    continue
                if not full and (op in ('shl', 'shr') and i % 4 or pn == 'a' and i % 2):
                    continue
                h = hull(op, (a.lo, a.hi), (b.lo, b.hi)) if op in ('add', 'sub', 'mul', 'div', 'mod') else None
                if h and (h[1] < a.lo or h[0] > a.hi):
                    continue                      # never assignable: rejected when compiling
                items.append((op, a, b, '_' + pn))
                B = SYM[op]
                qs.append(('n_%s_%s_%s_%s' % (op, a.key, b.key, pn), 'decltype(std::declval<const %s&>() %s std::declval<const %s&>())' % (
                    a.ty.replace('VEP', 'EP'), B, b.ty.replace('VEP', 'EP'))))
        for a in std + rg:
            for nm in ('preinc', 'predec', 'postinc', 'postdec'):
                e = incdec(nm, a)
                e2 = Entry(e.name + '_' + pn, e.params, e.code.replace('n_%s_%s' % (nm, a.key), e.name + '_' + pn), e.regions)
                ents.append(e2)
    res, bad = query(qs)
    for (op, a, b, tag), (k, _) in zip(items, qs):
        if k in QUERIED:
            continue
        if k in bad:
            r.violation(k + '/compiles', 'operation does not compile: ' + bad[k][:200])
            continue
        ents.append(entry(op, a, b, res[k], tag))
    n = max(8, len(ents) // 40)
    r.absorb(run_jobs([Job('j%d' % i, ents[i::n]) for i in range(n)]))
    r.finish('ten compound assignment operators and four increment/decrement operators: value left in the variable, value returned and, at the point '
             'the handler is called, the variable still unchanged', ['LP64 data model, clang 18 lowering, C++14'])
