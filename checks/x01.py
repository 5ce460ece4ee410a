"""X01: arithmetic and comparison of checked results, errors included."""
from vp import *
from spec import *
from dom import K

ALL = list(range(1, 11))
ANY = Err(*ALL)
MORE = r'''
template<class T> constexpr inline checked_result<T> vpx_v(T t){ return checked_result<T>(t); }
template<class T> constexpr inline checked_result<T> vpx_e(int e){ return checked_result<T>(static_cast<safe_numerics_error>(e), "m"); }
inline int vpx_t(const boost::logic::tribool & b){ return boost::logic::indeterminate(b) ? 2 : b ? 1 : 0; }
'''
OPS = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'mod': '%'}
CMP = {'lt': '<', 'gt': '>', 'le': '<=', 'ge': '>=', 'eq': '==', 'ne': '!='}


def inf(e):
    return {POS: 1, NEG: -1}.get(e, 0)


def cells1(t, lo, hi):
    """sign classes of one value"""
    c = [('zero', [(t, 0, 0)], 0), ('positive', [(t, 1, None)], 1)]
    if lo < 0:
        c.append(('negative', [(t, None, -1)], -1))
    return c


def sgn(s):
    return Err(POS) if s > 0 else Err(NEG)


def with_value(op, side, e, t, lo, hi):
    """value (on the left when side == 0) with an error of code e"""
    s = inf(e)
    if not s:
        return [R_('indeterminate', [], ANY)]
    if op == 'add':
        return [R_('inf', [], sgn(s))]
    if op == 'sub':
        return [R_('inf', [], sgn(-s if side == 0 else s))]
    o = []
    for n, k, q in cells1(t, lo, hi):
        if op == 'mul':
            x = Val(0) if q == 0 else sgn(q * s)
        elif op == 'div':
            if side == 0:
                x = Val(0)
            else:
                x = ANY if q == 0 else sgn(q * s)
        else:
            if side == 0:
                x = Val(t) if q else Val(0)
            elif q == 0:
                x = ANY
            else:
                continue            # the remainder of an unknown number: see DESIGN.md
        o.append(R_(n, k, x))
    return o


def two_errors(op, a, b):
    p, q = inf(a), inf(b)
    if not p or not q:
        return ANY
    if op == 'add':
        return sgn(p) if p == q else ANY
    if op == 'sub':
        return sgn(p) if p != q else ANY
    if op == 'mul':
        return sgn(p * q)
    return ANY


def shl_regs(t, k, c, lo, hi, tag):
    """t shifted left by k under the constraint c"""
    e = t * (1 << k)
    o = [R_('%s%d fits' % (tag, k), c + [(e, lo + 1 if lo else 0, hi)], Val(e)), R_('%s%d above' % (tag, k), c + [(e, hi + 1, None)], Err(POS))]
    if lo < 0:
        # the least value may be refused: it is computed as the negation of a number that is not representable
        o.append(R_('%s%d least' % (tag, k), c + [(e, lo, lo)], OneOf(Val(e), Err(NEG))))
        o.append(R_('%s%d below' % (tag, k), c + [(e, None, lo - 1)], Err(NEG)))
    return o


def shr_regs(t, k, c, lo, tag):
    o = [R_('%s%d' % (tag, k), c + [(t, 0, None)], Val(quot(t, K(1 << k))))]
    if lo < 0:
        o.append(R_('%s%d neg' % (tag, k), c + [(t, None, -1)], Val(quot(t, K(1 << k)))))
    return o


def shifts(t, k, left, T, lo, hi):
    """t shifted by the constant count k"""
    W = bits(T)
    if not left:
        left, k = True, -k
    if k >= W:
        o = [R_('far', [(t, 1, None)], Err(POS)), R_('far', [(t, 0, 0)], Val(0))]
        return o + ([R_('far', [(t, None, -1)], Err(NEG))] if lo < 0 else [])
    if k <= -W:
        return [R_('far', [], Val(0))]
    return shl_regs(t, k, [], lo, hi, 'by ') if k >= 0 else shr_regs(t, -k, [], lo, 'by -')


def shift_counts(T):
    W = bits(T)
    lo, hi = rng(T)
    ks = set(range(W + 2))
    ks |= {hi}
    if lo < 0:
        ks |= {-k for k in ks} | {lo}
    return sorted(ks)


def entries(T, full):
    es = []
    C = cxx(T)
    lo, hi = rng(T)
    P2 = [('t', T), ('u', T)]
    par = '%s t, %s u' % (C, C)
    for op, o in OPS.items():
        code = 'void x_%s_%s(%s){ vp_result = vp_get(vpx_v(t) %s vpx_v(u)); }' % (op, T, par, o)

        def regs(t, u, op=op):
            out = []
            for r in op_regions(op, t, u, lo, hi, lambda k: OneOf(Err(k), ANY) if k == DOMAIN else Err(k)):
                out.append(r)
            return out
        if op in ('div', 'mod'):
            def regs(t, u, op=op):
                return op_regions(op, t, u, lo, hi, lambda k: ANY if k == DOMAIN else Err(k))
        es.append(Entry('x_%s_%s' % (op, T), P2, code, regs))
        for e in ALL:
            for side in (0, 1):
                n = 'x_%s_%s_%d_%d' % (op, T, side, e)
                a, b = 'vpx_v(t)', 'vpx_e<%s>(%d)' % (C, e)
                if side:
                    a, b = b, a
                code = 'void %s(%s t){ vp_result = vp_get(%s %s %s); }' % (n, C, a, o, b)

                def regs(t, op=op, side=side, e=e):
                    return with_value(op, side, e, t, lo, hi)
                es.append(Entry(n, [('t', T)], code, regs))
            for f in ALL:
                if not full and e > 4 and f > 4:
                    continue
                n = 'x_%s_%s_e%d_e%d' % (op, T, e, f)
                code = 'void %s(){ vp_result = vp_get(vpx_e<%s>(%d) %s vpx_e<%s>(%d)); }' % (n, C, e, o, C, f)
                es.append(Entry(n, [], code, lambda x=two_errors(op, e, f): [R_('', [], x)]))
    # comparisons
    for nm, o in CMP.items():
        code = 'void x_%s_%s(%s){ vp_result = vpx_t(vpx_v(t) %s vpx_v(u)); }' % (nm, T, par, o)
        tv = {'lt': (1, 0, 0), 'gt': (0, 0, 1), 'le': (1, 1, 0), 'ge': (0, 1, 1), 'eq': (0, 1, 0), 'ne': (1, 0, 1)}[nm]

        def regs(t, u, tv=tv):
            return [R_('less', [(u - t, 1, None)], Val(tv[0])), R_('equal', [(u - t, 0, 0)], Val(tv[1])), R_('greater', [(t - u, 1, None)], Val(tv[2]))]
        es.append(Entry('x_%s_%s' % (nm, T), P2, code, regs))
        for e in ALL:
            s = inf(e)
            for side in (0, 1):
                n = 'x_%s_%s_%d_%d' % (nm, T, side, e)
                a, b = 'vpx_v(t)', 'vpx_e<%s>(%d)' % (C, e)
                if side:
                    a, b = b, a
                code = 'void %s(%s t){ vp_result = vpx_t(%s %s %s); }' % (n, C, a, o, b)
                # value vs +inf: less; value vs -inf: greater; mirrored on the other side
                d = (s if side == 0 else -s)
                x = 2 if not s else tv[0] if d > 0 else tv[2]
                es.append(Entry(n, [('t', T)], code, lambda t, x=x: [R_('', [], Val(x))]))
            for f in ALL:
                if not full and e > 4 and f > 4:
                    continue
                q = inf(f)
                x = 2 if not s or not q or s == q else tv[0] if s < q else tv[2]
                n = 'x_%s_%s_e%d_e%d' % (nm, T, e, f)
                code = 'void %s(){ vp_result = vpx_t(vpx_e<%s>(%d) %s vpx_e<%s>(%d)); }' % (n, C, e, o, C, f)
                es.append(Entry(n, [], code, lambda x=x: [R_('', [], Val(x))]))
    W = bits(T)
    for nm, o in (('shl', '<<'), ('shr', '>>')):
        for k in shift_counts(T):
            n = 'x_%s_%s_%s' % (nm, T, str(k).replace('-', 'm'))
            es.append(Entry(n, [('t', T)], 'void %s(%s t){ vp_result = vp_get(vpx_v(t) %s vpx_v<%s>(static_cast<%s>(%dLL))); }' % (n, C, o, C, C, k), lambda t, nm=nm, k=k: shifts(t, k, nm == 'shl', T, lo, hi)))
        # with an error operand: an error, or zero (a count above every value shifts everything out)
        for e in ALL:
            for side in (0, 1):
                n = 'x_%s_%s_%d_e%d' % (nm, T, side, e)
                a, b = 'vpx_v(t)', 'vpx_e<%s>(%d)' % (C, e)
                if side:
                    a, b = b, a
                es.append(Entry(n, [('t', T)], 'void %s(%s t){ vp_result = vp_get(%s %s %s); }' % (n, C, a, o, b), lambda t, side=side: [R_('', [], ANY if side else OneOf(ANY, Val(0)))]))
    # bitwise: an error in, an error out
    for nm, o in (('or', '|'), ('xor', '^'), ('and', '&')):
        for e in ALL:
            for side in (0, 1):
                n = 'x_%s_%s_%d_%d' % (nm, T, side, e)
                a, b = 'vpx_v(t)', 'vpx_e<%s>(%d)' % (C, e)
                if side:
                    a, b = b, a
                es.append(Entry(n, [('t', T)], 'void %s(%s t){ vp_result = vp_get(%s %s %s); }' % (n, C, a, o, b), lambda t: [R_('', [], ANY)]))
    # unary
    n = 'x_neg_%s' % T
    es.append(Entry(n, [('t', T)], 'void %s(%s t){ vp_result = vp_get(-vpx_v(t)); }' % (n, C), lambda t: range_regions(-t, lo, hi, Val(-t), Err(NEG), Err(POS))))
    n = 'x_plus_%s' % T
    es.append(Entry(n, [('t', T)], 'void %s(%s t){ vp_result = vp_get(+vpx_v(t)); }' % (n, C), lambda t: [R_('', [], Val(t))]))
    n = 'x_not_%s' % T
    es.append(Entry(n, [('t', T)], 'void %s(%s t){ vp_result = vp_get(~vpx_v(t)); }' % (n, C), lambda t: [R_('', [], Val(-1 - t if lo else hi - t))]))
    for e in ALL:
        n = 'x_not_%s_e%d' % (T, e)
        es.append(Entry(n, [], 'void %s(){ vp_result = vp_get(~vpx_e<%s>(%d)); }' % (n, C, e), lambda: [R_('', [], ANY)]))
    for e in ALL:
        n = 'x_neg_%s_e%d' % (T, e)
        es.append(Entry(n, [], 'void %s(){ vp_result = vp_get(-vpx_e<%s>(%d)); }' % (n, C, e), lambda e=e: [R_('', [], sgn(-inf(e)) if inf(e) else ANY)]))
        n = 'x_plus_%s_e%d' % (T, e)
        es.append(Entry(n, [], 'void %s(){ vp_result = vp_get(+vpx_e<%s>(%d)); }' % (n, C, e), lambda e=e: [R_('', [], Err(e))]))
        # what a result reports about itself
        n = 'x_code_%s_e%d' % (T, e)
        es.append(Entry(n, [], 'void %s(){ const auto x = vpx_e<%s>(%d); vp_result = x.exception() * 100 + (int)static_cast<safe_numerics_error>(x); }' % (n, C, e), lambda e=e: [R_('', [], Val(100 + e))]))
    n = 'x_code_%s' % T
    es.append(Entry(n, [('t', T)], 'void %s(%s t){ const auto x = vpx_v(t); vp_result = x.exception() * 100 + (int)static_cast<safe_numerics_error>(x); }' % (n, C), lambda t: [R_('', [], Val(0))]))
    n = 'x_value_%s' % T
    es.append(Entry(n, [('t', T)], 'void %s(%s t){ const auto x = vpx_v(t); const auto y = x; vp_result = static_cast<%s>(y); }' % (n, C, C), lambda t: [R_('', [], Val(t))]))
    return es


# a number type of the user: checked_operation falls back on its own operators
OWN = r'''
struct vpx_q { int v, how; };
#define VPX_B(op, k) constexpr inline vpx_q operator op(const vpx_q & a, const vpx_q & b){ return vpx_q{a.v * 100 + b.v, k}; }
VPX_B(+, 1) VPX_B(-, 2) VPX_B(*, 3) VPX_B(/, 4) VPX_B(%, 5) VPX_B(<<, 6) VPX_B(>>, 7) VPX_B(|, 8) VPX_B(^, 9) VPX_B(&, 10)
constexpr inline vpx_q operator~(const vpx_q & a){ return vpx_q{a.v, 11}; }
constexpr inline vpx_q operator-(const vpx_q & a){ return vpx_q{a.v, 12}; }
constexpr inline bool operator<(const vpx_q & a, const vpx_q & b){ return a.v < b.v; }
constexpr inline bool operator>(const vpx_q & a, const vpx_q & b){ return a.v > b.v; }
constexpr inline bool operator==(const vpx_q & a, const vpx_q & b){ return a.v == b.v; }
'''
DEFAULT = {'add': 1, 'subtract': 2, 'multiply': 3, 'divide': 4, 'modulus': 5, 'left_shift': 6, 'right_shift': 7, 'bitwise_or': 8, 'bitwise_xor': 9, 'bitwise_and': 10}


def own_entries():
    es = []
    P = [('a', (0, 90)), ('b', (0, 90))]

    def one(n, expr, params, regs):
        es.append(Entry(n, params, 'void %s(%s){ %s }' % (n, ', '.join('int ' + p for p, _ in params), expr), regs))
    for f, k in DEFAULT.items():
        for via, c in (('op', 'checked_operation<vpx_q>::%s(vpx_q{a, 0}, vpx_q{b, 0})' % f), ('fn', 'checked::%s<vpx_q>(vpx_q{a, 0}, vpx_q{b, 0})' % f)):
            one('x_own_%s_%s' % (via, f), 'const auto r = vp_get(%s); vp_result = r.how * 100000 + r.v;' % c, P, lambda a, b, k=k: [R_('', [], Val(a * 100 + b + k * 100000))])
    for via, c in (('op', 'checked_operation<vpx_q>::bitwise_not(vpx_q{a, 0})'), ('fn', 'checked::bitwise_not<vpx_q>(vpx_q{a, 0})')):
        one('x_own_%s_not' % via, 'const auto r = vp_get(%s); vp_result = r.how * 100000 + r.v;' % c, P[:1], lambda a: [R_('', [], Val(a + 11 * 100000))])
    for via, c in (('op', 'checked_operation<vpx_q>::minus(vpx_q{a, 0})'), ('fn', 'checked::minus<vpx_q>(vpx_q{a, 0})')):
        one('x_own_%s_minus' % via, 'const auto r = vp_get(%s); vp_result = r.how * 100000 + r.v;' % c, P[:1], lambda a: [R_('', [], Val(a + 12 * 100000))])
    for f, t in (('less_than', (1, 0, 0)), ('greater_than', (0, 0, 1)), ('equal', (0, 1, 0))):
        one('x_own_%s' % f, 'vp_result = vpx_t(checked_operation<vpx_q>::%s(vpx_q{a, 0}, vpx_q{b, 0}));' % f, P,
            lambda a, b, t=t: [R_('less', [(b - a, 1, None)], Val(t[0])), R_('equal', [(b - a, 0, 0)], Val(t[1])), R_('greater', [(a - b, 1, None)], Val(t[2]))])
    return es


def main():
    r = Report('X01')
    full = TIER == 'thorough'
    jobs = []
    for T in (STD8 if full else ['i8', 'i32', 'i64', 'u8', 'u32', 'u64']):
        es = entries(T, full)
        jobs += [Job('%s%d' % (T, i), es[i::4], extra=MORE) for i in range(4)]
    jobs.append(Job('own', own_entries(), extra=MORE + OWN))
    r.absorb(run_jobs(jobs))
    r.finish('+ - * / % and comparisons of checked_result operands: two values, a value and each of the ten error codes on either side, and every pair of error codes; unary + and -, bitwise operators with an error operand',
             ['positive_overflow_error / negative_overflow_error stand for a number above / below every value of the type, other codes for an unknown number', 'LP64 data model, clang 18 lowering, C++14'])
