"""Y01: operations on constants are constant expressions with the right value; failing ones are not constant expressions."""
from ops import *
from tl import Wit, decide_wits

TB = ['constant evaluators of clang 18 and g++ 13 on /repo headers', 'Python integers as the arithmetic oracle']
PRE = PRELUDE + r'''
template<class X> constexpr X vp_assign(X x, long long v){ x = v; return x; }
'''
CMPS = {'lt': ('<', lambda a, b: a < b), 'le': ('<=', lambda a, b: a <= b), 'gt': ('>', lambda a, b: a > b), 'ge': ('>=', lambda a, b: a >= b), 'eq': ('==', lambda a, b: a == b), 'ne': ('!=', lambda a, b: a != b)}
AR = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: tdivi(a, b), '%': lambda a, b: a - b * tdivi(a, b)}
UPD = '+-*/%'


def lit_(v, t=None):
    x = num(v)
    return 'static_cast<%s>(%s)' % (cxx(t), x) if t else x


def wrap(v, t):
    lo, hi = rng(t)
    return (v - lo) % (hi - lo + 1) + lo


def corner(t, rnd):
    lo, hi = rng(t)
    s = {lo, lo + 1, hi, hi - 1, 0, 1, 2, 7, hi // 2, hi // 2 + 1}
    if lo < 0:
        s |= {-1, -2, lo // 2}
    s |= {rnd.randint(lo, hi), rnd.randint(max(lo, -200), min(hi, 200))}
    return sorted(s)


def main():
    r = Report('Y01')
    r.extra['trusted_base'] = TB
    full = TIER == 'thorough'
    rnd = random.Random(SEED)
    w = []
    good, bad = {}, []
    pairs = [(a, b) for a in STD8 for b in STD8]

    def ok(key, group, cond, what):
        good.setdefault(group, []).append((key, cond, what))

    def fail(key, expr, what):
        bad.append(Wit(key, 'constexpr auto x = %s;' % expr, ok=False, what='%s reports an error, so it must not be a constant expression' % what))
    nb = 0
    for P in ('native', 'automatic'):
        for a, b in pairs:
            R = usual(a, b)
            A_, B_ = 'safe<%s,%s>' % (cxx(a), P), 'safe<%s,%s>' % (cxx(b), P)
            lo, hi = rng(R) if P == 'native' else (-2**63, 2**63 - 1)
            vs = [(x, y) for x in corner(a, rnd) for y in corner(b, rnd)]
            for sym, f in AR.items():
                sel = vs if full else rnd.sample(vs, 14)
                for x, y in sel:
                    e = '(%s(%s) %s %s(%s))' % (A_, lit_(x, a), sym, B_, lit_(y, b))
                    k = '%s/%s%s%s/%d,%d' % (P[0], a, sym, b, x, y)
                    if sym in '/%' and y == 0:
                        fail(k, e, e)
                        continue
                    v = f(x, y)
                    if P == 'native':
                        cx, cy = wrap(x, R), wrap(y, R)
                        if (cx, cy) != (x, y):
                            fail(k, e, e)      # an operand is not representable in the type of the operation
                            continue
                        if lo <= v <= hi:
                            ok(k, '%s/%s%s%s' % (P[0], a, sym, b), 'base_value%s == %s' % (e, num(v)), e)
                        elif sym != '%':
                            fail(k, e, e)
                    else:
                        if -2**63 <= min(x, y, v) and max(x, y, v) < 2**63:
                            ok(k, '%s/%s%s%s' % (P[0], a, sym, b), 'base_value%s == %s' % (e, num(v)), e)
                        elif v < -2**63 or v >= 2**64:
                            fail(k, e, e)
            for nm, (sym, f) in CMPS.items():
                for x, y in (vs if full else rnd.sample(vs, 4)):
                    if (wrap(x, R), wrap(y, R)) != (x, y) or P == 'automatic' and max(x, y) >= 2**63:
                        continue
                    e = '(%s(%s) %s %s(%s))' % (A_, lit_(x, a), sym, B_, lit_(y, b))
                    ok('%s/%s%s%s/%d,%d' % (P[0], a, nm, b, x, y), 'cmp/%s/%s/%s' % (P[0], a, b), '%s == %s' % (e, 'true' if f(x, y) else 'false'), e)
            # shifts, native
            if P == 'native':
                R1 = promote(a)
                for x in rnd.sample(corner(a, rnd), 5):
                    for n in (0, 1, 3, bits(R1) - 1):
                        if n > tmax(b):
                            continue
                        v = x << n
                        rs = rng(R)
                        if x > 0 and v <= min(tmax(R1), tmax(R)):
                            e = '(%s(%s) << %s(%s))' % (A_, lit_(x, a), B_, lit_(n, b))
                            ok('shl/%s/%s/%d,%d' % (a, b, x, n), 'sh/%s/%s' % (a, b), 'base_value%s == %s' % (e, num(v)), e)
                        if x >= 0:
                            e = '(%s(%s) >> %s(%s))' % (A_, lit_(x, a), B_, lit_(n, b))
                            ok('shr/%s/%s/%d,%d' % (a, b, x, n), 'sh/%s/%s' % (a, b), 'base_value%s == %s' % (e, num(x >> n)), e)
                for x, n in ((1, 64), (1, 100)) + (((1, -1),) if tmin(b) < 0 else ()):
                    for s in ('<<', '>>'):
                        e = '(%s(%d) %s %s(%s))' % (A_, x, s, B_, lit_(n, b))
                        fail('sh%s/%s/%s/%d' % (s, a, b, n), e, e)
        # conversions and updates
        for a in STD8:
            A_ = 'safe<%s,%s>' % (cxx(a), P)
            lo, hi = rng(a)
            for b in STD8:
                for x in corner(b, rnd):
                    e = '%s(%s)' % (A_, lit_(x, b))
                    k = 'conv/%s/%s<-%s/%d' % (P[0], a, b, x)
                    if lo <= x <= hi:
                        ok(k, 'conv/%s/%s<-%s' % (P[0], a, b), 'base_value(%s) == %s' % (e, lit_(x, a)), e)
                    elif full or rnd.random() < .3:
                        fail(k, e, e)
                    e = 'static_cast<%s>(safe<%s,%s>(%s))' % (cxx(a), cxx(b), P, lit_(x, b))
                    k = 'out/%s/%s<-%s/%d' % (P[0], a, b, x)
                    if lo <= x <= hi:
                        ok(k, 'out/%s/%s<-%s' % (P[0], a, b), '%s == %s' % (e, lit_(x, a)), e)
                    elif full or rnd.random() < .3:
                        fail(k, e, e)
    # ranges
    for lo, hi, s in ((-5, 100, 1), (0, 9, 0), (1, 10, 1), (-2**40, 2**40, 1), (5, 5, 1), (2**63, 2**64 - 1, 0)):
        T = 'safe_%s_range<%s,%s>' % ('signed' if s else 'unsigned', num(lo), num(hi))
        for x in (lo - 1, lo, lo + 1, hi - 1, hi, hi + 1, 0, 7):
            if not (-2**63 <= x < 2**64):
                continue
            e = '%s(%s)' % (T, num(x))
            if lo <= x <= hi:
                ok('range/[%d,%d]/%d' % (lo, hi, x), 'range', 'base_value(%s) == %s' % (e, num(x)), e)
            else:
                fail('range/[%d,%d]/%d' % (lo, hi, x), e, e)
    # the update of a local variable of a constexpr function (C++14)
    k = 0
    defs = []
    for a in STD8:
        for P in ('native', 'automatic'):
            A_ = 'safe<%s,%s>' % (cxx(a), P)
            lo, hi = rng(a)
            for o in UPD:
                defs.append((A_, o, 'template<class X, class Y> constexpr X vp_u(X x, Y y){ x %s= y; return x; }' % o))
                for x in (lo, hi, hi // 2 + 1, 5):
                    for y in (1, 2, 3, hi):
                        v = AR[o](x, y)
                        if y == 0 or not (-2**31 <= y < 2**31) and tmin(a) < 0 and P == 'native' and bits(a) < 64:
                            continue
                        if P == 'automatic' and max(x, y) >= 2**63:
                            continue
                        fn = 'vp_upd_%d' % '+-*/%'.index(o)
                        e = '%s<%s>(%s, %s)' % (fn, A_, lit_(x, a), lit_(y, a))
                        if lo <= v <= hi:
                            ok('upd/%s/%s%s/%d,%d' % (P[0], a, o, x, y), 'upd/%s/%s' % (P[0], a), 'base_value(%s) == %s' % (e, lit_(v, a)), e)
                        else:
                            fail('upd/%s/%s%s/%d,%d' % (P[0], a, o, x, y), 'base_value(%s)' % e, e)
            for nm, f, d in (('inc', 'vp_inc', 1), ('dec', 'vp_dec', -1), ('pinc', 'vp_pinc', 1), ('pdec', 'vp_pdec', -1)):
                for x in (lo, hi, 5):
                    v = x + d
                    if P == 'automatic' and x >= 2**63:
                        continue  # an operand that the signed type of the operation does not hold
                    e = '%s<%s>(%s)' % (f, A_, lit_(x, a))
                    if lo <= v <= hi:
                        ok('%s/%s/%s/%d' % (nm, P[0], a, x), 'upd/%s/%s' % (P[0], a), 'base_value(%s) == %s' % (e, lit_(v, a)), e)
                    else:
                        fail('%s/%s/%s/%d' % (nm, P[0], a, x), 'base_value(%s)' % e, e)
    pre = PRE + ''.join('template<class X> constexpr X vp_upd_%d(X x, X y){ x %s= y; return x; }\n' % (i, o) for i, o in enumerate('+-*/%'))
    pre += '''template<class X> constexpr X vp_inc(X x){ ++x; return x; }
template<class X> constexpr X vp_dec(X x){ --x; return x; }
template<class X> constexpr X vp_pinc(X x){ x++; return x; }
template<class X> constexpr X vp_pdec(X x){ x--; return x; }
'''
    # checked::
    for t in STD8:
        C = cxx(t)
        lo, hi = rng(t)
        for fn, sym in (('add', '+'), ('subtract', '-'), ('multiply', '*'), ('divide', '/'), ('modulus', '%')):
            for x, y in rnd.sample([(x, y) for x in corner(t, rnd) for y in corner(t, rnd)], 12):
                e = 'checked::%s<%s>(%s, %s)' % (fn, C, lit_(x, t), lit_(y, t))
                if y == 0 and sym in '/%':
                    c = '%s.exception()' % e
                else:
                    v = AR[sym](x, y)
                    if sym == '%' or lo <= v <= hi:
                        c = '!%s.exception() && static_cast<%s>(%s) == %s' % (e, C, e, lit_(v, t))
                    else:
                        c = '%s.exception()' % e
                ok('checked/%s/%s/%d,%d' % (fn, t, x, y), 'checked/' + t, c, e)
        for u in STD8:
            for x in corner(u, rnd):
                e = 'checked::cast<%s>(%s)' % (C, lit_(x, u))
                ok('cast/%s<-%s/%d' % (t, u, x), 'cast/' + t, ('!%s.exception() && static_cast<%s>(%s) == %s' % (e, C, e, lit_(x, t))) if lo <= x <= hi else e + '.exception()', e)
            for x, y in rnd.sample([(x, y) for x in corner(t, rnd) for y in corner(u, rnd)], 6):
                for f, v in (('less_than', x < y), ('greater_than', x > y), ('less_than_equal', x <= y), ('greater_than_equal', x >= y), ('equal', x == y), ('not_equal', x != y)):
                    e = 'safe_compare::%s(%s, %s)' % (f, lit_(x, t), lit_(y, u))
                    ok('%s/%s,%s/%d,%d' % (f, t, u, x, y), 'compare/%s/%s' % (t, u), '%s == %s' % (e, str(v).lower()), e)
    n = 0
    for g, items in good.items():
        for i in range(0, len(items), 40):
            chunk = items[i:i + 40]
            n += len(chunk)
            w.append(Wit('%s#%d' % (g, i // 40), '\n'.join('static_assert(%s, "%s");' % (c, k_) for k_, c, _ in chunk), what='constant expressions with the exact value: ' + g))
    if not full:
        rnd.shuffle(bad)
        bad = bad[:1200]
    decide_wits(r, w + bad, pre, compilers=('clang', 'g++'), rule='constant expression')
    r.extra['constant_expressions'] = n
    r.finish('%d constant expressions with the required value (arithmetic, comparisons, shifts, conversions both ways, compound assignment, ++ and --, ranges, checked::, safe_compare) and %d failing '
             'operations in a context that requires a constant expression' % (n, len(bad)), ['LP64 data model, C++14'])
