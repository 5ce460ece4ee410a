"""Q01: what the types say about themselves: numeric_limits, traits, stored type, layout."""
from tl import *
from ops import safe, srange, literal
from vp import *

PRE = PRELUDE + r'''
#include <limits>
template<class X> using vp_bv = std::decay_t<decltype(base_value(std::declval<X>()))>;
'''
TB = ['clang 18 and g++ 13 front ends (type checking of /repo headers)', 'the layout rules in /verif/checks/q01.py']
POL = {'native': 'native', 'automatic': 'automatic', 'cpp': 'cpp<8,16,32,64,64>'}


def least(lo, hi, sgn):
    for n in (8, 16, 32, 64):
        a, b = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if sgn else (0, (1 << n) - 1)
        if a <= lo and hi <= b:
            return n


def lit(v):
    if v == -2**63:
        return '(-9223372036854775807L-1)'
    return '%d%s' % (v, 'UL' if v > 2**63 - 1 else 'L')


def about(key, ty, T, lo, hi, P, E):
    """T: C++ type of the stored value"""
    w = []

    def a(k, cond, what):
        w.append(Wit('%s/%s' % (key, k), 'using X = %s;\nstatic_assert(%s, "");' % (ty, cond), what='%s: %s' % (ty, what)))
    a('is_safe', 'is_safe<X>::value && !is_safe<%s>::value' % T, 'is_safe is true for it and false for its base type')
    a('base', 'std::is_same<vp_bv<X>, %s>::value && std::is_same<typename base_type<X>::type, %s>::value' % (T, T), 'the base type is ' + T)
    a('min', 'base_value(std::numeric_limits<X>::min()) == %s && std::is_same<decltype(std::numeric_limits<X>::min()), X>::value' % lit(lo), 'numeric_limits::min() is the least value')
    a('lowest', 'base_value(std::numeric_limits<X>::lowest()) == %s && std::is_same<decltype(std::numeric_limits<X>::lowest()), X>::value' % lit(lo), 'numeric_limits::lowest() is the least value')
    a('max', 'base_value(std::numeric_limits<X>::max()) == %s && std::is_same<decltype(std::numeric_limits<X>::max()), X>::value' % lit(hi), 'numeric_limits::max() is the greatest value')
    a('kind', 'std::numeric_limits<X>::is_specialized && std::numeric_limits<X>::is_integer && std::numeric_limits<X>::is_exact && std::numeric_limits<X>::is_bounded '
      '&& std::numeric_limits<X>::is_signed == std::is_signed<%s>::value && std::numeric_limits<X>::digits == std::numeric_limits<%s>::digits' % (T, T), 'numeric_limits describe an exact bounded integer of its signedness')
    if P:
        a('promotion', 'std::is_same<typename get_promotion_policy<X>::type, %s>::value' % P, 'get_promotion_policy is the declared one')
        a('exception', 'std::is_same<typename get_exception_policy<X>::type, %s>::value' % E, 'get_exception_policy is the declared one')
    return w


def main():
    r = Report('Q01')
    r.extra['trusted_base'] = TB
    full = TIER == 'thorough'
    rnd = random.Random(SEED)
    w = []
    types = STD8 + ['ll', 'ull', 'c']
    for t in types:
        C = cxx(t)
        lo, hi = rng(t)
        for pn, P in POL.items():
            for E in ('default_exception_policy', 'EP'):
                ty = 'safe<%s, %s, %s>' % (C, P, E)
                w += about('%s/%s/%s' % (t, pn, E), ty, C, lo, hi, P, E)
        ty = 'safe<%s>' % C
        w += about(t + '/defaults', ty, C, lo, hi, 'native', 'strict_exception_policy')
    RG = [(0, 0, 1), (-1, 0, 1), (-128, 127, 1), (-129, 0, 1), (0, 127, 1), (0, 128, 1), (-32768, 32767, 1), (-32769, 0, 1), (0, 32768, 1), (-2**31, 2**31 - 1, 1), (-2**31 - 1, -2**31 - 1, 1), (2**31, 2**31, 1),
          (-2**63, 2**63 - 1, 1), (-2**63, -2**63, 1), (2**63 - 1, 2**63 - 1, 1), (5, 5, 1), (-7, -3, 1), (0, 0, 0), (0, 255, 0), (255, 255, 0), (0, 256, 0), (3, 65535, 0), (0, 65536, 0),
          (0, 2**32 - 1, 0), (0, 2**32, 0), (0, 2**64 - 1, 0), (2**64 - 1, 2**64 - 1, 0), (1, 2**63, 0)]
    for b in range(1, 64):
        RG += [(0, (1 << b) - 1, 1), (-(1 << b), -1, 1), (0, (1 << b) - 1, 0), (0, 1 << b, 0)]
        if b < 63:
            RG += [(0, 1 << b, 1), (-(1 << b) - 1, 0, 1)]
    for _ in range(60 if not full else 600):
        s = rnd.random() < .6
        m = 1 << rnd.randint(1, 63)
        x, y = sorted(rnd.randint(-m, m - 1) if s else rnd.randint(0, 2 * m - 1) for _ in (0, 1))
        RG.append((x, y, int(s)))
    for lo, hi, s in RG:
        n = least(lo, hi, s)
        T = ('std::int%d_t' if s else 'std::uint%d_t') % n
        k = '%s[%d,%d]' % ('s' if s else 'u', lo, hi)
        ty = 'safe_%s_range<%s, %s>' % ('signed' if s else 'unsigned', lit(lo), lit(hi))
        ws = about(k, ty, T, lo, hi, 'native', 'strict_exception_policy')
        # 'int8_t' and 'int_least8_t', and their fast forms, only have to have the width
        for x in ws:
            x.code = x.code.replace('std::is_same<vp_bv<X>, %s>::value && std::is_same<typename base_type<X>::type, %s>::value' % (T, T),
                                    'std::is_same<vp_bv<X>, typename base_type<X>::type>::value && sizeof(vp_bv<X>) == %d && std::is_signed<vp_bv<X>>::value == %s && std::is_integral<vp_bv<X>>::value' % (n // 8, str(bool(s)).lower()))
        w += ws
        w.append(Wit(k + '/size', 'static_assert(sizeof(%s) == %d, "");' % (ty, n // 8), what='%s occupies the least standard size that holds its range' % ty))
        if lo == hi or rnd.random() < .3:
            v = hi
            for nm, val in ((k + '/lit', v),):
                ty2 = 'safe_%s_literal<%s>' % ('signed' if s else 'unsigned', lit(val))
                n2 = least(val, val, s)
                w.append(Wit(nm, 'using X = %s;\nstatic_assert(is_safe<X>::value && base_value(X()) == %s && sizeof(vp_bv<X>) == %d && std::is_signed<vp_bv<X>>::value == %s'
                             '&& base_value(std::numeric_limits<X>::min()) == %s && base_value(std::numeric_limits<X>::max()) == %s && base_value(std::numeric_limits<X>::lowest()) == %s, "");' % (
                                 ty2, lit(val), n2 // 8, str(bool(s)).lower(), lit(val), lit(val), lit(val)), what='%s has the value and the least type which holds it' % ty2))
                ty3 = 'std::decay_t<decltype(make_safe_literal(%s, native, EP))>' % lit(val)
                w.append(Wit(nm + '/make', 'using X = %s;\nstatic_assert(is_safe<X>::value && base_value(X()) == %s && sizeof(vp_bv<X>) == %d && std::is_same<get_promotion_policy<X>::type, native>::value && std::is_same<get_exception_policy<X>::type, EP>::value, "");' % (
                    ty3, lit(val), least(val, val, val < 2**63) // 8), what='make_safe_literal(%s, …) has the value, the least type and the policies' % lit(val)))
    # layout
    for t in types:
        C = cxx(t)
        for pn, P in POL.items():
            ty = 'safe<%s, %s, EP>' % (C, P)
            w.append(Wit('layout/%s/%s' % (t, pn), 'using X = %s;\nstatic_assert(sizeof(X) == sizeof(%s) && alignof(X) == alignof(%s) && std::is_trivially_copyable<X>::value && std::is_standard_layout<X>::value && std::is_trivially_destructible<X>::value && std::is_literal_type<X>::value, "");' % (ty, C, C),
                         what='%s has the size, alignment and copy semantics of %s' % (ty, C)))
            w.append(Wit('copy/%s/%s' % (t, pn), 'using X = %s;\nstatic_assert(std::is_nothrow_copy_constructible<X>::value && std::is_nothrow_copy_assignable<X>::value && std::is_nothrow_move_constructible<X>::value && std::is_nothrow_move_assignable<X>::value && std::is_nothrow_destructible<X>::value, "");' % ty,
                         what='copying and moving %s can not throw' % ty))
    for b in types + ['b']:
        w.append(Wit('builtin/' + b, 'static_assert(!is_safe<%s>::value && std::is_same<base_type<%s>::type, %s>::value && std::is_same<get_promotion_policy<%s>::type, void>::value && std::is_same<get_exception_policy<%s>::type, void>::value && base_value(static_cast<%s>(1)) == 1, "");' % (
            (cxx(b),) * 6), what='%s is not safe and has no policies' % cxx(b)))
    decide_wits(r, w, PRE, rule='numeric_limits, traits and layout')
    r.finish('numeric_limits (min, lowest, max, kind), is_safe, base_type, policies, stored type and size of safe types (11 base types x 3 promotion policies x 2 exception policies), %d ranges and literals of them; layout and copy semantics' % len(RG),
             ['LP64 data model, C++14'])
