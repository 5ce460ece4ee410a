"""R02: result types under native promotion are those of the built-in operation; policies are preserved."""
from tl import *
from ops import SYM, safe, srange, literal, builtin

PRE = PRELUDE + r'''
struct EP2h { constexpr EP2h(){} void operator()(const safe_numerics_error &, const char*) const {} };
using EPX2 = exception_policy<EP2h,EP2h,EP2h,EP2h>;
template<class X> using vp_bv = std::decay_t<decltype(base_value(std::declval<X>()))>;
template<class X, class P, class E> constexpr bool vp_pol(){
    return std::is_same<typename get_promotion_policy<X>::type, P>::value && std::is_same<typename get_exception_policy<X>::type, E>::value && is_safe<X>::value;
}
'''
TL = ('type-level witnesses', )
TB = ['clang 18 and g++ 13 front ends (type checking of /repo headers)', 'the type tables in /verif/checks']


def ex(a, sym, b):
    return 'decltype(std::declval<const %s&>() %s std::declval<const %s&>())' % (a, sym, b)


def main():
    r = Report('R02')
    r.extra['trusted_base'] = TB
    W = []
    T = STD8 + ['c', 'll', 'ull']
    P, E = 'native', 'EPX2'
    CMP = ['<', '<=', '>', '>=', '==', '!=']
    for t in T:
        for u in T:
            st, su = 'safe<%s,%s,%s>' % (cxx(t), P, E), 'safe<%s,%s,%s>' % (cxx(u), P, E)
            for f, (a, b) in (('ss', (st, su)), ('sb', (st, cxx(u))), ('bs', (cxx(t), su))):
                for op, sym in SYM.items():
                    e = ex(a, sym, b)
                    bt = ex(cxx(t), sym, cxx(u))
                    code = 'using X = %s; static_assert(std::is_same<vp_bv<X>, std::decay_t<%s>>::value, "base type"); static_assert(vp_pol<X,%s,%s>(), "policies");' % (e, bt, P, E)
                    W.append(Wit('%s_%s_%s_%s' % (op, t, u, f), code, True, 'the result of %s %s %s must be a safe type with the base type of the built-in operation and the same policies' % (a, sym, b),
                                 'native.hpp'))
                for k, sym in enumerate(CMP):
                    W.append(Wit('cmp%d_%s_%s_%s' % (k, t, u, f), 'static_assert(std::is_same<%s, bool>::value, "bool");' % ex(a, sym, b), True, 'comparison yields bool',
                                 'safe_base_operations.hpp'))
        for sym, nm in (('-', 'neg'), ('~', 'not')):
            code = 'using X = decltype(%sstd::declval<const safe<%s,%s,%s>&>()); static_assert(std::is_same<vp_bv<X>, std::decay_t<decltype(%sstd::declval<const %s&>())>>::value, "base type"); static_assert(vp_pol<X,%s,%s>(), "policies");' % (
                sym, cxx(t), P, E, sym, cxx(t), P, E)
            W.append(Wit('%s_%s' % (nm, t), code, True, 'unary %s on safe<%s> must have the promoted base type and the same policies' % (sym, cxx(t)), 'safe_base.hpp'))
        st = 'safe<%s,%s,%s>' % (cxx(t), P, E)
        W.append(Wit('pos_%s' % t, 'static_assert(std::is_same<decltype(+std::declval<const %s&>()), %s>::value, "");' % (st, st), True, 'unary + keeps the type', 'safe_base.hpp'))
        for k, o in enumerate(['++x', '--x', 'x++', 'x--', 'x += x', 'x -= x', 'x *= x', 'x /= x', 'x %= x', 'x <<= x', 'x >>= x', 'x &= x', 'x |= x', 'x ^= x']):
            W.append(Wit('upd%d_%s' % (k, t), 'template<class X> auto f(X & x) -> decltype(%s); static_assert(std::is_same<std::decay_t<decltype(f(std::declval<%s&>()))>, %s>::value, "");' % (o, st, st),
                         True, '%s yields the type of the variable' % o, 'safe_base_operations.hpp'))
    # policies of mixed policy operands: void adopts the other one
    for pa, ea, pb, eb, p, e in (('native', 'EP', 'void', 'void', 'native', 'EP'), ('void', 'void', 'automatic', 'EPN', 'automatic', 'EPN'),
                                 ('automatic', 'EPX2', 'void', 'void', 'automatic', 'EPX2')):
        for op in ('add', 'sub', 'mul', 'div', 'mod', 'shl', 'shr', 'and', 'or', 'xor'):
            if pa == 'void':
                a, b = 'safe_signed_literal<7>', 'safe<int,%s,%s>' % (pb, eb)
            else:
                a, b = 'safe<int,%s,%s>' % (pa, ea), 'safe_signed_literal<7>'
            W.append(Wit('pol_%s_%s_%s' % (op, pa, pb), 'static_assert(vp_pol<%s,%s,%s>(), "");' % (ex(a, SYM[op], b), p, e), True,
                         'a literal without policies adopts those of the other operand', 'safe_base_operations.hpp'))
    decide_wits(r, W, PRE)
    r.finish('eleven integer types pairwise, ten binary operators, six comparisons, unary and update operators, as safe/safe, safe/built-in and built-in/safe',
             ['LP64 data model, C++14'])
