"""R03: the result types of the cpp<> policies are those of the emulated machine."""
from tl import *
from ops import SYM, safe, builtin, literal

PRE = PRELUDE + r'''
struct EP3h { constexpr EP3h(){} void operator()(const safe_numerics_error &, const char*) const {} };
using EPX3 = exception_policy<EP3h,EP3h,EP3h,EP3h>;
template<class X> using vp_bv = std::decay_t<decltype(base_value(std::declval<X>()))>;
template<class X> constexpr bool vp_is(unsigned bits, bool sgn){
    return sizeof(vp_bv<X>) * 8 == bits && std::is_signed<vp_bv<X>>::value == sgn && is_safe<X>::value;
}
'''
TB = ['clang 18 and g++ 13 front ends (type checking of /repo headers)', 'the promotion model in /verif/checks/r03.py']
MACH = [(8, 16, 16, 32, 32), (8, 16, 32, 32, 64), (8, 16, 32, 64, 64), (8, 8, 16, 32, 64), (8, 16, 16, 32, 64), (8, 16, 64, 64, 64), (8, 32, 32, 64, 64)]


def rank(m, w):
    for i, b in enumerate(m):
        if b == w:
            return i + 1
    return 6


def promote(m, t):
    w, s = t
    return (m[2], s) if rank(m, w) < rank(m, m[2]) else t


def usual(m, a, b):
    a, b = promote(m, a), promote(m, b)
    if a == b:
        return a
    if a[1] == b[1]:
        return b if rank(m, a[0]) < rank(m, b[0]) else a
    s, u = (a, b) if a[1] else (b, a)
    if rank(m, u[0]) >= rank(m, s[0]):
        return u
    return s if s[0] - 1 >= u[0] else (s[0], False)


def vp_wt(t):
    return t[0], 'true' if t[1] else 'false'


def main():
    r = Report('R03')
    r.extra['trusted_base'] = TB
    full = TIER == 'thorough'
    W = []
    T = [t for t in STD8]
    for m in MACH:
        P = 'cpp<%s>' % ','.join(map(str, m))
        top = max(m)
        for t in T:
            for u in T:
                if bits(t) > top or bits(u) > top:
                    continue
                if any(bits(x) not in m for x in (t, u)):
                    continue            # no type of that width on the emulated machine
                rt = usual(m, (bits(t), signed(t)), (bits(u), signed(u)))
                sh = promote(m, (bits(t), signed(t)))
                st, su = 'safe<%s,%s,EPX3>' % (cxx(t), P), 'safe<%s,%s,EPX3>' % (cxx(u), P)
                for f, (a, b) in (('ss', (st, su)), ('sb', (st, cxx(u))), ('bs', (cxx(t), su))):
                    if f != 'ss' and not full and (T.index(t) + T.index(u)) % 2:
                        continue
                    ops = [o for o in SYM]
                    code = ' '.join('{ using X = decltype(std::declval<const %s&>() %s std::declval<const %s&>()); static_assert(vp_is<X>(%d,%s), "result of %s"); static_assert(std::is_same<typename get_promotion_policy<X>::type, %s>::value && std::is_same<typename get_exception_policy<X>::type, EPX3>::value, "policies"); }'
                                    % ((a, SYM[o], b) + vp_wt(sh if o[:2] == "sh" else rt) + (SYM[o], P)) for o in ops)
                    W.append(Wit('m%s_%s_%s_%s' % ('_'.join(map(str, m)), t, u, f), 'inline void f(){ %s }' % code, True,
                                 '%s op %s on the machine cpp<%s> must yield %s%d' % (a, b, ','.join(map(str, m)), 'int' if rt[1] else 'uint', rt[0]), 'cpp.hpp'))
    decide_wits(r, W, PRE, compilers=('clang', 'g++') if full else ('clang',))
    r.finish('%d emulated machines, all pairs of eight integer types that exist on the machine, ten operators, safe/safe, safe/built-in and built-in/safe' % len(MACH),
             ['a narrow unsigned type promotes to unsigned int: a decision of the library that its own test asserts', 'LP64 data model, C++14'])
