"""X02: checked_result holds either a value or an error with its message, and gives back what it holds."""
from vp import *
from spec import *
from dom import K
import i01
from tl import CLANG, INC

ALL = list(range(1, 11))
STREAM = i01.STREAM.replace('operator<<(basic_ostream<vpc, vpt> & s, char){ vp_out(3); }', 'operator<<(basic_ostream<vpc, vpt> & s, char){ return s; }').replace(
    'vp_result = x; return', '++vpw_n; vpw_v = x; return').replace('static bool vps_fail;', 'static int vpw_n; static __int128 vpw_v; static bool vps_fail;') + r'''
static char const vpm[] = "message";
static int vpw_s, vpw_m;        // strings and messages written
namespace std {
inline basic_ostream<vpc, vpt> & operator<<(basic_ostream<vpc, vpt> & s, string const &){ ++vpw_s; return s; }
inline basic_ostream<vpc, vpt> & operator<<(basic_ostream<vpc, vpt> & s, char const * p){ if(p == vpm) ++vpw_m; else ++vpw_s; return s; }
}
template<class T> constexpr inline checked_result<T> vpx_v(T t){ return checked_result<T>(t); }
template<class T> constexpr inline checked_result<T> vpx_e(int e){ return checked_result<T>(static_cast<safe_numerics_error>(e), vpm); }
// what a checked result holds: the value, or the error (and the message which was given)
template<class T> inline __int128 vpx_get(checked_result<T> const & c){
    if(c.exception()){
        if(static_cast<char const *>(c) != vpm) vp_out(5);
        vp_err(static_cast<int>(static_cast<safe_numerics_error>(c)));
    }
    if(static_cast<safe_numerics_error>(c) != safe_numerics_error::success) vp_out(6);
    return static_cast<T>(c);
}
'''


KEEP = ["_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE" + x for x in ("C2IS3_EEPKcRKS3_", "C1IS3_EEPKcRKS3_", "D1Ev", "D2Ev")]


class Ext(dict):
    """the text of a message (see E03) is not followed: that it is made and destroyed has no effect"""
    def get(self, k, d=None):
        if re.match(r'@?_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE([CD][12])|.*7messageB5cxx11Ei$|@?_ZNS(aIc|t15__new_allocatorIc|t9allocatorIc)E?[CD][12]', k or ''):
            return lambda an, s, inst, args: [(s, None)]
        return dict.get(self, k, d)


def entries(T, full, others):
    es = []
    C = cxx(T)
    lo, hi = rng(T)

    def E(n, par, code, f):
        es.append(Entry('y_' + n + '_' + T, par, 'void y_%s_%s(%s){ %s }' % (n, T, ', '.join('%s %s' % (cxx(t) if t in STDX else t, v) for v, t in par), code), f))
    P = [('t', T)]
    same = lambda t: [R_('all', [], Val(t))]
    E('val', P, 'checked_result<%s> c(t); vp_result = vpx_get(c);' % C, same)
    E('conv', P, 'checked_result<%s> c = t; vp_result = vpx_get(c);' % C, same)
    E('copy', P, 'checked_result<%s> c(t); checked_result<%s> d(c); vp_result = vpx_get(d);' % (C, C), same)
    E('move', P, 'checked_result<%s> c(t); checked_result<%s> d(std::move(c)); vp_result = vpx_get(d);' % (C, C), same)
    E('out', P, 'checked_result<%s> c(t); vpw_n = vpw_s = vpw_m = 0; vps.o << c; if(vpw_n != 1) vp_out(10); if(vpw_s || vpw_m) vp_out(11); vp_result = vpw_v;' % C, same)
    for e in ALL:
        f = lambda e=e: [R_('error', [], Err(e))]
        E('err%d' % e, [], 'checked_result<%s> c(static_cast<safe_numerics_error>(%d), vpm); vp_result = vpx_get(c);' % (C, e), f)
        E('errout%d' % e, [], 'checked_result<%s> c(static_cast<safe_numerics_error>(%d), vpm); vpw_n = vpw_s = vpw_m = 0; vps.o << c; if(vpw_n) vp_out(10); if(! vpw_m) vp_out(11); vp_err(%d);' % (C, e, e), f)
        E('errcopy%d' % e, [], 'checked_result<%s> c(static_cast<safe_numerics_error>(%d), vpm); checked_result<%s> d(c); vp_result = vpx_get(d);' % (C, e, C), f)
        E('make%d' % e, [], 'vp_result = vpx_get(make_checked_result<%s>::template invoke<static_cast<safe_numerics_error>(%d)>(vpm));' % (C, e), f)
        E('nomsg%d' % e, [], 'checked_result<%s> c(static_cast<safe_numerics_error>(%d)); if(*static_cast<char const *>(c)) vp_out(7); if(!c.exception()) vp_out(8); vp_err(static_cast<int>(static_cast<safe_numerics_error>(c)));' % (C, e), f)
    for U in others:
        if U == T:
            continue
        D = cxx(U)
        l, h = rng(U)
        # a value which the other type holds; what becomes of one that it does not hold is the business of the conversion of the types
        E('from_%s' % U, [('t', U)], 'checked_result<%s> c(t); checked_result<%s> d(c); vp_result = vpx_get(d);' % (D, C), lambda t: [R_('fits', [(t, lo, hi)], Val(t))])
        for e in (ALL if full else (1, 2, 4, 10)):
            E('from_%s_e%d' % (U, e), [], 'checked_result<%s> c(static_cast<safe_numerics_error>(%d), vpm); checked_result<%s> d(c); vp_result = vpx_get(d);' % (D, e, C), lambda e=e: [R_('error', [], Err(e))])
    return es


STDX = ('i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'll', 'ull')


def wits():
    o = []
    for T in STDX:
        R = 'checked_result<%s>' % cxx(T)
        o += [('def/' + T, '!std::is_default_constructible<%s>::value' % R), ('assign/' + T, '!std::is_copy_assignable<%s>::value && !std::is_move_assignable<%s>::value' % (R, R)),
              ('copy/' + T, 'std::is_copy_constructible<%s>::value && std::is_move_constructible<%s>::value' % (R, R))]
    return o


def main():
    r = Report('X02')
    full = TIER == 'thorough'
    ts = STDX
    others = {T: [U for i, U in enumerate(STDX) if full or (i + STDX.index(T)) % 2] for T in ts}
    jobs = [Job(T, entries(T, full, others[T]), extra=STREAM, externs=Ext(EXTERNS), keep=KEEP) for T in ts]
    r.absorb(run_jobs(jobs))
    # type level
    src = '#include <boost/safe_numerics/checked_result.hpp>\n#include <type_traits>\nusing namespace boost::safe_numerics;\n'
    for k, x in wits():
        y = run([CLANG, '-std=c++14', '-w'] + INC + ['-fsyntax-only', '-x', 'c++', '-'], input=src + 'static_assert(%s, "");\n' % x)
        r.entries.add(k)
        if y.returncode:
            r.violation('type/' + k, 'not so: ' + x, k)
        else:
            r.ok('type level facts')
    r.finish('construction, copy, conversion between types, make_checked_result, accessors and output of checked_result for ten types, all values and all error codes',
             ['the standard stream behaves as its model in /verif/checks/i01.py', 'clang 18 lowering, C++14'])


if __name__ == '__main__':
    main()
