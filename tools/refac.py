"""Development tool: behaviour-preserving edits of the library on which every check has to stay quiet.
usage: refac.py [variant...]   (runs all registered checks against a copy of the headers)"""
import json, os, re, shutil, subprocess, sys, tempfile
H = 'include/boost/safe_numerics/'
V = {}


def v(name, *edits):
    V[name] = edits


CI = 'checked_integer.hpp'
v('builtin_add', (CI, '''                ((u > 0) && (t > (std::numeric_limits<R>::max() - u))) ?
                    F::template invoke<safe_numerics_error::positive_overflow_error>(
                        "addition result too large"
                    )
                :
                ((u < 0) && (t < (std::numeric_limits<R>::min() - u))) ?
                    F::template invoke<safe_numerics_error::negative_overflow_error>(
                        "addition result too low"
                    )
                :
                    checked_result<R>(t + u)
            ;
''', '''                too_large(t, u) ?
                    F::template invoke<safe_numerics_error::positive_overflow_error>(
                        "addition result too large"
                    )
                :
                too_low(t, u) ?
                    F::template invoke<safe_numerics_error::negative_overflow_error>(
                        "addition result too low"
                    )
                :
                    checked_result<R>(t + u)
            ;
'''), (CI, '''    struct add_impl_detail {
''', '''    struct add_impl_detail {
        constexpr static bool too_large(const R t, const R u){
            R r = 0;
            return __builtin_add_overflow(t, u, &r) && u > 0;
        }
        constexpr static bool too_low(const R t, const R u){
            R r = 0;
            if(! __builtin_add_overflow(t, u, &r))
                return false;
            return u < 0;
        }
'''), (CI, '''                std::numeric_limits<R>::max() - u < t ?
''', '''                static_cast<R>(t + u) < t ?
'''), (CI, '''                t < u ?
                    F::template invoke<safe_numerics_error::negative_overflow_error>(
                        "subtraction result cannot be negative"
                    )
                :
                    checked_result<R>(t - u)
''', '''                t >= u ?
                    checked_result<R>(t - u)
                :
                    F::template invoke<safe_numerics_error::negative_overflow_error>(
                        "subtraction result cannot be negative"
                    )
'''))
v('mul_if', (CI, '''            return t > 0 ?
                u > 0 ?
                    t > std::numeric_limits<R>::max() / u ?
                        F::template invoke<safe_numerics_error::positive_overflow_error>(
                            "multiplication overflow"
                        )
                    :
                        checked_result<R>(t * u)
                : // u <= 0
                    u < std::numeric_limits<R>::min() / t ?
                        F::template invoke<safe_numerics_error::negative_overflow_error>(
                            "multiplication overflow"
                        )
                    :
                        checked_result<R>(t * u)
            : // t <= 0
                u > 0 ?
                    t < std::numeric_limits<R>::min() / u ?
                        F::template invoke<safe_numerics_error::negative_overflow_error>(
                            "multiplication overflow"
                        )
                    :
                        checked_result<R>(t * u)
                : // u <= 0
                    t != 0 && u < std::numeric_limits<R>::max() / t ?
                        F::template invoke<safe_numerics_error::positive_overflow_error>(
                            "multiplication overflow"
                        )
                    :
                        checked_result<R>(t * u)
            ;
''', '''            R r = 0;
            if(! __builtin_mul_overflow(t, u, &r))
                return checked_result<R>(r);
            const bool negative = (t < 0) != (u < 0);
            if(negative)
                return F::template invoke<safe_numerics_error::negative_overflow_error>(
                    "multiplication overflow"
                );
            return F::template invoke<safe_numerics_error::positive_overflow_error>(
                "multiplication overflow"
            );
'''))
v('mul_if2', (CI, '''            return t > 0 ?
                u > 0 ?
                    t > std::numeric_limits<R>::max() / u ?
                        F::template invoke<safe_numerics_error::positive_overflow_error>(
                            "multiplication overflow"
                        )
                    :
                        checked_result<R>(t * u)
                : // u <= 0
                    u < std::numeric_limits<R>::min() / t ?
                        F::template invoke<safe_numerics_error::negative_overflow_error>(
                            "multiplication overflow"
                        )
                    :
                        checked_result<R>(t * u)
            : // t <= 0
                u > 0 ?
                    t < std::numeric_limits<R>::min() / u ?
                        F::template invoke<safe_numerics_error::negative_overflow_error>(
                            "multiplication overflow"
                        )
                    :
                        checked_result<R>(t * u)
                : // u <= 0
                    t != 0 && u < std::numeric_limits<R>::max() / t ?
                        F::template invoke<safe_numerics_error::positive_overflow_error>(
                            "multiplication overflow"
                        )
                    :
                        checked_result<R>(t * u)
            ;
''', '''            constexpr const R hi = std::numeric_limits<R>::max();
            constexpr const R lo = std::numeric_limits<R>::min();
            if(t == 0 || u == 0)
                return checked_result<R>(0);
            if(t > 0 && u > 0){
                if(hi / t < u)
                    return F::template invoke<safe_numerics_error::positive_overflow_error>(
                        "multiplication overflow"
                    );
            }
            else
            if(t < 0 && u < 0){
                if(hi / u > t)
                    return F::template invoke<safe_numerics_error::positive_overflow_error>(
                        "multiplication overflow"
                    );
            }
            else{
                const R & p = t > 0 ? t : u;
                const R & n = t > 0 ? u : t;
                if(lo / p > n)
                    return F::template invoke<safe_numerics_error::negative_overflow_error>(
                        "multiplication overflow"
                    );
            }
            return checked_result<R>(t * u);
'''), (CI, '''                static_cast<i_type>(t) * static_cast<i_type>(u)
                > std::numeric_limits<R>::max() ?
''', '''                exceeds(static_cast<i_type>(t) * static_cast<i_type>(u)) ?
'''), (CI, '''    struct multiply_impl_detail {
''', '''    struct multiply_impl_detail {
        constexpr static bool exceeds(const std::uintmax_t & product){
            return std::numeric_limits<R>::max() < product;
        }
'''), (CI, '''                u > 0 && t > std::numeric_limits<R>::max() / u ?
''', '''                u != 0 && std::numeric_limits<R>::max() / u < t ?
'''))
v('mul_i128', (CI, '''            using i_type = std::intmax_t;
            return
                (
''', '''            using i_type = std::conditional_t<sizeof(R) < 2, int, std::int64_t>;
            return
                (
'''), (CI, '''            // INT30-C
            return
                u > 0 && t > std::numeric_limits<R>::max() / u ?
''', '''            // INT30-C
            return
                static_cast<unsigned __int128>(t) * u > std::numeric_limits<R>::max() ?
'''))
v('cast_helper', (CI, '''        constexpr static checked_result<R>
        cast_impl(
            const T & t,
            std::true_type, // R is signed
            std::true_type  // T is signed
        ){
            // INT32-C Ensure that operations on signed
            // integers do not overflow
            return
            boost::safe_numerics::safe_compare::greater_than(t, Max) ?
                F::template invoke<safe_numerics_error::positive_overflow_error>(
                    "converted signed value too large"
                )
            : boost::safe_numerics::safe_compare::less_than(t, Min) ?
                F::template invoke<safe_numerics_error::negative_overflow_error>(
                    "converted signed value too small"
                )
            :
                checked_result<R>(static_cast<R>(t))
            ;
        }
''', '''        constexpr static bool above(const T & t){
            return boost::safe_numerics::safe_compare::greater_than(t, Max);
        }
        constexpr static bool below(const T & t){
            return ! boost::safe_numerics::safe_compare::greater_than_equal(t, Min);
        }
        constexpr static checked_result<R>
        cast_impl(
            const T & t,
            std::true_type, // R is signed
            std::true_type  // T is signed
        ){
            if(below(t))
                return F::template invoke<safe_numerics_error::negative_overflow_error>(
                    "converted signed value too small"
                );
            if(! above(t))
                return checked_result<R>(static_cast<R>(t));
            return F::template invoke<safe_numerics_error::positive_overflow_error>(
                "converted signed value too large"
            );
        }
'''))
v('sub_div', (CI, '''                ((u > 0) && (t < (std::numeric_limits<R>::min() + u))) ?
                    F::template invoke<safe_numerics_error::negative_overflow_error>(
                        "subtraction result overflows result type"
                    )
                :
                ((u < 0) && (t > (std::numeric_limits<R>::max() + u))) ?
''', '''                ((u >= 0) && (std::numeric_limits<R>::min() + u > t)) ?
                    F::template invoke<safe_numerics_error::negative_overflow_error>(
                        "subtraction result overflows result type"
                    )
                :
                ((0 > u) && (std::numeric_limits<R>::max() + u < t)) ?
'''), (CI, '''            if(u >= 0)
                return t % u;
            checked_result<R> ux = checked::minus(u);
            if(ux.exception())
                // u is the most negative value of R, so |t| <= |u|
                return t == u ? checked_result<R>(0) : checked_result<R>(t);
            return t % static_cast<R>(ux);
''', '''            // avoid the overflow of min / -1
            return -1 == u ? checked_result<R>(0) : checked_result<R>(t % u);
'''), (CI, '''        if(u == 0){
            return F::template invoke<safe_numerics_error::domain_error>(
                "divide by zero"
            );
        }
        return divide_impl_detail::divide(t, u, std::is_signed<R>());
''', '''        return u != 0 ?
            divide_impl_detail::divide(t, u, std::is_signed<R>())
        :
            F::template invoke<safe_numerics_error::domain_error>(
                "divide by zero"
            )
        ;
'''))
v('shift_max', (CI, '''                if(
                    safe_compare::greater_than(
                        u,
                        std::numeric_limits<R>::digits - utility::significant_bits(t)
                    )
                ){
                    // behavior is undefined
                    return F::template invoke<safe_numerics_error::shift_too_large>(
                       "shifting left more bits than available"
                    );
                }
                else{
                    return t << u;
                }
''', '''                const unsigned int room = std::numeric_limits<R>::digits - utility::significant_bits(t);
                if(safe_compare::less_than_equal(u, room))
                    return t << u;
                // behavior is undefined
                return F::template invoke<safe_numerics_error::shift_too_large>(
                    "shifting left more bits than available"
                );
'''))
UT = 'utility.hpp'
v('ilog_loop', (UT, '''    if(t == 0)
        return 0;
    return ilog2_detail::ilog2<bits_type<T>::value>(
        static_cast<
            typename boost::uint_t<
                bits_type<T>::value
            >::least
        >(t)
    );
''', '''    unsigned int r = 0;
    for(T x = t; x > 1; x /= 2)
        ++r;
    return r;
'''))
v('ilog_half', (UT, '''        const half_type upper_half = static_cast<half_type>(t >> N/2);
        const half_type lower_half = static_cast<half_type>(t);
        return upper_half == 0 ? ilog2<N/2>(lower_half) : N/2 + ilog2<N/2>(upper_half);
''', '''        const half_type upper_half = static_cast<half_type>(t >> (N / 2));
        if(upper_half != 0)
            return ilog2<N/2>(upper_half) + N/2;
        return ilog2<N/2>(static_cast<half_type>(t));
'''), (UT, '''    return 1 + ((t < 0) ? ilog2(~t) : ilog2(t));
''', '''    const bool negative = t < 0;
    const unsigned int l = negative ? ilog2(~t) : ilog2(t);
    return l + 1;
'''))
v('round_out', (UT, '''    if(t >= 0){
        const std::uint8_t sb = utility::significant_bits(t);
        return (sb < sizeof(T) * 8)
            ? ((T)1 << sb) - 1
            : std::numeric_limits<T>::max();
    }
    else{
        const std::uint8_t sb = utility::significant_bits(~t);
        return (sb < sizeof(T) * 8)
            ? ~(((T)1 << sb) - 1)
            : std::numeric_limits<T>::min();
    }
''', '''    const T a = t < 0 ? ~t : t;
    const unsigned int sb = utility::significant_bits(a);
    const T m = sb < static_cast<unsigned int>(bits_type<T>::value)
        ? static_cast<T>(((T)1 << sb) - 1)
        : std::numeric_limits<T>::max();
    return t < 0 ? static_cast<T>(~m) : m;
'''), (UT, '''    for(const T * i = l.begin(); i != l.end(); ++i){
        if(*i < * minimum)
            minimum = i;
        else
        if(* maximum < *i)
            maximum = i;
    }
''', '''    const T * i = l.begin();
    while(++i != l.end()){
        if(* maximum < *i)
            maximum = i;
        if(*i < * minimum)
            minimum = i;
    }
'''))
IV = 'interval.hpp'
v('interval', (IV, '''        return u >= t.u && l <= t.l;
''', '''        return l <= t.l && t.u <= u;
'''), (IV, '''        return t.u < l || u < t.l;
''', '''        const tribool above = u < t.l;
        const tribool below = l > t.u;
        return above || below;
'''), (IV, '''    return utility::minmax<T>(
        std::initializer_list<T> {
            t.l * u.l,
            t.l * u.u,
            t.u * u.l,
            t.u * u.u
        }
    );
''', '''    const T a = t.l * u.l;
    const T b = t.l * u.u;
    const T c = t.u * u.l;
    const T d = t.u * u.u;
    return utility::minmax<T>(std::initializer_list<T> {d, c, b, a});
'''), (IV, '''    return ! (t < u);
''', '''    return u <= t;
'''), (IV, '''    return t.l == u.l && t.u == u.u;
''', '''    return t.u == u.u && u.l == t.l;
'''))
SC = 'safe_compare.hpp'
v('compare', (SC, '''            return
                (u < 0) ?
                    false
                :
                    less_than<false, false>::invoke(
                        t,
                        static_cast<const typename make_unsigned<U>::type &>(u)
                    )
                ;
''', '''            return u > 0 && t < static_cast<typename make_unsigned<U>::type>(u);
'''), (SC, '''            return
                (t < 0) ?
                    true
                :
                    less_than<false, false>::invoke(
                        static_cast<const typename make_unsigned<T>::type &>(t),
                        u
                    )
                ;
''', '''            if(t < 0)
                return true;
            const typename make_unsigned<T>::type tx = static_cast<typename make_unsigned<T>::type>(t);
            return tx < u;
'''), (SC, '''            return
                (u < 0) ?
                    false
                :
                    equal<false, false>::invoke(
                        t,
                        static_cast<const typename make_unsigned<U>::type &>(u)
                    )
                ;
''', '''            return u >= 0 && t == static_cast<typename make_unsigned<U>::type>(u);
'''))
v('compare2', (SC, '''    return ! greater_than(lhs, rhs);
''', '''    return ! less_than(rhs, lhs);
'''), (SC, '''    return ! less_than(lhs, rhs);
''', '''    return less_than_equal(rhs, lhs);
'''))
EX = 'exception_policies.hpp'
v('action_if', (EX, '''    case safe_numerics_error::uninitialized_value:
        return safe_numerics_actions::uninitialized_value;

    case safe_numerics_error::success:
        return safe_numerics_actions::no_action;
    default:
        assert(false);
    }
''', '''    case safe_numerics_error::success:
        break;

    case safe_numerics_error::uninitialized_value:
        return safe_numerics_actions::uninitialized_value;
    default:
        assert(false);
    }
'''), (EX, '''        throw std::system_error(std::error_code(e), message);
''', '''        const std::error_code ec = make_error_code(e);
        throw std::system_error(ec, message);
'''))


def main():
    ids = [c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']]
    names = sys.argv[1:] or list(V)
    only = os.environ.get('CHECKS')
    if only:
        ids = only.split(',')
    for n in names:
        d = tempfile.mkdtemp(prefix='refac-', dir='/tmp')
        try:
            shutil.copytree('/repo/include', d + '/include', symlinks=True)
            for f, old, new in V[n]:
                p = os.path.join(d, H, f)
                s = open(p).read()
                nth = 0
                if isinstance(old, tuple):
                    old, nth = old
                elif s.count(old) != 1:
                    raise SystemExit('%s: %d matches of %r' % (n, s.count(old), old[:80]))
                i = -1
                for _ in range(nth + 1):
                    i = s.index(old, i + 1)
                open(p, 'w').write(s[:i] + new + s[i + len(old):])
            if os.path.exists('/tmp/smoke.cpp'):
                x = subprocess.run(['clang++', '-std=c++14', '-fsyntax-only', '-I' + d + '/include', '-I/opt/vp/guard', '/tmp/smoke.cpp'], stderr=subprocess.PIPE, text=True)
                if x.returncode:
                    print(n, 'DOES NOT COMPILE', re.findall('error: .*', x.stderr)[:2])
                    continue
            env = dict(os.environ, VP_REPO=d, VP_EVID=d + '/ev', VERIF_SEED='1', VERIF_TIER='quick')
            os.makedirs(d + '/ev')
            bad = []
            for c in ids:
                x = subprocess.run(['python3', '/verif/check.py', c, 'quick'], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                last = [l for l in x.stdout.splitlines() if ' obligations' in l]
                und = re.search(r'(\d+) undecided', last[-1]).group(1) if last else '?'
                if x.returncode or und != '0':
                    bad.append('%s rc=%d und=%s' % (c, x.returncode, und))
                    open('/tmp/refac_%s_%s.log' % (n, c), 'w').write(x.stdout)
            print(n, 'quiet' if not bad else bad, flush=True)
        finally:
            shutil.rmtree(d)


main()
