"""I01: stream input stores the value read or reports an error and leaves the variable alone; stream output writes the number."""
from ops import *
from m01 import wrap

EPX = 'VEP'
# a model of a formatted input stream in place of the standard one: what extraction does is given by the parameters of the wrapper
STREAM = r'''
#include <istream>
#include <ostream>
#include <cwchar>
struct vpc { char c; };
struct vpt { using char_type = vpc; using int_type = int; using off_type = long; using pos_type = long; using state_type = int;
  static constexpr int eof(){ return -1; } static constexpr bool eq_int_type(int a, int b){ return a == b; } static constexpr int to_int_type(vpc c){ return c.c; }
  static constexpr vpc to_char_type(int c){ return vpc{(char)c}; } static constexpr int not_eof(int c){ return c; } static constexpr bool eq(vpc a, vpc b){ return a.c == b.c; } };
static bool vps_fail;        // the state of the stream
static bool vps_blank;       // blanks come first
static bool vps_number;      // a number follows in the input
static __int128 vps_value;   // its value
static int vps_first;        // the first character, if it is not a number
namespace std {
template<> class basic_istream<vpc, vpt> {
public:
    using char_type = vpc; using traits_type = vpt; using int_type = int;
    template<class X> basic_istream & vps_read(X & x){
        if(vps_fail) return *this;                         // sentry fails: x is not changed
        vps_blank = false;
        if(! vps_number){ x = 0; vps_fail = true; return *this; }
        if(vps_value < 0 && ! is_signed<X>::value){        // what the standard library does with "-1"
            if(-vps_value > (__int128)numeric_limits<X>::max()){ x = numeric_limits<X>::max(); vps_fail = true; }
            else x = static_cast<X>(vps_value);
            return *this;
        }
        if(vps_value < (__int128)numeric_limits<X>::min()){ x = numeric_limits<X>::min(); vps_fail = true; }
        else if(vps_value > (__int128)numeric_limits<X>::max()){ x = numeric_limits<X>::max(); vps_fail = true; }
        else x = static_cast<X>(vps_value);
        return *this;
    }
    basic_istream & operator>>(short & x){ return vps_read(x); }
    basic_istream & operator>>(unsigned short & x){ return vps_read(x); }
    basic_istream & operator>>(int & x){ return vps_read(x); }
    basic_istream & operator>>(unsigned int & x){ return vps_read(x); }
    basic_istream & operator>>(long & x){ return vps_read(x); }
    basic_istream & operator>>(unsigned long & x){ return vps_read(x); }
    basic_istream & operator>>(long long & x){ return vps_read(x); }
    basic_istream & operator>>(unsigned long long & x){ return vps_read(x); }
    basic_istream & operator>>(basic_istream & (* f)(basic_istream &)){ return f(*this); }      // ws
    basic_istream & operator>>(basic_ios<vpc, vpt> & (*)(basic_ios<vpc, vpt> &)){ return *this; }
    basic_istream & operator>>(ios_base & (*)(ios_base &)){ return *this; }
    basic_istream & operator>>(basic_streambuf<vpc, vpt> *){ return *this; }
    bool fail() const { return vps_fail; }
    bool bad() const { return false; }
    bool good() const { return ! vps_fail; }
    bool eof() const { return false; }
    bool operator!() const { return vps_fail; }
    explicit operator bool() const { return ! vps_fail; }
    int peek() const { return vps_fail ? -1 : vps_blank ? ' ' : vps_number ? (vps_value < 0 ? '-' : '0') : vps_first; }
    void setstate(ios_base::iostate s){ if(s & (ios_base::failbit | ios_base::badbit)) vps_fail = true; }
    void clear(ios_base::iostate s = ios_base::goodbit){ vps_fail = (s & (ios_base::failbit | ios_base::badbit)) != 0; }
    ios_base::iostate rdstate() const { return vps_fail ? ios_base::failbit : ios_base::goodbit; }
};
// reading a narrow character is not reading a number
inline basic_istream<vpc, vpt> & operator>>(basic_istream<vpc, vpt> & s, char & c){ vp_out(2); }
inline basic_istream<vpc, vpt> & operator>>(basic_istream<vpc, vpt> & s, signed char & c){ vp_out(2); }
inline basic_istream<vpc, vpt> & operator>>(basic_istream<vpc, vpt> & s, unsigned char & c){ vp_out(2); }
inline basic_istream<vpc, vpt> & operator>>(basic_istream<vpc, vpt> & s, wchar_t & c){ vp_out(2); }
template<> inline basic_istream<vpc, vpt> & ws<vpc, vpt>(basic_istream<vpc, vpt> & s){ vps_blank = false; return s; }
template<> class basic_ostream<vpc, vpt> {
public:
    using char_type = vpc; using traits_type = vpt;
    template<class X> basic_ostream & vps_write(X x){ vp_result = x; return *this; }
    basic_ostream & operator<<(basic_ostream & (*)(basic_ostream &)){ return *this; }
    basic_ostream & operator<<(basic_ios<vpc, vpt> & (*)(basic_ios<vpc, vpt> &)){ return *this; }
    basic_ostream & operator<<(ios_base & (*)(ios_base &)){ return *this; }
    basic_ostream & operator<<(basic_streambuf<vpc, vpt> *){ return *this; }
    basic_ostream & operator<<(bool x){ return vps_write(x); }
    basic_ostream & operator<<(short x){ return vps_write(x); }
    basic_ostream & operator<<(unsigned short x){ return vps_write(x); }
    basic_ostream & operator<<(int x){ return vps_write(x); }
    basic_ostream & operator<<(unsigned int x){ return vps_write(x); }
    basic_ostream & operator<<(long x){ return vps_write(x); }
    basic_ostream & operator<<(unsigned long x){ return vps_write(x); }
    basic_ostream & operator<<(long long x){ return vps_write(x); }
    basic_ostream & operator<<(unsigned long long x){ return vps_write(x); }
};
inline basic_ostream<vpc, vpt> & operator<<(basic_ostream<vpc, vpt> & s, char){ vp_out(3); }
inline basic_ostream<vpc, vpt> & operator<<(basic_ostream<vpc, vpt> & s, signed char){ vp_out(3); }
inline basic_ostream<vpc, vpt> & operator<<(basic_ostream<vpc, vpt> & s, unsigned char){ vp_out(3); }
inline basic_ostream<vpc, vpt> & operator<<(basic_ostream<vpc, vpt> & s, wchar_t){ vp_out(3); }
}
union vps_storage { char c; std::basic_istream<vpc, vpt> i; std::basic_ostream<vpc, vpt> o; constexpr vps_storage() : c(0) {} ~vps_storage(){} };
static vps_storage vps;
'''


def init(a):
    return 'static %s g(%s);' % (a.ty, num(a.lo) if signed(a.pty) or a.lo > 2**63 - 1 else '%dUL' % a.lo)


def reads(a):
    """input entries for one type"""
    es = []
    VT = 'u64' if a.hi > 2**63 - 1 else 'i64'
    pre = 'g = %s; ' % a.make('t')
    run_ = 'vps.i >> g; vp_result = base_value(g);'
    bad = lambda x: HndKeep({0}, x)
    n = 'n_in_%s' % a.key
    for vt, sfx in ((VT, ''), ('i64', 'neg'))[:2 if VT == 'u64' else 1]:
        code = wrap(n + sfx, init(a), [(cxx(a.pty), 't'), (cxx(vt), 'v')],
                    pre + 'vps_blank = vps_fail = false; vps_number = true; vps_value = v; ' + run_)
        codeb = wrap(n + sfx + 'blank', init(a), [(cxx(a.pty), 't'), (cxx(vt), 'v')],
                     pre + 'vps_blank = true; vps_fail = false; vps_number = true; vps_value = v; ' + run_)

        def regs(x, v):
            return range_regions(v, a.lo, a.hi, Val(v), bad(x), bad(x))
        es.append(Entry(n + sfx, [('t', a.param), ('v', vt)], code, regs))
        es.append(Entry(n + sfx + 'blank', [('t', a.param), ('v', vt)], codeb, regs))
    code = wrap(n + 'bad', init(a), [(cxx(a.pty), 't'), ('int', 'c')], pre + 'vps_fail = false; vps_number = false; vps_first = c; ' + run_)
    es.append(Entry(n + 'bad', [('t', a.param), ('c', 'i32')], code, lambda x, c: [R_('not a number', [], bad(x))]))
    code = wrap(n + 'fail', init(a), [(cxx(a.pty), 't'), ('long', 'v')], pre + 'vps_fail = true; vps_number = true; vps_value = v; ' + run_)
    es.append(Entry(n + 'fail', [('t', a.param), ('v', 'i64')], code, lambda x, v: [R_('stream failed before', [], bad(x))]))
    return es


def writes(a):
    n = 'n_out_%s' % a.key
    code = 'extern "C++" { static inline void b_%s(%s t){ vps.o << %s; } } void %s(%s t){ b_%s(t); }' % (n, cxx(a.pty), a.make('t').replace('VEP', 'EP'), n, cxx(a.pty), n)
    return Entry(n, [('t', a.param)], code, lambda x: [R_('all', [], Val(x))])


def main():
    r = Report('I01')
    full = TIER == 'thorough'
    rnd = random.Random(SEED)
    RG = [(0, 100, 1), (-100, 100, 1), (1, 10, 1), (-10, -1, 1), (-40000, 40000, 1), (300, 5000, 1), (0, 100, 0), (3, 7, 0), (1, 65535, 0), (1000, 70000, 0), (0, 2**63 - 1, 1), (5, 2**64 - 2, 0)]
    if full:
        import a04
        RG += [a04.rand_range(rnd) for _ in range(40)]
    jobs = []
    ops = []
    for P in ('native',) + (('automatic',) if full else ()):
        ops += [safe(t, P, EPX) for t in STD8 + ['ll', 'ull']] + [srange(l, h, s, P, EPX) for l, h, s in RG]
    seen = set()
    for a in ops:
        k = a.key + ('a' if 'automatic' in a.ty else '')
        if k in seen:
            continue
        seen.add(k)
        jobs.append(Job(k, reads(a) + [writes(a)], extra=STREAM))
    lits = [(5, 1), (-7, 1), (200, 0), (2**31, 1), (2**64 - 1, 0), (65, 1), (65, 0)]
    es = []
    for v, s in lits:
        n = 'n_lit_%s' % num(v).replace('-', 'm').strip('()ULul')
        n = 'n_lit_%d%s' % (abs(v), ('m' if v < 0 else '') + ('s' if s else 'u'))
        es.append(Entry(n, [], 'extern "C++" { static inline void b_%s(){ vps.o << %s(); } } void %s(){ b_%s(); }' % (n, literal(v, s).ty, n, n), lambda v=v: [R_('all', [], Val(v))]))
    jobs.append(Job('lit', es, extra=STREAM))
    r.absorb(run_jobs(jobs))
    r.finish('operator>> and operator<< of safe types and ranges (and << of literals) on a model stream: any value read, no number, or a stream that failed before',
             ['the standard stream behaves as its model in /verif/checks/i01.py (C++11 num_get rules)', 'LP64 data model, clang 18 lowering, C++14'])
