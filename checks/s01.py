"""S01: every public header can be used on its own, in any order and in any number of translation units."""
import glob
import itertools
from tl import *
from tl import _firsterr

# what a user may include; concept/ headers are included by them
EXCLUDED = {'checked_float.hpp': 'not part of the documented interface and for no type complete (see DESIGN.md)'}
USE = r'''
#include <boost/safe_numerics/safe_integer.hpp>
#include <boost/safe_numerics/safe_integer_range.hpp>
#include <boost/safe_numerics/safe_integer_literal.hpp>
#include <boost/safe_numerics/automatic.hpp>
#include <boost/safe_numerics/cpp.hpp>
#include <boost/safe_numerics/checked_result_operations.hpp>
#include <boost/safe_numerics/range_value.hpp>
#include <sstream>
using namespace boost::safe_numerics;
template<class A, class B> void vp_all(A a, B b, std::ostream & o, std::istream & i){
    A r(a); r = a + b; r = a - b; r = a * b; r = a / b; r = a % b; r = a << b; r = a >> b; r = a & b; r = a | b; r = a ^ b;
    r += b; r -= b; r *= b; r /= b; r %= b; ++r; --r; r++; r--; bool t = a < b || a > b || a <= b || a >= b || a == b || a != b; (void)t;
    o << r << -r << +r; i >> r; int x = static_cast<int>(r); (void)x;
}
void vp_use(int a, std::ostream & o, std::istream & i){
    vp_all(safe<int>(a), safe<int>(a), o, i); vp_all(safe<long, automatic>(a), safe<short, automatic>(a), o, i);
    vp_all(safe<short, cpp<8,16,32,64,64>>(a), a, o, i); vp_all(safe_signed_range<-5, 5>(a), safe<unsigned char>(a), o, i);
    checked_result<int> c(a), d(safe_numerics_error::domain_error, "x");
    bool q = indeterminate(c < d); o << q << c + d << c * d << (c << d) << make_interval<int>() << make_range_value(safe<int>(a));
    std::error_code e = make_error_code(safe_numerics_error::range_error); o << e.message() << literal_string(safe_numerics_error::success);
}
'''


def _one(a):
    key, src, cc, std = a[:4]
    x = run([CLANG if cc == 'clang' else GXX, '-std=' + std, '-w'] + list(a[4:]) + INC + ['-fsyntax-only', '-x', 'c++', '-'], input=src)
    return key, cc, std, x.returncode == 0, _firsterr(x.stderr)


def _syms(a):
    """(name, why) of everything in one translation unit that a second one would define again, or that it could change"""
    key, src, std = a
    d = scratch()
    try:
        p = os.path.join(d, 'a.cpp')
        open(p, 'w').write(src)
        x = run([CLANG, '-std=' + std, '-w', '-O0', '-Xclang', '-disable-O0-optnone'] + INC + ['-S', '-emit-llvm', '-o', '-', p])
        if x.returncode:
            return key, None, _firsterr(x.stderr)
        bad = []
        n = 0
        for l in x.stdout.splitlines():
            m = re.match(r'define (.*?)@("[^"]+"|[\w.$]+)\(', l)
            if m:
                n += 1
                nm = m.group(2).strip('"')
                if not re.search(r'\b(linkonce_odr|weak_odr|internal|available_externally)\b', m.group(1)) and 'vp_use' not in nm:
                    bad.append((nm, 'function with a strong definition: two translation units do not link'))
                continue
            m = re.match(r'@("[^"]+"|[\w.$]+) = (.*)', l)
            if m and not re.match(r'(external|available_externally)', m.group(2)):
                n += 1
                nm = m.group(1).strip('"')
                lk = m.group(2)
                if nm.startswith('llvm.') or '.str' in nm:
                    continue
                if not re.search(r'\b(linkonce_odr|weak_odr|internal|private|comdat)\b', lk):
                    bad.append((nm, 'variable with a strong definition: two translation units do not link'))
        return key, bad, n
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    r = Report('S01')
    full = TIER == 'thorough'
    base = os.path.join(REPO, 'include', 'boost', 'safe_numerics')
    hs = sorted(os.path.relpath(h, base) for h in glob.glob(base + '/**/*.hpp', recursive=True))
    hs = [h for h in hs if h not in EXCLUDED]
    inc = lambda h: '#include <boost/safe_numerics/%s>\n' % h
    jobs = []
    stds = ('c++14', 'c++17', 'c++20') + (('c++2b',) if full else ())
    for h in hs:
        for cc in ('clang', 'g++'):
            for s in stds:
                jobs.append(('alone/' + h, inc(h) + inc(h), cc, s))
    # dialects: without exceptions, without run-time type information, without assertions, strictly conforming, signedness of char
    DIAL = (('-fno-exceptions',), ('-fno-rtti',), ('-fno-exceptions', '-fno-rtti', '-DNDEBUG'), ('-pedantic-errors',), ('-DNDEBUG',), ('-funsigned-char',), ('-ftrapv',))
    for fl in DIAL:
        for cc in ('clang', 'g++'):
            for s in stds:
                jobs.append(('dialect/%s/use' % ' '.join(fl), USE, cc, s) + fl)
                if s == 'c++14' or full:
                    for h in hs:
                        jobs.append(('dialect/%s/%s' % (' '.join(fl), h), inc(h), cc, s) + fl)
    n = 0
    for a, b in itertools.permutations(hs, 2):
        if full or (hs.index(a) * 7 + hs.index(b) * 3) % 4 == 0:
            jobs.append(('order/%s,%s' % (a, b), inc(a) + inc(b), 'clang', 'c++14'))
            n += 1
    rnd = random.Random(SEED)
    for i in range(60 if full else 10):
        o = list(hs)
        rnd.shuffle(o)
        jobs.append(('shuffle/%d %s' % (i, ','.join(o[:3])), ''.join(map(inc, o)) + USE, ('clang', 'g++')[i % 2], 'c++14'))
    ctx = mp.get_context('fork')
    with ctx.Pool(8) as p:
        for key, cc, std, ok, msg in p.imap_unordered(_one, jobs, chunksize=2):
            if ok:
                r.ok('%s (%s)' % ('compiles alone and twice' if key.startswith('alone') else 'compiles in this dialect' if key.startswith('dialect') else 'compiles in this order', cc))
            else:
                r.violation(key, 'rejected by %s -std=%s: %s' % (cc, std, msg), key.split('/', 1)[1])
        units = [('unit/' + h, inc(h), s) for h in hs for s in ('c++14', 'c++17')] + [('unit/use', USE, s) for s in stds]
        for key, bad, x in p.imap_unordered(_syms, units):
            if bad is None:
                r.violation(key, 'does not compile: ' + x, key.split('/', 1)[1])
                continue
            for nm, why in bad:
                r.violation(key + '/' + nm, '%s: %s' % (nm, why), key.split('/', 1)[1])
            r.ok('definition may be repeated in other translation units', x)
    r.entries |= {j[0] for j in jobs}
    r.extra['headers'] = hs
    r.extra['excluded'] = EXCLUDED
    r.extra['trusted_base'] = ['clang 18 and g++ 13 front ends', 'linkage as written in the IR of clang']
    r.finish('%d headers alone and included twice, %d ordered pairs, shuffled inclusion of all, under two compilers and %d language standards; alone in seven dialects (no exceptions, no RTTI, ...); linkage of every '
             'definition of each header and of a unit that uses all operations' % (len(hs), n, len(stds)), ['the C and C++ standard library of this machine'])


if __name__ == '__main__':
    main()
