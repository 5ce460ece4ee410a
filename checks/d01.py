"""D01: effect analysis: library operations have no effect besides their operands and the policy handler."""
from tl import *
from ops import SYM, safe, srange, literal, builtin
import subprocess

ALLOWED = re.compile(r'^(llvm\.|memcpy$|memset$|memmove$|vp_note$|vp_sink|__cxa_guard_(acquire|release|abort)$|_ZNSt3_V214error_category|_ZNKSt3_V214error_category|_ZTVN10__cxxabiv|__assert_fail$)')
THROWING = re.compile(r'^(__cxa_throw|__cxa_rethrow|__cxa_allocate_exception|_ZSt\d+__throw|_Znwm|_Znam|_ZSt9terminatev|__clang_call_terminate)')


class Fn:
    __slots__ = ('name', 'calls', 'stores', 'nounwind', 'where', 'linkage', 'atomic')

    def __init__(self, name):
        self.name, self.calls, self.stores, self.nounwind, self.where, self.atomic = name, [], [], False, '', []


NAME = r'(?:"[^"]+"|[\w.$]+)'


def parse(text):
    """functions: calls, stores with the global their address is rooted in; globals that are not constant"""
    fns, globs = {}, {}
    cur = None
    deriv = {}
    attrs = {}
    for m in re.finditer(r'^attributes #(\d+) = \{(.*)\}', text, re.M):
        attrs[m.group(1)] = m.group(2)
    for line in text.splitlines():
        if line.startswith('@'):
            m = re.match(r'^@(%s) = (.*)' % NAME, line)
            rest = m.group(2)
            kind = re.search(r'\b(global|constant|alias)\b', rest)
            ext = re.match(r'(external|extern_weak)\b', rest)
            globs[m.group(1).strip('"')] = (kind.group(1) if kind else '?', bool(ext), 'thread_local' in rest, rest)
        elif line.startswith('define'):
            m = re.search(r'@(%s)\(' % NAME, line)
            cur = Fn(m.group(1).strip('"'))
            a = re.search(r'#(\d+)', line)
            cur.nounwind = bool(a and 'nounwind' in attrs.get(a.group(1), ''))
            fns[cur.name] = cur
            deriv = {}
        elif line.startswith('}'):
            cur = None
        elif cur is not None:
            l = line.strip()
            m = re.match(r'(%%%s) = (?:getelementptr|bitcast|addrspacecast|select|phi)\b(.*)' % NAME, l)
            if m:
                roots = set(x.strip('"') for x in re.findall(r'@(%s)' % NAME, m.group(2)))
                for x in re.findall(r'%%%s' % NAME, m.group(2)):
                    roots |= deriv.get(x, set())
                deriv[m.group(1)] = roots
                continue
            m = re.match(r'store (?:volatile |atomic )*(.*)', l)
            if m:
                # the address is the last pointer operand
                i = m.group(1).rfind(', ptr ')
                adr = m.group(1)[i + 6:] if i >= 0 else m.group(1)
                roots = set(x.strip('"') for x in re.findall(r'@(%s)' % NAME, adr))
                for x in re.findall(r'%%%s' % NAME, adr.split(', align')[0].split(', !')[0]):
                    roots |= deriv.get(x, set())
                if roots:
                    cur.stores.append((roots, l[:120]))
                continue
            if re.search(r'\b(atomicrmw|cmpxchg)\b', l):
                roots = set(x.strip('"') for x in re.findall(r'@(%s)' % NAME, l))
                cur.stores.append((roots or {'?'}, l[:120]))
                continue
            m = re.match(r'(?:%%%s = )?(?:tail |musttail |notail )?(?:call|invoke) (.*)' % NAME, l)
            if m:
                c = re.search(r'(?:@(%s)|(%%%s))\(' % (NAME, NAME), m.group(1))
                args = m.group(1)[c.end():] if c else m.group(1)
                cur.calls.append((c.group(1).strip('"') if c and c.group(1) else None, set(x.strip('"') for x in re.findall(r'@(%s)' % NAME, args)), l[:120]))
    return fns, globs


def demangle(names):
    p = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
    return dict(zip(names, p.stdout.split('\n')))


def wrappers(full):
    """code that uses the library broadly, with handlers that return"""
    out, chk = [], []
    T = STD8
    X = [safe(t, P, 'EPN') for t in T for P in ('native', 'automatic')] + [srange(l, h, s, 'native', 'EPN') for l, h, s in ((-100, 100, 1), (0, 300, 0), (1, 10, 1))]
    rnd = random.Random(1)
    k = 0
    for a in X:
        mates = [b for b in X if ('automatic' in a.ty) == ('automatic' in b.ty)]
        for b in (mates if full else rnd.sample(mates, 4)) + [builtin(rnd.choice(T))]:
            for op, sym in SYM.items():
                out.append('void w%d(const %s & x, const %s & y){ vp_sink(base_value(x %s y)); }' % (k, a.ty, b.ty, sym))
                k += 1
            for o in ('<', '>=', '==', '!='):
                out.append('void w%d(const %s & x, const %s & y){ vp_sink(x %s y); }' % (k, a.ty, b.ty, o))
                k += 1
            out.append('void w%d(%s & x, const %s & y){ x = y; x += y; x -= y; x *= y; x /= y; x %%= y; x <<= y; x >>= y; x &= y; x |= y; x ^= y; }' % (k, a.ty, b.ty))
            k += 1
        out.append('void w%d(%s & x){ ++x; x--; x++; --x; vp_sink(base_value(-x)); vp_sink(base_value(~x)); vp_sink(base_value(+x)); }' % (k, a.ty))
        k += 1
        for t in T:
            out.append('void w%d(const %s & x){ vp_sink(static_cast<%s>(x)); }' % (k, a.ty, cxx(t)))
            out.append('void w%d(%s y){ %s x(y); vp_sink(base_value(x)); }' % (k + 1, cxx(t), a.ty))
            k += 2
    for t in T:
        R = cxx(t)
        for f in ('add', 'subtract', 'multiply', 'divide', 'modulus', 'left_shift', 'right_shift', 'bitwise_and', 'bitwise_or', 'bitwise_xor'):
            chk.append(('k%d' % k, 'checked::%s<%s>' % (f, R), 'void k%d(%s t, %s u, bool & r){ const auto x = checked::%s<%s>(t, u); r = x.exception(); }' % (k, R, R, f, R)))
            k += 1
        for f in ('minus', 'bitwise_not'):
            chk.append(('k%d' % k, 'checked::%s<%s>' % (f, R), 'void k%d(%s t, bool & r){ const auto x = checked::%s<%s>(t); r = x.exception(); }' % (k, R, f, R)))
            k += 1
        for u in T:
            chk.append(('k%d' % k, 'checked::cast<%s>(%s)' % (R, cxx(u)), 'void k%d(%s t, bool & r){ const auto x = checked::cast<%s>(t); r = x.exception(); }' % (k, cxx(u), R)))
            k += 1
            for f in ('less_than', 'equal', 'greater_than_equal'):
                chk.append(('k%d' % k, 'safe_compare::%s(%s, %s)' % (f, R, cxx(u)), 'void k%d(%s t, %s u, bool & r){ r = safe_compare::%s(t, u); }' % (k, R, cxx(u), f)))
                k += 1
        for op, sym in SYM.items():
            chk.append(('k%d' % k, 'checked_result<%s> %s' % (R, sym), 'void k%d(const checked_result<%s> & t, const checked_result<%s> & u, bool & r){ const auto x = t %s u; r = x.exception(); }' % (k, R, R, sym)))
            k += 1
    tab = ['void tab(int c, void (*p)(const char*, int)){ auto e = make_error_code((safe_numerics_error)c); auto s = e.message(); p(s.c_str(), e.default_error_condition().value()); p(e.category().name(), (int)make_safe_numerics_action((safe_numerics_error)c)); p(literal_string((safe_numerics_error)c), 0); }']
    pols = ('loose_exception_policy', 'strict_exception_policy', 'default_exception_policy')
    slots = ('on_arithmetic_error', 'on_implementation_defined_behavior', 'on_undefined_behavior', 'on_uninitialized_value')
    tab.append('void tab_h(int c, const char * m){ throw_exception()((safe_numerics_error)c, m); }')
    tab.append('void tab_i(int c, const char * m){ ignore_exception()((safe_numerics_error)c, m); }')
    for i, p in enumerate(pols):
        for j, s in enumerate(slots):
            tab.append('void tab_p%d%d(int c, const char * m){ %s::%s((safe_numerics_error)c, m); }' % (i, j, p, s))
        tab.append('void tab_o%d(safe<int, native, %s> & x, safe<unsigned char, native, %s> & y){ x = y; y = x; x += y; x /= y; x <<= y; y *= x; ++y; --x; vp_sink(x < y); }' % (i, p, p))
    # streams: the standard stream is outside, static data of the library is not
    io = ['int', 'unsigned char', 'long', 'unsigned long', 'signed char', 'short']
    tab.append('void tab_s(std::istream & i, std::ostream & o, %s){ %s }' % (', '.join('safe<%s> & x%d' % (t, k) for k, t in enumerate(io)), ' '.join('i >> x%d; o << x%d;' % (k, k) for k in range(len(io)))))
    tab.append('void tab_r(std::ostream & o, checked_result<int> & a, checked_result<unsigned char> & b, interval<int> & c){ o << a << b << c; }')
    return out, chk, tab


def main():
    r = Report('D01')
    r.extra['trusted_base'] = ['clang 18 front end (lowering of /repo headers to LLVM IR)', 'the call graph and store analysis in /verif/checks/d01.py']
    full = TIER == 'thorough'
    out, chk, tab = wrappers(full)
    d = scratch()
    try:
        n = 8
        srcs = []
        for i in range(n):
            srcs.append('#include <istream>\n#include <ostream>\n' + PRELUDE + 'extern "C" void vp_sink(__int128) noexcept;\nextern "C" {\n' + '\n'.join(out[i::n]) + '\n' + '\n'.join(c[2] for c in chk[i::n]) + '\n' + ('\n'.join(tab) if i == 0 else '') + '\n}\n')
        from concurrent.futures import ThreadPoolExecutor

        def comp(i):
            p = os.path.join(d, 't%d.cpp' % i)
            open(p, 'w').write(srcs[i])
            o = p[:-4] + '.ll'
            x = run([CLANG] + CXXFLAGS + INC + ['-S', '-emit-llvm', p, '-o', o])
            return open(o).read() if x.returncode == 0 else None, x.stderr
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(comp, range(n)))
    finally:
        shutil.rmtree(d)
    seenf, bad, edges, roots = set(), {}, 0, 0
    what = {c[0]: c[1] for c in chk}
    for i, (text, err) in enumerate(res):
        if text is None:
            r.errors.append(('unit %d' % i, _firsterr_(err)))
            continue
        fns, globs = parse(text)
        dm = demangle(sorted(fns))
        entry = [f for f in fns if re.match(r'^(w|k)\d+$|^tab(_\w+)?$', f)]
        # functions which initialise static objects: run once, under a guard or before main
        for e in entry:
            roots += 1
            stack, seen = [e], {e: None}
            while stack:
                f = stack.pop()
                F = fns[f]
                for rs, l in F.stores:
                    for g in rs:
                        if g.startswith('_ZGV') or g == 'vp_result':
                            continue
                        lib = 'boost::safe_numerics' in dm.get(f, '') or 'safe_numerics' in f
                        bad.setdefault(('store', f, g), (e, l))
                for c, ga, l in F.calls:
                    edges += 1
                    if c is None:
                        # indirect call: only through the error category vtables and the function passed in
                        if not e.startswith('tab'):
                            bad.setdefault(('indirect call', f, '?'), (e, l))
                        continue
                    if c == '__clang_call_terminate':
                        continue            # reached only if something below throws: see THROWING
                    if c in fns:
                        if c not in seen:
                            seen[c] = f
                            stack.append(c)
                        continue
                    if e.startswith('k') and (THROWING.match(c)):
                        bad.setdefault(('can throw or terminate', f, c), (e, l))
                    elif not ALLOWED.match(c) and not e.startswith('tab'):
                        bad.setdefault(('external call', f, c), (e, l))
                    elif c.startswith(('llvm.memcpy', 'llvm.memset', 'llvm.memmove', 'memcpy', 'memset')):
                        w = [g for g in ga if globs.get(g, ('constant',))[0] == 'global']
                        if w:
                            bad.setdefault(('store', f, w[0]), (e, l))
            seenf |= set(seen)
            r.ok('effect closure of ' + ('checked/compare primitives' if e[0] == 'k' else 'safe operations' if e[0] == 'w' else 'error tables, handlers and streams'))
        # namespace scope and static data of the library
        for g, (kind, ext, tls, rest) in globs.items():
            dg = demangle([g])[g]
            if 'safe_numerics' not in g or kind != 'global' or ext:
                continue
            if 'category' in g.lower() and re.search(r'zeroinitializer|_ZTV|error_category', rest):
                r.ok('static data is constant or an error category without state')
                continue
            if g.startswith('_ZGV'):
                continue
            bad.setdefault(('mutable static data', dg, g), ('', rest[:100]))
        r.extra['functions'] = len(seenf)
    names = demangle(sorted({k[1] for k in bad}))
    for (kind, f, g), (e, l) in sorted(bad.items())[:200]:
        r.violation('%s/%s/%s' % (kind, names.get(f, f)[:200], g[:120]), '%s: in %s (reached from %s): %s' % (
            {'store': 'writes the static object ' + g, 'indirect call': 'calls through a pointer', 'external call': 'calls ' + g, 'can throw or terminate': 'calls ' + g + ' although declared noexcept',
             'mutable static data': 'static data which is not constant'}[kind], names.get(f, f)[:200], what.get(e, e), l), 'boost/safe_numerics')
    r.extra.update({'entry_points_analysed': roots, 'call_edges': edges, 'functions': len(seenf)})
    r.finish('transitive closure of calls and stores of arithmetic, comparison, conversion and update operators (with handlers that return), of the checked:: and safe_compare primitives and of checked_result operators: '
             'no store to static data, no calls outside the library other than the policy handler, nothing that throws in noexcept primitives; static data of the library is constant',
             ['clang 18 lowering, C++14', 'instantiations enumerated in /verif/checks/d01.py'])


def _firsterr_(s):
    m = re.search(r'error: .*', s)
    return m.group(0)[:300] if m else s[:300]
