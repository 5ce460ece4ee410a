"""Driver: generate a translation unit that instantiates the library, lower it
to LLVM IR, run the abstract interpreter on every (entry point, region of the
input space) and compare the abstract outcomes with the specification.

An obligation is one (entry point, region).  It is *discharged* when every
abstract exit provably has the specified outcome, *violated* when the abstract
run of some sub-cell of the region definitely has another outcome, and
*undecided* otherwise (never reported as a violation).
"""
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import multiprocessing as mp
from collections import Counter, defaultdict

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import ir
import dom
import absint
from dom import Poly, K, A, atom, Store, Infeasible, Imprecise, ZERO, ONE

REPO = os.environ.get('VP_REPO', '/repo')
EVID = os.environ.get('VP_EVID') or os.path.dirname(HERE)
INC = ['-I%s/include' % REPO, '-I/opt/vp/guard']
CLANG = '/usr/bin/clang++'
OPT = shutil.which('opt') or '/usr/bin/opt-18'
if not os.path.exists(OPT):
    OPT = '/usr/lib/llvm-18/bin/opt'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
CXXFLAGS = ['-std=c++14', '-w', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names',
            '-gline-tables-only', '-fno-rtti' if False else '-frtti',
            '-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bool,unreachable,return',
            '-fsanitize-trap=all']

TYPES = {
    'i8': ('signed char', 8, True), 'u8': ('unsigned char', 8, False),
    'i16': ('short', 16, True), 'u16': ('unsigned short', 16, False),
    'i32': ('int', 32, True), 'u32': ('unsigned int', 32, False),
    'i64': ('long', 64, True), 'u64': ('unsigned long', 64, False),
    'll': ('long long', 64, True), 'ull': ('unsigned long long', 64, False),
    'c': ('char', 8, True),
    'b': ('bool', 1, False),
}
STD8 = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64']

# ------------------------------------------------------------------ data models
# The C library headers here are those of LP64; for another target they are read with shim/ in front of them (the
# exact-width types of that target). Nothing is linked or run: only the IR for the target is analysed.
_SYS = ['-D_GNU_SOURCE', '-nostdinc', '-isystem', '/usr/include/c++/13', '-isystem', '/usr/include/x86_64-linux-gnu/c++/13',
        '-isystem', os.path.join(os.path.dirname(HERE), 'shim'), '-isystem', '%RES%/include',
        '-isystem', '/usr/include/x86_64-linux-gnu', '-isystem', '/usr/include']
#        target flags, {key: C++ type}, plain char is signed, how a result of any width is written down
MODELS = {
    'lp64': ([], {}, True, '__int128'),
    'lp64-uchar': (['--target=aarch64-linux-gnu'] + _SYS, {}, False, '__int128'),
    'ilp32': (['-m32'] + _SYS, {'i64': 'long long', 'u64': 'unsigned long long'}, True, '_BitInt(128)'),
    'ilp32-long': (['-m32'] + _SYS, {'i32': 'long', 'u32': 'unsigned long', 'i64': 'long long', 'u64': 'unsigned long long'}, True, '_BitInt(128)'),
    'ilp32-uchar': (['--target=armv7-linux-gnueabihf'] + _SYS, {'i64': 'long long', 'u64': 'unsigned long long'}, False, '_BitInt(128)'),
    'llp64': (['--target=x86_64-pc-windows-gnu'] + _SYS, {'i32': 'long', 'u32': 'unsigned long', 'i64': 'long long', 'u64': 'unsigned long long'}, True, '_BitInt(128)'),
    'ip16': (['--target=msp430'] + _SYS, {'i16': 'int', 'u16': 'unsigned int', 'i32': 'long', 'u32': 'unsigned long', 'i64': 'long long', 'u64': 'unsigned long long'}, True, None),
    'ip16-short': (['--target=msp430'] + _SYS, {'i32': 'long', 'u32': 'unsigned long', 'i64': 'long long', 'u64': 'unsigned long long'}, True, None),
}
MODEL = os.environ.get('VP_MODEL', 'lp64')
for _k, _n in MODELS[MODEL][1].items():
    TYPES[_k] = (_n,) + TYPES[_k][1:]
TYPES['c'] = ('char', 8, MODELS[MODEL][2])
WIDE = MODELS[MODEL][3]
MFLAGS = []
if MODEL != 'lp64':
    _res = subprocess.run([CLANG, '-print-resource-dir'], stdout=subprocess.PIPE, text=True).stdout.strip()
    MFLAGS = [x.replace('%RES%', _res) for x in MODELS[MODEL][0]]
    CXXFLAGS += MFLAGS


def cxx(t):
    return TYPES[t][0]


def bits(t):
    return TYPES[t][1]


def signed(t):
    return TYPES[t][2]


def tmin(t):
    return -(1 << (bits(t) - 1)) if signed(t) else 0


def tmax(t):
    return (1 << (bits(t) - 1)) - 1 if signed(t) else (1 << bits(t)) - 1


def rng(t):
    return tmin(t), tmax(t)


_RANKS = {'bool': 0, 'char': 1, 'short': 2, 'int': 3, 'long': 4, 'long long': 5}
RANK = {k: _RANKS[v[0].replace('unsigned ', '').replace('signed ', '')] for k, v in TYPES.items()}
INTBITS = 16 if MODEL.startswith('ip16') else 32


def promote(t):
    if RANK[t] >= 3:
        return t
    return ('i%d' if bits(t) < INTBITS or signed(t) else 'u%d') % INTBITS


def usual(t, u):
    """C++ usual arithmetic conversions of the data model"""
    t, u = promote(t), promote(u)
    if t == u:
        return t
    if signed(t) == signed(u):
        return t if RANK[t] > RANK[u] else u
    s, n = (t, u) if signed(t) else (u, t)
    if RANK[n] >= RANK[s]:
        return n
    if tmax(s) >= tmax(n):
        return s
    return 'ull' if s == 'll' else 'u' + s[1:]


PRELUDE = r'''
#include <boost/safe_numerics/safe_integer.hpp>
#include <boost/safe_numerics/safe_integer_range.hpp>
#include <boost/safe_numerics/safe_integer_literal.hpp>
#include <boost/safe_numerics/automatic.hpp>
#include <boost/safe_numerics/cpp.hpp>
#include <boost/safe_numerics/checked_default.hpp>
#include <boost/safe_numerics/checked_integer.hpp>
#include <boost/safe_numerics/checked_result_operations.hpp>
#include <boost/safe_numerics/safe_compare.hpp>
#include <boost/safe_numerics/interval.hpp>
#include <boost/safe_numerics/utility.hpp>
#include <cstdint>
#include <type_traits>
using namespace boost::safe_numerics;
extern "C" {
[[noreturn]] void vp_handler(int kind, int code) noexcept;   // an error handler of the policy was called
[[noreturn]] void vp_err(int code) noexcept;                 // a checked_result held an error
[[noreturn]] void vp_out(int code) noexcept;                 // another designated outcome
void vp_note(int kind, int code) noexcept;                   // a handler that returns
%RESULT%
}
%RESULT2%
struct VH0 { constexpr VH0(){} void operator()(const safe_numerics_error &e, const char*) const { vp_handler(0,(int)e); } };
struct VH1 { constexpr VH1(){} void operator()(const safe_numerics_error &e, const char*) const { vp_handler(1,(int)e); } };
struct VH2 { constexpr VH2(){} void operator()(const safe_numerics_error &e, const char*) const { vp_handler(2,(int)e); } };
struct VH3 { constexpr VH3(){} void operator()(const safe_numerics_error &e, const char*) const { vp_handler(3,(int)e); } };
struct VN0 { constexpr VN0(){} void operator()(const safe_numerics_error &e, const char*) const { vp_note(0,(int)e); } };
struct VN1 { constexpr VN1(){} void operator()(const safe_numerics_error &e, const char*) const { vp_note(1,(int)e); } };
struct VN2 { constexpr VN2(){} void operator()(const safe_numerics_error &e, const char*) const { vp_note(2,(int)e); } };
struct VN3 { constexpr VN3(){} void operator()(const safe_numerics_error &e, const char*) const { vp_note(3,(int)e); } };
using EP  = exception_policy<VH0,VH1,VH2,ignore_exception>;   // uninitialised construction ignored
using EPU = exception_policy<VH0,VH1,VH2,VH3>;
using EPN = exception_policy<VN0,VN1,VN2,VN3>;                // every handler returns
template<class T> using S = safe<T,native,EP>;
template<class T> using SA = safe<T,automatic,EP>;
template<class R> constexpr inline R vp_get(const checked_result<R> & r){
    if(r.exception()) vp_err((int)static_cast<safe_numerics_error>(r));
    return static_cast<R>(r);
}
'''
if WIDE:
    PRELUDE = PRELUDE.replace('%RESULT%', 'extern __int128 vp_result;   // the mathematical value of the result').replace('%RESULT2%', '')
else:       # no integer type wider than 64 bits: the value is handed over with its signedness
    PRELUDE = PRELUDE.replace('%RESULT%', 'void vp_puts(long long) noexcept; void vp_putu(unsigned long long) noexcept;').replace('%RESULT2%', '''
static void vp_put(long long v, std::true_type){ vp_puts(v); }
static void vp_put(unsigned long long v, std::false_type){ vp_putu(v); }
struct VPR { template<class T> void operator=(T v) const { vp_put(v, std::integral_constant<bool, std::is_signed<T>::value>()); } };
static const VPR vp_result;''')

# error codes
SUCCESS, POS, NEG, DOMAIN, RANGE, PREC, UNDER, NEGVALSHIFT, NEGSHIFT, TOOLARGE, UNINIT = range(11)
ENAMES = ['success', 'positive_overflow_error', 'negative_overflow_error', 'domain_error', 'range_error',
          'precision_overflow_error', 'underflow_error', 'negative_value_shift', 'negative_shift',
          'shift_too_large', 'uninitialized_value']
ARITH = {POS, NEG, DOMAIN, RANGE, PREC, UNDER}
SHIFTE = {NEGVALSHIFT, NEGSHIFT, TOOLARGE}


# ------------------------------------------------------------------ expected outcomes
class Val:
    """the entry point returns exactly this integer; `notes`: predicate on the handler notes, or None for
    'no note'"""

    def __init__(self, p, notes=None):
        self.p = K(p) if isinstance(p, int) else p
        self.notes = notes

    def show(self):
        return 'value ' + (dom.show(self.p)[:120] if isinstance(self.p, Poly) else 'given by the specification')

    def at(self, st):
        return self.p if isinstance(self.p, Poly) else self.p(st)


class ValIn:
    """returns some integer within [lo,hi]"""

    def __init__(self, lo, hi, notes='any'):
        self.lo, self.hi, self.notes = lo, hi, notes

    def show(self):
        return 'value in [%d,%d]' % (self.lo, self.hi)


class Out:
    """calls a designated noreturn function: name, tuple of allowed sets per argument"""

    def __init__(self, name, *allowed):
        self.name, self.allowed = name, allowed

    def show(self):
        return '%s(%s)' % (self.name, ','.join('any' if a is None else '/'.join(map(str, sorted(a)))
                                                for a in self.allowed))


def Err(*codes):
    return Out('vp_err', set(codes) or set(range(1, 11)))


def Hnd(kinds, codes=None):
    return Out('vp_handler', set(kinds), set(codes) if codes is not None else None)


class HndKeep(Out):
    """the handler is called and the watched variable (copied to vp_result by the handler) has this value"""

    def __init__(self, kinds, p, codes=None):
        Out.__init__(self, 'vp_handler', set(kinds), set(codes) if codes is not None else None)
        self.p = K(p) if isinstance(p, int) else p

    def show(self):
        return Out.show(self) + ' with the operand unchanged'


class Both:
    """all of these hold"""

    def __init__(self, *alts):
        self.alts = alts

    def show(self):
        return ' and '.join(a.show() for a in self.alts)


class OneOf:
    def __init__(self, *alts):
        self.alts = alts

    def show(self):
        return ' or '.join(a.show() for a in self.alts)


class NoUB:
    """any outcome without undefined behaviour"""

    def show(self):
        return 'no undefined behaviour'


class Pred:
    """custom judge: f(exit, analyzer) -> True / False / None"""

    def __init__(self, f, text):
        self.f, self.text = f, text

    def show(self):
        return self.text


def retval(ex):
    v, ty = ex.val
    if ty == ir.VOID or v is None:
        c = (ex.mem or {}).get('@vp_result', {}).get(0)
        if c is not None and c[0] == 16 and c[1] != 'zero':
            return c[1], ('i', 128)
        return ('undefp',), ('i', 128)
    return v, ty


def retbits(ty):
    return ty[1] if ty and ty[0] == 'i' else None


def judge(exp, ex, an):
    """True: provably matches; False: provably does not (if the exit is feasible); None: unknown"""
    if isinstance(exp, OneOf):
        rs = [judge(a, ex, an) for a in exp.alts]
        if any(r is True for r in rs):
            return True
        if all(r is False for r in rs):
            return False
        return None
    if isinstance(exp, Both):
        rs = [judge(a, ex, an) for a in exp.alts]
        return False if any(r is False for r in rs) else True if all(r is True for r in rs) else None
    if isinstance(exp, HndKeep):
        r = judge(Out(exp.name, *exp.allowed), ex, an)
        if r is False:
            return False
        c = (ex.mem or {}).get('@vp_result', {}).get(0)
        if c is None or c[0] != 16 or not isinstance(c[1], Poly):
            return None
        d = ex.st.simp(c[1] - exp.p)
        if d.const() is not None:
            return r if d.const() % (1 << 128) == 0 else False
        l, h = ex.st.bounds(d)
        if l is not None and h is not None and (l > 0 or h < 0) and h - l < 1 << 128:
            return False
        return None
    if isinstance(exp, Pred):
        return exp.f(ex, an)
    if isinstance(exp, NoUB):
        return ex.kind not in ('ub', 'assert', 'unreachable')
    if isinstance(exp, Out):
        if ex.kind != 'call' or ex.val[0] != exp.name:
            return False
        for a, al in zip(ex.val[1], exp.allowed):
            if al is None:
                continue
            if not isinstance(a, Poly):
                return None
            v = ex.st.simp(a).const()
            if v is None:
                l, h = ex.st.bounds(a)
                if l is not None and h is not None and all(k in al for k in range(l, min(h, l + 64) + 1)) and h - l < 64:
                    continue
                if l is not None and h is not None and not any(l <= k <= h for k in al):
                    return False
                return None
            if v not in al:
                return False
        return True
    # values
    if ex.kind != 'ret':
        return False
    if exp.notes is None:
        if any(e[0] == 'vp_note' for e in ex.events):
            return False
    elif callable(exp.notes):
        r = exp.notes(ex)
        if r is not True:
            return r
    v, ty = retval(ex)
    N = retbits(ty)
    if N is None:
        return None
    if isinstance(v, tuple):
        v = dom.unknown(ex.st, 0, (1 << N) - 1, 'undef')
    M = 1 << N
    if isinstance(exp, ValIn):
        base = exp.lo
        # representative in [lo, lo+M)
        l, h = ex.st.bounds(v)
        if l is None or h is None:
            return None
        ks = set()
        for k in range((l - base) // M, (h - base) // M + 1):
            if len(ks) > 4:
                return None
            lo, hi = l - k * M, h - k * M
            lo, hi = max(lo, base), min(hi, base + M - 1)
            ks.add((lo, hi))
        if all(hi <= exp.hi for lo, hi in ks):
            return True
        if all(lo > exp.hi for lo, hi in ks):
            return False
        return None
    want = exp.at(ex.st)
    if want is None:
        return None
    d = ex.st.simp(v - want)
    if all(c % M == 0 for c in d.d.values()):
        return True
    d = Poly({m: r for m, r in ((m, ((c + M // 2) % M) - M // 2) for m, c in d.d.items()) if r})
    l, h = ex.st.bounds(d)
    if l is not None and l == h:
        return l % M == 0
    if l is not None and h is not None and (l - 1) // M == h // M:      # no multiple of M in [l,h]
        return False
    # try the values themselves
    return None


def show_exit(ex):
    if ex.kind == 'ret':
        v, ty = retval(ex)
        if isinstance(v, Poly):
            M = 1 << (retbits(ty) or 128)
            v = ex.st.simp(v)
            v = Poly({m: r for m, r in ((m, ((c + M // 2) % M) - M // 2) for m, c in v.d.items()) if r})
            return 'returns %s' % dom.show(v)[:160]
        return 'returns %s' % (v,)
    if ex.kind == 'call':
        a = []
        for x in ex.val[1]:
            a.append(dom.show(ex.st.simp(x)) if isinstance(x, Poly) else '?')
        s = '%s(%s)' % (ex.val[0], ','.join(a))
        if ex.val[0] in ('vp_err', 'vp_handler') and a and a[-1].isdigit() and int(a[-1]) < 11:
            s += ' [%s]' % ENAMES[int(a[-1])]
        return s
    if ex.kind == 'ub':
        names = {'ubsan:1': 'unreachable reached', 'ubsan:0': 'signed add overflow', 'ubsan:21': 'signed subtraction overflow',
                 'ubsan:12': 'signed multiplication overflow', 'ubsan:3': 'division overflow/by zero',
                 'ubsan:13': 'signed negation overflow', 'ubsan:20': 'shift out of bounds',
                 'ubsan:10': 'invalid bool load', 'ubsan:8': 'missing return'}
        return 'undefined behaviour (%s)' % names.get(ex.val, ex.val)
    return ex.kind


class Region:
    """cons: list of (poly, lo, hi); expect"""

    def __init__(self, name, cons, expect):
        self.name, self.cons, self.expect = name, cons, expect


class Entry:
    """one extern "C" wrapper.  params: [(name, type key or (lo,hi,N))]; regions(*polys) -> [Region]"""

    def __init__(self, name, params, code, regions, what=''):
        self.name, self.params, self.code, self.regions, self.what = name, params, code, regions, what
        self.globs = {}


def prange(p):
    t = p[1]
    if isinstance(t, str):
        return tmin(t), tmax(t)
    return t[0], t[1]


# ------------------------------------------------------------------ building
class BuildError(Exception):
    pass


def scratch():
    d = os.path.join(VERIF, '.work')
    os.makedirs(d, exist_ok=True)
    return tempfile.mkdtemp(prefix='w%d-' % os.getpid(), dir=d)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def wide(src):
    return src.replace('__int128', WIDE) if WIDE and WIDE != '__int128' else src


def build_ir(src, d, name, flags=(), std='c++14', inline=True, keep=()):
    cpp = os.path.join(d, name + '.cpp')
    src = wide(src)
    with open(cpp, 'w') as f:
        f.write(src)
    raw, out = os.path.join(d, name + '.raw.ll'), os.path.join(d, name + '.ll')
    fl = [x if not x.startswith('-std=') else '-std=' + std for x in CXXFLAGS]
    r = run([CLANG] + fl + list(flags) + INC + ['-S', '-emit-llvm', cpp, '-o', raw])
    if r.returncode:
        raise BuildError(r.stderr[:6000])
    # inline everything defined in the TU; no simplification that could exploit undefined behaviour
    r = run([OPT, '-S', '-passes=forceattrs,function(sroa),cgscc(inline),function(sroa),globaldce' if inline else '-passes=function(sroa),globaldce',
             '-inline-threshold=100000', raw, '-o', out] + ['-force-attribute=%s:noinline' % k for k in keep])
    if r.returncode:
        raise BuildError('opt: ' + r.stderr[:3000])
    os.unlink(raw)
    return ir.Module(open(out).read())


# ------------------------------------------------------------------ deciding one obligation
def ext_noreturn(an, s, inst, args):
    an.exit(s, 'call', (inst.a[0][1:].strip('"'), args), inst)
    return None


def ext_note(an, s, inst, args):
    s.ev = s.ev + (('vp_note', tuple(args), inst),)
    return [(s, None)]


def ext_put(an, s, inst, args, sg):
    out = []
    for t, v in (an.ssig if sg else an.usig)(s, an.toint(s, args[0], 64), 64):
        an.store(t, ('i', 128), v, ('ptr', '@vp_result', 0))
        out.append((t, None))
    return out


EXTERNS = {'vp_puts': lambda an, s, i, a: ext_put(an, s, i, a, True), 'vp_putu': lambda an, s, i, a: ext_put(an, s, i, a, False),
           'vp_handler': ext_noreturn, 'vp_err': ext_noreturn, 'vp_out': ext_noreturn, 'vp_note': ext_note,
           '__cxa_throw': ext_noreturn, '_ZSt9terminatev': ext_noreturn}


class Obl:
    __slots__ = ('entry', 'region', 'status', 'paths', 'detail', 'witness', 'where', 'trace', 'cells')

    def __init__(self, entry, region):
        self.entry, self.region = entry, region
        self.status = None
        self.paths = 0
        self.detail = ''
        self.witness = None
        self.where = ''
        self.trace = []
        self.cells = 0


def mkstore(names, ranges, cons):
    st = Store()
    for n, (lo, hi) in zip(names, ranges):
        st.assume(A(atom('in', n)), lo, hi)
    for p, lo, hi in cons:
        st.assume(p, lo, hi)
    return st


def analyse(mod, fn, polys, st, budget=60000, externs=None, coarse=False):
    an = absint.Analyzer(mod, externs=externs or EXTERNS, max_steps=budget, coarse=coarse)
    ex = an.run('@' + fn, polys, st)
    return an, ex


def mod_has_tables(mod):
    if not hasattr(mod, '_tables'):
        mod._tables = any('x i8]' in g or 'c"' in g for g in map(str, mod.globals.values()))
    return mod._tables


def evalp(p, env):
    t = 0
    for m, c in p.d.items():
        for a in m:
            v = env.get(a)
            if v is None:
                k, args = dom.ATOMS[a]
                if k == 'pdiv':
                    n, d = evalp(args[0], env), evalp(args[1], env)
                    if d == 0:
                        raise ZeroDivisionError
                    v = n // d
                elif k == 'shl':
                    v = evalp(args[0], env) << evalp(args[1], env)
                elif k == 'shr':
                    v = evalp(args[0], env) >> evalp(args[1], env)
                elif k == 'and':
                    v = evalp(args[0], env) & evalp(args[1], env)
                else:
                    raise KeyError(a)
            c *= v
        t += c
    return t


def inregion(cons, env):
    for p, lo, hi in cons:
        try:
            v = evalp(p, env)
        except (ZeroDivisionError, KeyError, ValueError):
            return False
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            return False
    return True


def describe(mod, ex):
    """(where, trace) of an exit"""
    trace = []
    seen = set()

    def loc(dbg):
        if dbg is None:
            return None
        for line, f, fnn in mod.loc(dbg):
            if '/boost/safe_numerics/' in f:
                return '%s:%d %s' % (f[f.index('/boost/safe_numerics/') + 21:], line, fnn)
        return None
    for dbg, taken in ex.trace:
        l = loc(dbg)
        if l and (l, taken) not in seen:
            seen.add((l, taken))
            trace.append('%s [%s]' % (l, taken))
    w = loc(ex.inst.dbg) if ex.inst is not None and getattr(ex.inst, 'dbg', None) else None
    if not w and trace:
        w = trace[-1]
    return w or '?', trace[-12:]


def candidates(st, ids, ranges, rnd, n=60):
    """points of a cell that are likely to expose a disagreement: corners first"""
    per = []
    for a, (lo, hi) in zip(ids, ranges):
        l, h = st.bounds(A(a))
        l = lo if l is None else max(l, lo)
        h = hi if h is None else min(h, hi)
        c = []
        for v in (l, h, l + 1, h - 1, 0, 1, -1, (l + h) // 2, 2, -2, l + (h - l) // 3,
                  -128, -129, 127, 128, 255, 256, -32768, 32767, 32768, 65535, 65536, -2**31, 2**31 - 1, 2**31, 2**32 - 1,
                  2**32, 2**63 - 1, -2**63, 2**63, 2**64 - 1, 7, 8, 15, 16, 31, 32, 63, 64, 46341, 3037000500):
            if l <= v <= h and v not in c:
                c.append(v)
        for _ in range(4):
            v = rnd.randint(l, h)
            if v not in c:
                c.append(v)
        per.append(c)
    if not per:
        yield ()
        return
    if len(per) == 1:
        for v in per[0]:
            yield (v,)
        return
    # corners x corners first, then mixed
    seen = set()
    for depth in (2, 4, 8, 14, 60):
        import itertools
        for pt in itertools.product(*[c[:depth] for c in per]):
            if pt not in seen:
                seen.add(pt)
                yield pt
        if len(seen) > 1500:
            return


def subregions(ids, ranges, st):
    """refinement of an undecided cell: split by sign and at power-of-two boundaries of the first splittable input"""
    out = []
    for a in ids:
        l, h = st.bounds(A(a))
        if l is None or h is None or l == h:
            continue
        cuts = [c for c in (-1, 0, 1) if l < c <= h]
        cuts = sorted(set([c for c in (0, 1, -1) if l < c <= h] + ([l + 1] if h - l > 2 else []) + ([h] if h - l > 2 else [])))
        lo = l
        parts = []
        for c in cuts:
            parts.append((lo, c - 1))
            lo = c
        parts.append((lo, h))
        if len(parts) > 1:
            out.append((a, parts))
    return out


def decide(mod, entry, region, ids, polys, ranges, rnd, opts):
    ob = Obl(entry.name, region.name)
    base = region.cons
    externs = opts.get('externs') or EXTERNS
    try:
        st0 = mkstore([p[0] for p in entry.params], ranges, base)
    except Infeasible:
        ob.status = 'empty'
        return ob
    work = [(base, 0)]
    undec = []
    cells = 0
    while work:
        cons, depth = work.pop()
        try:
            st = mkstore([p[0] for p in entry.params], ranges, cons)
        except Infeasible:
            continue
        cells += 1
        keep = st.copy()
        why = None
        bad = []
        try:
            exits = None
            if depth == 0 and mod_has_tables(mod):
                # table look-ups as intervals first; case split on the table only if that does not suffice
                try:
                    an, exits = analyse(mod, entry.name, polys, keep.copy(), 20000, externs, True)
                    if not all(judge(region.expect, ex, an) is True for ex in exits):
                        exits = None
                except Imprecise:
                    exits = None
            if exits is None:
                an, exits = analyse(mod, entry.name, polys, st, opts.get('budget', 60000), externs)
            ob.paths += len(exits)
            opts['funcs'].update(an.funcs_seen)
            for ex in exits:
                r = judge(region.expect, ex, an)
                if r is not True:
                    bad.append((r, ex))
        except Imprecise as e:
            why = str(e)
        if why is None and not bad:
            continue
        if depth < 2 and cells < 200:
            subs = subregions(ids, ranges, keep)
            if subs:
                a, parts = subs[depth % len(subs)]
                for lo, hi in parts:
                    work.append((cons + [(A(a), lo, hi)], depth + 1))
                if why is None:
                    undec.append((cons, keep, bad, why, depth))
                continue
        undec.append((cons, keep, bad, why, 99))
    ob.cells = cells
    final = [u for u in undec if u[4] == 99]
    if not final:
        ob.status = 'discharged'
        return ob
    # confirm: shrink to singleton cells, where the abstract semantics is exact
    tries = 0
    for cons, keep, bad, why, _ in (final + undec):
        stores = [ex.st for r, ex in bad if r is False] + [ex.st for r, ex in bad if r is None] + [keep]
        for s_ in stores[:6]:
            local = 0
            for pt in candidates(s_, ids, ranges, rnd):
                env = dict(zip(ids, pt))
                if not inregion(base, env):
                    continue
                local += 1
                tries += 1
                if local > 150 or tries > opts.get('tries', 1200):
                    break
                try:
                    st1 = mkstore([p[0] for p in entry.params], ranges, base + [(A(a), v, v) for a, v in env.items()])
                    an, exits = analyse(mod, entry.name, polys, st1, 200000, externs)
                except (Infeasible, Imprecise):
                    continue
                bads = [ex for ex in exits if judge(region.expect, ex, an) is False]
                if bads and len(exits) == len(bads):
                    ex = bads[0]
                    ob.status = 'violated'
                    ob.witness = {p[0]: v for p, v in zip(entry.params, pt)}
                    e2 = region.expect
                    ob.detail = '%s; required: %s' % (show_exit(ex), show_req(e2, ex.st))
                    ob.where, ob.trace = describe(mod, ex)
                    return ob
            if tries > opts.get('tries', 1200):
                break
    ob.status = 'undecided'
    ob.detail = (final[0][3] or '; '.join(show_exit(ex) for r, ex in final[0][2][:3]))[:300]
    return ob


def show_req(e, st):
    if isinstance(e, Val):
        try:
            v = st.simp(e.at(st)).const()
            if v is not None:
                return 'value %d' % v
        except Exception:
            pass
    if isinstance(e, OneOf):
        return ' or '.join(show_req(a, st) for a in e.alts)
    return e.show()


# ------------------------------------------------------------------ jobs
class Job:
    """a translation unit: entries + extra code"""

    def __init__(self, name, entries, extra='', flags=(), prelude=PRELUDE, std=os.environ.get('VP_STD', 'c++14'), **opts):
        self.name, self.entries, self.extra, self.flags, self.prelude, self.std, self.opts = \
            name, entries, extra, flags, prelude, std, opts


def run_job(job):
    t0 = time.time()
    d = scratch()
    res = []
    info = {'job': job.name, 'error': None, 'ir_functions': 0, 'lib_functions': set(), 'build_failed': [], 'repo_lines': 0}
    try:
        entries = list(job.entries)

        def src(es):
            return job.prelude + '\n' + job.extra + '\nextern "C" {\n' + '\n'.join(
                '#line 1 "%s"\n%s' % (e.name, e.code) for e in es) + '\n}\n'
        try:
            mod = build_ir(src(entries), d, "tu", job.flags, job.std, keep=job.opts.get("keep", ()))
        except BuildError as be:
            # which entry points do not build?
            msg = str(be)
            badn = set(re.findall(r'^(?:In file included.*\n)?([A-Za-z0-9_]+):1:\d+: note: in instantiation', msg, re.M))
            badn |= set(re.findall(r'^([A-Za-z0-9_]+):1:\d+: error', msg, re.M))
            good = []
            for e in entries:
                if e.name in badn or len(entries) <= 1:
                    info['build_failed'].append((e.name, msg[:1500]))
                else:
                    good.append(e)
            if len(good) == len(entries):
                # bisect
                good = []
                for e in entries:
                    r = run([CLANG] + CXXFLAGS + list(job.flags) + INC + ['-fsyntax-only', '-x', 'c++', '-'],
                            input=src([e]))
                    if r.returncode:
                        info['build_failed'].append((e.name, r.stderr[:1500]))
                    else:
                        good.append(e)
            entries = good
            if entries:
                try:
                    mod = build_ir(src(entries), d, "tu", job.flags, job.std, keep=job.opts.get("keep", ()))
                except BuildError as be2:
                    ok = []
                    for e in entries:
                        r = run([CLANG] + ['-std=' + job.std, '-w'] + list(job.flags) + INC + ['-fsyntax-only', '-x', 'c++', '-'],
                                input=src([e]))
                        if r.returncode:
                            info['build_failed'].append((e.name, r.stderr[:1500]))
                        else:
                            ok.append(e)
                    entries = ok
                    mod = build_ir(src(entries), d, "tu", job.flags, job.std, keep=job.opts.get("keep", ())) if entries else None
            else:
                mod = None
        if mod is not None:
            info['ir_functions'] = len(mod.funcs)
            info['lib_functions'] = mod.lib_functions() if hasattr(mod, 'lib_functions') else set()
            opts = dict(job.opts)
            opts['funcs'] = set()
            rnd = random.Random(SEED)
            only = os.environ.get('VP_ONLY')
            deadline = t0 + opts.get('deadline', 600)
            for e in entries:
                if only and only not in e.name:
                    continue
                dom.reset()
                ids = [atom('in', p[0]) for p in e.params]
                polys = [A(i) for i in ids]
                ranges = [prange(p) for p in e.params]
                args = polys + list(getattr(e, 'xargs', []))
                for r in e.regions(*polys):
                    if time.time() > deadline:
                        ob = Obl(e.name, r.name)
                        ob.status, ob.detail = 'undecided', 'time budget'
                    else:
                        try:
                            ob = decide(mod, e, r, ids, args, ranges, rnd, opts)
                        except Exception as ee:       # never a verdict
                            ob = Obl(e.name, r.name)
                            ob.status, ob.detail = 'undecided', 'analyser: %s: %s' % (type(ee).__name__, ee)
                    if ob.status != 'empty':
                        res.append((ob.entry, ob.region, ob.status, ob.paths, ob.detail, ob.witness, ob.where, ob.trace, ob.cells))
    except BuildError as be:
        info['error'] = str(be)[:3000]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    info['time'] = time.time() - t0
    return res, info


def _rj(j):
    try:
        return run_job(j)
    except Exception as e:      # an analysis failure is an error of the check, never a verdict
        import traceback
        return [], {'job': j.name, 'error': 'internal: ' + traceback.format_exc()[-1500:], 'ir_functions': 0,
                    'lib_functions': set(), 'build_failed': [], 'time': 0}


_JOBS = None


def _ri(i):
    return _rj(_JOBS[i])


# sampling (used by the checks that repeat others under another data model or language standard)
SAMPLE = int(os.environ.get('VP_SAMPLE', 0))
SKIP = os.environ.get('VP_SKIP')
QUERIED = set()       # not sampled although their types were asked for


def pick(names):
    """a seeded choice of SAMPLE names"""
    names = {n for n in names if n not in QUERIED and not (SKIP and re.search(SKIP, n))}
    return set(sorted(names, key=lambda n: hashlib.sha1(('%d/%s' % (SEED, n)).encode()).hexdigest())[:SAMPLE])


def run_jobs(jobs, procs=8):
    """fork a pool after the jobs exist, so that closures need no pickling"""
    global _JOBS
    procs = int(os.environ.get('VP_PROCS', procs))
    if SAMPLE:
        # fewer, larger translation units
        names = pick(e.name for j in jobs for e in j.entries)
        groups = {}
        for j in jobs:
            es = [e for e in j.entries if e.name in names]
            if es:
                groups.setdefault((j.extra, tuple(j.flags), j.prelude, j.std, repr(sorted(j.opts.items()))), []).append((j, es))
        jobs = []
        for g in groups.values():
            by = {}
            for j, es in g:
                by.update((e.name, e) for e in es)
            es, j = list(by.values()), g[0][0]
            m = max(1, min(procs, len(es) // 4))
            jobs += [Job('s%d' % i, es[i::m], j.extra, j.flags, j.prelude, j.std, **j.opts) for i in range(m)]
        if not jobs:
            return []
    _JOBS = jobs
    if os.environ.get('VP_SERIAL'):
        return [_rj(j) for j in jobs]
    ctx = mp.get_context('fork')
    with ctx.Pool(min(procs, max(1, len(jobs)))) as pool:
        return pool.map(_ri, range(len(jobs)), chunksize=1)


# ------------------------------------------------------------------ reporting
def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                k = json.loads(l)
                if k.get('property') == prop and k.get('status') == 'open':
                    out.append(k)
    return out


class Report:
    def __init__(self, prop, level='proof'):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.viol = []        # dicts key, text, where
        self.known = []
        self.undecided = []
        self.obl = 0
        self.disch = 0
        self.paths = 0
        self.cells = 0
        self.entries = set()
        self.irf = 0
        self.lib = set()
        self.errors = []
        self.extra = {}
        self.kf = known_findings(prop)
        self.rules = Counter()
        self.notes = []

    def ok(self, rule, n=1):
        """n obligations of a lint/type rule discharged"""
        self.obl += n
        self.disch += n
        self.rules[rule] += n

    def violation(self, key, text, where='', trace=(), witness=None):
        self.obl += 1
        for k in self.kf:
            if k['key'] == key:
                self.known.append((key, k, text))
                return
        self.viol.append({'key': key, 'text': text, 'where': where, 'trace': list(trace), 'witness': witness})

    def undecide(self, key, text):
        self.obl += 1
        self.undecided.append((key, text))

    def absorb(self, results, build_failure_is_violation=True):
        for res, info in results:
            if info.get('error'):
                self.errors.append((info['job'], info['error']))
            self.irf += info['ir_functions']
            self.lib |= set(info['lib_functions'])
            for n, msg in info['build_failed']:
                m = re.search(r'(?:error: .*)', msg)
                text = 'documented operation does not compile: ' + (m.group(0) if m else msg[:300])
                if build_failure_is_violation:
                    self.violation(n + '/compiles', text)
                else:
                    self.undecide(n + '/compiles', text)
            for (e, r, status, paths, detail, wit, where, trace, cells) in res:
                self.paths += paths
                self.cells += cells
                self.entries.add(e)
                if status == 'discharged':
                    self.ok('abstract interpretation')
                elif status == 'violated':
                    self.violation('%s/%s' % (e, r), detail, where, trace, wit)
                else:
                    self.undecide('%s/%s' % (e, r), detail)

    def finish(self, what, assumptions=()):
        """print, write the evidence file, exit"""
        p = self.prop
        wall = time.time() - self.t0
        rp = None
        os.makedirs(os.path.join(EVID, 'evidence'), exist_ok=True)
        for key, k, text in self.known:
            print('KNOWN-FINDING: property=%s %s: %s' % (p, key, k.get('what', text)))
        for key, text in self.undecided[:20]:
            print('UNDECIDED %s: %s' % (key, text[:200].replace('\n', ' ')))
        if len(self.undecided) > 20:
            print('UNDECIDED ... %d more' % (len(self.undecided) - 20))
        for j, e in self.errors:
            print('ERROR in %s: %s' % (j, e[:1500]))
        if self.viol:
            rp = os.path.join(EVID, 'evidence', p + '.violations.json')
            with open(rp, 'w') as f:
                json.dump(self.viol, f, indent=1)
            for v in self.viol[:12]:
                print('  at %s: %s: %s%s' % (v['where'], v['key'], v['text'],
                                             ' for ' + ', '.join('%s=%s' % x for x in v['witness'].items()) if v['witness'] else ''))
                for t in v['trace'][-4:]:
                    print('      via ' + t)
            if len(self.viol) > 12:
                print('  ... %d more' % (len(self.viol) - 12))
        else:
            old = os.path.join(EVID, 'evidence', p + '.violations.json')
            if os.path.exists(old):
                os.unlink(old)
        level = self.level
        total = self.obl
        cov = {
            'obligations': total,
            'discharged': self.disch,
            'checker_cmd': 'cd /verif && python3 check.py %s' % p,
            'trusted_base': ['clang 18 front end and opt sroa/inline (lowering of /repo headers to LLVM IR)',
                             'the abstract domain and IR interpreter in /verif/lib (dom.py, absint.py, ir.py)',
                             'the specification tables in /verif/checks'],
            'explanation': what,
            'entry_points': len(self.entries),
            'abstract_paths': self.paths,
            'cells': self.cells,
            'ir_functions': self.irf,
            'library_functions_reached': len(self.lib),
            'rules': dict(self.rules),
            'undecided': [u[0] for u in self.undecided[:50]],
            'undecided_count': len(self.undecided),
            'known_findings': [k[0] for k in self.known],
        }
        cov['violating_constructs'] = [{'where': v['where'], 'key': v['key'], 'text': v['text'], 'witness': v['witness']}
                                       for v in self.viol[:50]]
        cov['jobs_without_answer'] = [j for j, _ in self.errors]
        cov.update(self.extra)
        ev = {
            'property': p, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': level,
            'coverage': cov, 'wall_s': round(wall, 2),
            'violations': len(self.viol),
            'assumptions': list(assumptions),
        }
        ev = json.loads(json.dumps(ev, default=str))
        with open(os.path.join(EVID, 'evidence', p + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %d obligations, %d discharged, %d undecided, %d known, %d violated; %d entry points, %d abstract paths; %.1f s'
              % (p, total, self.disch, len(self.undecided), len(self.known), len(self.viol), len(self.entries), self.paths, wall))
        if self.viol:
            print('VIOLATION property=%s replay=%s' % (p, rp))
            sys.exit(1)
        if self.errors and not self.disch:
            sys.exit(3)
        sys.exit(0)
