"""G01: meaningless combinations do not compile, and their meaningful twins do."""
from tl import *
from ops import SYM

PRE = PRELUDE + r'''
#include <string>
using EPo = exception_policy<VH0,VH0,VH0,ignore_exception>;
template<class T> const T & vp_o();
enum class vp_scoped { a };
'''
TB = ['clang 18 front end (type checking of /repo headers)', 'the list of rejected constructs in /verif/checks/g01.py']
CMP = {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>=', 'eq': '==', 'ne': '!='}


def main():
    r = Report('G01')
    r.extra['trusted_base'] = TB
    full = TIER == 'thorough'
    w = []
    rnd = random.Random(SEED)

    def pair(key, bad, good, what):
        w.append(Wit(key, bad, ok=False, what=what))
        w.append(Wit(key + '/twin', good, ok=True, what='the admissible form of: ' + what))
    P = ['native', 'automatic', 'cpp<8,16,32,64,64>', 'cpp<8,16,16,32,64>']
    E = ['EP', 'EPo', 'loose_exception_policy', 'default_exception_policy']
    ops = dict(SYM)
    ops.update(CMP)
    kinds = ['safe<%s,%%s,%%s>' % cxx(t) for t in (['i32', 'u32', 'i16', 'u64', 'i8'] if full else ['i32', 'u16'])] + ['safe_signed_range<-5,100,%s,%s>', 'safe_unsigned_range<1,9,%s,%s>']
    lits = ['safe_signed_literal<7,%s,%s>', 'safe_unsigned_literal<3,%s,%s>']
    for a in kinds:
        for b in kinds + lits:
            for nm, o in ops.items():
                pp = rnd.sample([(x, y) for x in P for y in P if x != y], 4 if full else 1)
                ee = rnd.sample([(x, y) for x in E for y in E if x != y], 4 if full else 1)
                for x, y in pp:
                    e = rnd.choice(E)
                    p_ = 'promotion policies %s and %s in one operation' % (x, y)
                    A_, B_, C_ = a % (x, e), b % (y, e), b % (x, e)
                    if rnd.random() < .3 and b in kinds:
                        A_, B_, C_ = B_, A_, A_
                        C_ = a % (y, e)
                        good = 'using X = decltype(vp_o<%s>() %s vp_o<%s>());' % (A_, o, C_)
                    else:
                        good = 'using X = decltype(vp_o<%s>() %s vp_o<%s>());' % (A_, o, C_)
                    pair('promotion/%s %s %s' % (A_, o, B_), 'auto f(){ return vp_o<%s>() %s vp_o<%s>(); }' % (A_, o, B_), good, p_)
                for x, y in ee:
                    p = rnd.choice(P[:2])
                    A_, B_, C_ = a % (p, x), b % (p, y), b % (p, x)
                    pair('exception/%s %s %s' % (A_, o, B_), 'auto f(){ return vp_o<%s>() %s vp_o<%s>(); }' % (A_, o, B_), 'using X = decltype(vp_o<%s>() %s vp_o<%s>());' % (A_, o, C_), 'exception policies %s and %s in one operation' % (x, y))
    # literals that leave the policies open: usable with a safe operand, not without
    for nm, o in ops.items():
        for l in lits:
            L = l % ('void', 'void')
            L2 = rnd.choice(lits) % ('void', 'void')
            for other, k in (('int', 'builtin'), (L2, 'literal')):
                if o in ('<<', '>>', '/', '%') and 0:
                    continue
                pair('open/%s/%s/%s' % (L, nm, k), 'auto f(){ return vp_o<%s>() %s vp_o<%s>(); }' % (L, o, other), 'auto f(){ return vp_o<%s>() %s vp_o<safe<int,native,EP>>(); }' % (L, o), 'no operand of the operation has a policy')
    # compound assignment
    for nm, o in SYM.items():
        for x, y in ((P[0], P[1]), (P[1], P[0])):
            pair('compound/%s/%s' % (nm, x), 'void f(safe<int,%s,EP> & a, const safe<int,%s,EP> & b){ a %s= b; }' % (x, y, o), 'void f(safe<int,%s,EP> & a, const safe<int,%s,EP> & b){ a %s= b; }' % (x, x, o), 'compound assignment mixes promotion policies')
            pair('compound-e/%s/%s' % (nm, x), 'void f(safe<int,%s,EP> & a, const safe<int,%s,EPo> & b){ a %s= b; }' % (x, x, o), 'void f(safe<int,%s,EP> & a, const safe<int,%s,EP> & b){ a %s= b; }' % (x, x, o), 'compound assignment mixes exception policies')
    # conversions no value survives
    RR = [((0, 10), (20, 30), 1), ((0, 10), (11, 30), 1), ((0, 10), (-5, -1), 1), ((-100, -50), (-49, 127), 1), ((300, 400), (401, 500), 1), ((300, 400), (200, 299), 1), ((0, 10), (11, 30), 0), ((1000, 2000), (2001, 3000), 0),
          ((5, 5), (6, 6), 1), ((70000, 80000), (80001, 90000), 1)]
    for (a, b), (c, d), s in RR:
        S_ = 'safe_%s_range<%%d,%%d,native,EP>' % ('signed' if s else 'unsigned')
        X, Y, Z = S_ % (a, b), S_ % (c, d), S_ % ((min(a, c), b) if c > b else (a, max(b, d)))
        Z = S_ % (min(a, c), max(b, d))
        what = 'conversion of [%d,%d] to [%d,%d]: no value survives' % (c, d, a, b)
        for k, f in (('init', 'void f(const %s & y){ %s x = y; }'), ('ctor', 'void f(const %s & y){ %s x(y); }'), ('cast', 'auto f(const %s & y){ return static_cast<%s>(y); }'), ('arg', None), ('assign', None)):
            if k == 'arg':
                g = lambda y, x: 'void g(const %s &); void f(const %s & y){ g(y); }' % (x, y)
            elif k == 'assign':
                g = lambda y, x: 'void f(const %s & y, %s & x){ x = y; }' % (y, x)
            else:
                g = lambda y, x, f=f: f % (y, x)
            pair('disjoint/%s/[%d,%d]<-[%d,%d]%s' % (k, a, b, c, d, 's' if s else 'u'), g(Y, X), g(Z, X), what)
        for v in (c, d):
            L, M = 'safe_%s_literal<%d>' % ('signed' if s else 'unsigned', v), 'safe_%s_literal<%d>' % ('signed' if s else 'unsigned', a)
            pair('literal/%d->[%d,%d]%s' % (v, a, b, 's' if s else 'u'), 'void f(){ %s x = %s(); }' % (X, L), 'void f(){ %s x = %s(); }' % (X, M), 'the literal %d is outside [%d,%d]' % (v, a, b))
            pair('literal=/%d->[%d,%d]%s' % (v, a, b, 's' if s else 'u'), 'void f(%s & x){ x = %s(); }' % (X, L), 'void f(%s & x){ x = %s(); }' % (X, M), 'the literal %d is outside [%d,%d]' % (v, a, b))
    # literals to built-in types which can not hold them
    for t in STD8:
        lo, hi = rng(t)
        for v in (lo - 1, hi + 1):
            if -2**63 <= v < 2**63 and (v > hi or signed(t)):
                pair('literal/%d->%s' % (v, t), 'void f(){ %s x = safe_signed_literal<%dL,native,EP>(); }' % (cxx(t), v), 'void f(){ %s x = safe_signed_literal<%s,native,EP>(); }' % (cxx(t), '(-9223372036854775807L-1)' if (lo if v < lo else hi) == -2**63 else '%dL' % min(2**63 - 1, lo if v < lo else hi)),
                     'the literal %d is no value of %s' % (v, cxx(t)))
    # operands and initialisers that are not integers
    for T in ('safe<int,native,EP>', 'safe<unsigned char,automatic,EP>', 'safe_signed_range<0,10,native,EP>'):
        for nm, bad in (('string', 'std::string'), ('pointer', 'int*'), ('scoped enum', 'vp_scoped'), ('null', 'std::nullptr_t')):
            pair('init %s from %s' % (T, nm), 'void f(%s y){ %s x(y); }' % (bad, T), 'void f(int y){ %s x(y); }' % T, 'a %s is no integer' % nm)
            if nm != 'scoped enum':  # assignment validates the value of the underlying type (V01)
              pair('assign %s from %s' % (T, nm), 'void f(%s y, %s & x){ x = y; }' % (bad, T), 'void f(int y, %s & x){ x = y; }' % T, 'a %s is no integer' % nm)
            for o in ('+', '/', '<', '=='):
                pair('%s %s %s' % (T, o, nm), 'auto f(%s y, %s & x){ return x %s y; }' % (bad, T, o), 'auto f(short y, %s & x){ return x %s y; }' % (T, o), 'a %s is no integer operand' % nm)
    # policies which are none
    pair('policy/promotion', 'safe<int,int,EP> f();  auto g(){ return f(); }', 'safe<int,native,EP> f(); auto g(){ return f(); }', 'int is no promotion policy')
    0 and pair('policy/exception', 'safe<int,native,int> f();  auto g(){ return f(); }', 'safe<int,native,EP> f(); auto g(){ return f(); }', 'int is no exception policy')
    pair('nested', 'safe<safe<int>> f(); auto g(){ return f(); }', 'safe<int> f(); auto g(){ return f(); }', 'a safe type of a safe type')
    decide_wits(r, w, PRE, compilers=('clang', 'g++') if full else ('clang',), rule='rejected construct and its twin')
    r.finish('policies mixed in an operation or update (operators %s, kinds of operands), operations without a policy, conversions between ranges and of literals which no value survives, operands which are not integers, policies which are none; each with a twin that must compile' % ' '.join(ops.values()),
             ['LP64 data model, C++14'])
