"""E02: the predefined exception policies do what their names say."""
from ops import *
from tl import Wit, decide_wits
import ir

SLOTS = ['on_arithmetic_error', 'on_implementation_defined_behavior', 'on_undefined_behavior', 'on_uninitialized_value']
T, I, X = 'throw', 'ignore', 'trap'
POL = {'loose_exception_policy': (T, I, I, I), 'strict_exception_policy': (T, T, T, I), 'default_exception_policy': (T, T, T, I),
       'loose_trap_policy': (X, I, I, I), 'strict_trap_policy': (X, X, X, X)}
for n_, h_ in (('throw_exception', T), ('ignore_exception', I), ('trap_exception', X)):
    for k_ in range(4):
        POL['exception_policy<%s>' % ','.join(n_ if i == k_ else ('ignore_exception' if n_ != 'ignore_exception' else 'trap_exception') for i in range(4))] = \
            tuple(h_ if i == k_ else (I if h_ != I else X) for i in range(4))
KIND = {UNINIT: 3, POS: 0, NEG: 0, DOMAIN: 0, RANGE: 0, PREC: 0, UNDER: 0, NEGVALSHIFT: 1, NEGSHIFT: 1, TOOLARGE: 1}
CALL = 'vp_result = 1; %s::%s((safe_numerics_error)c, m);'
# operation, ranges of the operands, error
OPS = [('add+', 'vp_result = base_value(safe<signed char,native,P>(a) + safe<int,native,P>(b));', (1, 127), (2**31 - 1, 2**31 - 1), POS),
       ('add-', 'vp_result = base_value(safe<signed char,native,P>(a) + safe<int,native,P>(b));', (-128, -1), (-2**31, -2**31), NEG),
       ('div0', 'vp_result = base_value(safe<int,native,P>(a) / safe<int,native,P>(b));', (-2**31, 2**31 - 1), (0, 0), DOMAIN),
       ('mod0', 'vp_result = base_value(safe<unsigned,native,P>(a) % b);', (0, 2**31 - 1), (0, 0), DOMAIN),
       ('conv+', 'vp_result = base_value(safe<signed char,native,P>(a));', (128, 2**31 - 1), (0, 0), POS),
       ('conv-', 'safe<unsigned char,native,P> x(0); x = a; vp_result = base_value(x);', (-2**31, -1), (0, 0), None),
       ('cast', 'vp_result = static_cast<unsigned char>(safe<int,native,P>(a));', (256, 2**31 - 1), (0, 0), POS),
       ('range', 'vp_result = base_value(safe_signed_range<-5,5,native,P>(a));', (6, 2**31 - 1), (0, 0), POS),
       ('shl', 'vp_result = base_value(safe<int,native,P>(a) << safe<int,native,P>(b));', (1, 1), (64, 1000), TOOLARGE),
       ('shr', 'vp_result = base_value(safe<int,native,P>(a) >> safe<int,native,P>(b));', (1, 1), (-1000, -1), NEGSHIFT),
       ('shrneg', 'vp_result = base_value(safe<int,native,P>(a) >> safe<int,native,P>(b));', (-1000, -1), (1, 31), NEGVALSHIFT),
       ('shlneg', 'vp_result = base_value(safe<int,native,P>(a) << safe<int,native,P>(b));', (-1000, -1), (1, 20), (NEGVALSHIFT, NEGSHIFT))]
THROWER = ['loose_exception_policy', 'strict_exception_policy', 'default_exception_policy']


def main():
    r = Report('E02')
    d = scratch()
    ents, traps, oks = [], [], []
    for i, (p, hs) in enumerate(POL.items()):
        for k, h in enumerate(hs):
            if h == X:
                traps.append(Wit('trap/%s/%s' % (p, SLOTS[k]), 'void f(safe_numerics_error e, const char * m){ %s::%s(e, m); }' % (p, SLOTS[k]), ok=False,
                                 what='%s of %s has to be a compile time error' % (SLOTS[k], p)))
            else:
                ents.append((p, k, h, 'vp_e_%d_%d' % (i, k), 'void vp_e_%d_%d(int c, const char * m){ vp_result = 1; %s::%s((safe_numerics_error)c, m); }' % (i, k, p, SLOTS[k])))
    dflt = 'template<class P> using vp_p = get_exception_policy<P>;'
    for ty in ('safe<int>', 'safe_signed_range<0,9>', 'safe_unsigned_range<0,9>'):
        oks.append(Wit('default/' + ty, 'static_assert(std::is_same<typename get_exception_policy<%s>::type, default_exception_policy>::value && std::is_same<typename get_promotion_policy<%s>::type, native>::value, "");' % (ty, ty),
                       what='%s has the default policies' % ty))
    oks.append(Wit('default/is', 'static_assert(std::is_same<default_exception_policy, strict_exception_policy>::value, "");', what='default_exception_policy is strict_exception_policy'))
    ops = []
    for j, p in enumerate(THROWER):
        for i, (nm, body, ra, rb, code) in enumerate(OPS):
            ops.append((p, nm, 'vp_o_%d_%d' % (j, i), 'void vp_o_%d_%d(int a, int b){ using P = %s; %s }' % (j, i, p, body), ra, rb, code))
        ops.append((p, 'uninit', 'vp_u_%d' % j, 'void vp_u_%d(int a, int b){ safe<int,native,%s> x; vp_result = 1; }' % (j, p), (0, 0), (0, 0), UNINIT))
    src = PRELUDE + 'extern "C" {\n%s\nconst void * vp_cat(int){ return &static_cast<const std::error_category &>(safe_numerics_error_category); }\n}\n'
    try:
        mod = build_ir(src % '\n'.join([e[-1] for e in ents] + [o[3] for o in ops]), d, 'tu', keep=['_ZNSt12system_errorC%dESt10error_codePKc' % i for i in (1, 2)])

        def go(fn, vals, ptr=None):
            ns = ['a%d' % i for i in range(len(vals))]
            st = mkstore(ns, list(vals), [])
            thrown = []

            def ctor(an, s, inst, args):
                s.ev = s.ev + (('system_error', tuple(args), inst),)
                return [(s, None)]

            def nop(an, s, inst, args):
                return [(s, None)]

            def alloc(an, s, inst, args):
                return [(s, ('ptr', '@vp_exception_object', 0))]
            ext = dict(EXTERNS)
            ext['__cxa_allocate_exception'] = alloc
            for f in list(mod.funcs) + list(mod.decls):
                if re.match(r'@_ZNSt12system_errorC[12]ESt10error_codePKc$', f):
                    ext[f[1:]] = ctor
            an, ex = analyse(mod, fn, [A(atom('in', n)) for n in ns] + ([ptr] if ptr else []), st, externs=ext)
            r.paths += len(ex)
            r.entries.add(fn)
            r.cells += 1
            r.lib |= set(an.funcs_seen)
            return ex

        def what(e):
            """(kind, code, category, message) of an exit"""
            if e.kind == 'call' and e.val[0] == '__cxa_throw':
                se = [v for v in e.events if v[0] == 'system_error']
                ti = e.val[1][1]
                if len(se) != 1 or not (isinstance(ti, tuple) and ti[1] == '@_ZTISt12system_error'):
                    return ('throw', 'no single std::system_error')
                a = se[0][1]
                c = a[1]
                c = e.st.simp(c).const() if isinstance(c, Poly) else None
                return ('throw', c, a[2][1] if isinstance(a[2], tuple) else None, a[3])
            if e.kind == 'ret':
                return ('return', any(v[0] in ('system_error', 'vp_note') for v in e.events))
            return (e.kind,)
        exc = go('vp_cat', [(0, 0)])
        cat = exc[0].val[0][1]
        MSG = ('ptr', '@vp_message', 0)

        def check(key, ex, want, code, where, msg=None):
            got = [what(e) for e in ex]
            bad = None
            if not got:
                r.undecide(key, 'no path')
                return
            for g in got:
                if want == 'ignore':
                    if g != ('return', False):
                        bad = 'has to return without an effect, but: %s' % (g,)
                else:
                    if g[0] != 'throw' or len(g) == 2:
                        bad = 'has to throw std::system_error, but: %s' % (g,)
                    elif code is not None and g[1] is None:
                        r.undecide(key, 'error code of the exception not constant')
                        return
                    elif code is not None and g[1] not in code:
                        bad = 'throws error code %s, required %s' % (ENAMES.get(g[1], g[1]) if isinstance(ENAMES, dict) else ENAMES[g[1]] if g[1] < len(ENAMES) else g[1], code)
                    elif g[2] != cat:
                        bad = 'the error code is of another category (%s)' % g[2]
                    elif msg is not None and g[3] != msg:
                        bad = 'the message is not the one given to the handler'
            if bad:
                r.violation(key, bad, where)
            else:
                r.ok('abstract interpretation')
        H = 'exception_policies.hpp'
        for p, k, h, fn, _ in ents:
            for c in range(1, 11):
                key = '%s/%s/%s' % (p, SLOTS[k], ENAMES[c])
                try:
                    check(key, go(fn, [(c, c)], MSG), h, [c], H, MSG)
                except (absint.Imprecise, ir.IRError, KeyError, IndexError, AttributeError, TypeError) as x:
                    r.undecide(key, repr(x)[:200])
        for p, nm, fn, _, ra, rb, code in ops:
            key = 'op/%s/%s' % (p, nm)
            if nm in ('shl', 'shr', 'shlneg') and p == 'loose_exception_policy':
                continue  # the built-in shift by a negative count or by the width is what the user of this policy asked for
            try:
                codes = [NEG, DOMAIN, RANGE] if code is None else list(code) if isinstance(code, tuple) else [code]
                check(key, go(fn, [ra, rb]), POL[p][KIND[codes[0]]], codes, 'safe_base_operations.hpp')
            except (absint.Imprecise, ir.IRError, KeyError, IndexError, AttributeError, TypeError) as x:
                r.undecide(key, repr(x)[:200])
    except BuildError as be:
        r.violation('policies/compile', 'use of a predefined policy does not compile: %s' % (re.search(r'error: .*', str(be)) or [''])[0], 'exception_policies.hpp')
    finally:
        shutil.rmtree(d, ignore_errors=True)
    decide_wits(r, traps + oks, rule='trap handlers are rejected, defaults are the documented ones')
    r.finish('five predefined policies and twelve made of one predefined handler in each slot: each slot on every error code (returns without effect / throws '
             'std::system_error with this code, category and message / does not compile), eleven failing operations under the three throwing policies, default policies of the safe types',
             ['clang 18 lowering, Itanium C++ ABI exception protocol, C++14'])
