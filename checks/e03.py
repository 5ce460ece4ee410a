"""E03: the error tables agree: names, actions, categories and dispatch."""
from ops import *
import ir

ACTIONS = ['no_action', 'uninitialized_value', 'arithmetic_error', 'implementation_defined_behavior', 'undefined_behavior']
ACT = {SUCCESS: 0, UNINIT: 1, POS: 2, NEG: 2, DOMAIN: 2, RANGE: 2, PREC: 2, UNDER: 2, NEGVALSHIFT: 3, NEGSHIFT: 3, TOOLARGE: 3}
KIND = {1: 3, 2: 0, 3: 1, 4: 2}     # action -> handler of the policy

SRC = PRELUDE + '''
extern "C" {
bool vp_equiv(int c, int k){ return safe_numerics_actions_category.equivalent(std::error_code(c, safe_numerics_error_category), k); }
int vp_eqcode(int c, int d){ return make_error_code((safe_numerics_error)c) == make_error_code((safe_numerics_error)d); }
int vp_code(int c){ return make_error_code((safe_numerics_error)c).value(); }
const void * vp_cat(int c){ return &make_error_code((safe_numerics_error)c).category(); }
const void * vp_cat2(int){ return &static_cast<const std::error_category &>(safe_numerics_error_category); }
const void * vp_cat3(int){ return &static_cast<const std::error_category &>(safe_numerics_actions_category); }
void vp_msg(int c){ std::string s = safe_numerics_error_category.message(c); }
const char * vp_lit(int c){ return literal_string((safe_numerics_error)c); }
int vp_act(int c){ return (int)make_safe_numerics_action((safe_numerics_error)c); }
%s
}
'''


def cstring(mod, p):
    if not (isinstance(p, tuple) and p[0] == 'ptr' and p[1] and p[1].startswith('@')):
        return None
    off = p[2] if isinstance(p[2], int) else p[2].const()
    m = re.search(r'c"((?:[^"\\]|\\[0-9A-Fa-f]{2})*)"', gtext(mod, p[1]))
    if not m or off is None:
        return None
    b = re.sub(r'\\([0-9A-Fa-f]{2})', lambda k: chr(int(k.group(1), 16)), m.group(1))
    return b[off:].split('\0')[0]


def gtext(mod, n):
    g = mod.globals.get(n, '')
    return g if isinstance(g, str) else g.text


def norm(s):
    return re.sub(r'[\s_]+', ' ', s).strip().lower()


def main():
    r = Report('E03')
    d = scratch()
    try:
        disp = ''
        for e in range(1, 11):
            disp += 'void vp_disp_%d(const char * m){ dispatch<EPN, safe_numerics_error::%s>(m); }\n' % (e, ENAMES[e])
            disp += 'void vp_disr_%d(const char * m){ vp_result = dispatch_and_return<EPN, int>::template invoke<safe_numerics_error::%s>(m).exception(); }\n' % (e, ENAMES[e])
        mod = build_ir(SRC % disp, d, 'tu', inline=False)

        def go(fn, *vals):
            ns = ['a%d' % i for i in range(len(vals))]
            st = mkstore(ns, [(v, v) for v in vals], [])
            ctors = {}

            def ctor(an, s, inst, args):
                s.ev = s.ev + (('string', tuple(args), inst),)
                return [(s, None)]
            ext = dict(EXTERNS)
            for f in list(mod.funcs) + list(mod.decls):
                if re.match(r'@_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEC[12]', f) and 'PKc' in f:
                    ext[f[1:]] = ctor
                elif re.match(r'@_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEED[12]Ev|@_ZNS(aIc|t15__new_allocatorIc|t9allocatorIc)E?[CD][12]', f):
                    ext[f[1:]] = lambda an, s, inst, args: [(s, None)]
            an, ex = analyse(mod, fn, [A(atom('in', n)) for n in ns], st, externs=ext)
            r.paths += len(ex)
            r.entries.add(fn)
            r.cells += 1
            r.lib |= set(an.funcs_seen)
            return ex

        def expect(key, fn, vals, want, what, where):
            try:
                ex = go(fn, *vals)
                got = [ex[0].st.simp(e.val[0]).const() if e.kind == 'ret' and isinstance(e.val[0], Poly) else None for e in ex]
            except (absint.Imprecise, ir.IRError, BuildError, KeyError, AttributeError, TypeError) as e:
                r.undecide(key, repr(e)[:200])
                return
            if len(got) != 1 or got[0] is None:
                if ex and all(e.kind in ('assert', 'ub', 'unreachable') for e in ex):
                    r.violation(key, '%s: %s' % (what, ex[0].kind), where)
                else:
                    r.undecide(key, 'not a single constant: %s' % [show_exit(e) for e in ex])
            elif (abs(got[0]) if isinstance(want, bool) else got[0]) != want:
                r.violation(key, '%s: is %s, required %s' % (what, got[0], want), where)
            else:
                r.ok('abstract interpretation of the tables')
        H = 'exception.hpp'
        for e in range(0, 11):
            n = ENAMES[e]
            for k in range(5):
                expect('equivalent/%s/%s' % (n, ACTIONS[k]), 'vp_equiv', (e, k), ACT[e] == k, 'equivalent(%s, %s)' % (n, ACTIONS[k]), H)
            expect('action/' + n, 'vp_act', (e,), ACT[e], 'make_safe_numerics_action(%s)' % n, 'exception_policies.hpp')
            expect('value/' + n, 'vp_code', (e,), e, 'make_error_code(%s).value()' % n, H)
            for f in range(0, 11):
                expect('eq/%s/%s' % (n, ENAMES[f]), 'vp_eqcode', (e, f), int(e == f), 'error codes %s == %s' % (n, ENAMES[f]), H)
            for fn, what in (('vp_lit', 'literal_string'), ('vp_msg', 'message')):
                key = '%s/%s' % (what, n)
                try:
                    ex = go(fn, e)
                    if len(ex) == 1 and ex[0].kind in ('assert', 'ub', 'unreachable'):
                        r.violation(key, '%s(%s): %s' % (what, n, ex[0].kind), H)
                        continue
                    if fn == 'vp_lit':
                        p = ex[0].val[0]
                    else:
                        evs = [v for v in ex[0].events if v[0] == 'string']
                        p = evs[0][1][1] if len(evs) == 1 else None
                    s = cstring(mod, p) if len(ex) == 1 else None
                except (absint.Imprecise, ir.IRError, KeyError, IndexError, AttributeError, TypeError) as x:
                    r.undecide(key, repr(x)[:200])
                    continue
                if s is None:
                    r.undecide(key, 'string not found')
                elif norm(s) != norm(n):
                    r.violation(key, '%s(%s) is "%s"' % (what, n, s), H)
                else:
                    r.ok('abstract interpretation of the tables')
        for fn, what in (('vp_cat', 'make_error_code'), ('vp_cat2', 'safe_numerics_error_category'), ('vp_cat3', 'safe_numerics_actions_category')):
            key = 'category/' + what
            try:
                ex = go(fn, 1)
                p = ex[0].val[0]
            except (absint.Imprecise, ir.IRError, KeyError, IndexError, AttributeError, TypeError) as x:
                r.undecide(key, repr(x)[:200])
                continue
            if not (isinstance(p, tuple) and p[0] == 'ptr' and p[1]):
                r.undecide(key, 'category object not found')
            elif re.match(r'(internal|private)\b', gtext(mod, p[1])):
                r.violation(key, 'the category object %s has internal linkage: every translation unit has its own, so error codes of different '
                            'translation units never compare equal' % p[1][:80], H)
            else:
                r.ok('category object shared between translation units')
        for e in range(1, 11):
            for fn in ('disp', 'disr'):
                key = 'dispatch/%s/%s' % (fn, ENAMES[e])
                try:
                    ex = go('vp_%s_%d' % (fn, e), 0)
                    evs = [[(v[1][0].const(), v[1][1].const()) for v in x.events if v[0] == 'vp_note'] for x in ex]
                except (absint.Imprecise, ir.IRError, KeyError, IndexError, AttributeError, TypeError) as x:
                    r.undecide(key, repr(x)[:200])
                    continue
                want = [(KIND[ACT[e]], e)]
                if len(evs) == 1 and evs[0] == want and ex[0].kind == 'ret':
                    r.ok('dispatch calls exactly the handler of the error, once')
                else:
                    r.violation(key, 'error %s reaches handlers (policy slot, code) %s; required %s' % (ENAMES[e], evs, want), 'safe_base_operations.hpp')
    except BuildError as be:
        r.undecide('tables/compile', 'probe does not compile: %s' % (re.search(r'error: .*', str(be)) or [''])[0])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    r.finish('every error code (11) against every action (5), literal_string, message, make_safe_numerics_action, make_error_code, '
             'equality of error codes, category identity and run-time dispatch', ['clang 18 lowering, C++14'])
