"""Shared generators: compile time queries and binary operators on arbitrary safe types."""
import re
from vp import *
from spec import *

SYM = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'mod': '%', 'shl': '<<', 'shr': '>>', 'and': '&', 'or': '|', 'xor': '^'}

QPRE = r'''
template<class X> struct vp_q {
    using B = decltype(base_value(std::declval<X>()));
    using L = std::numeric_limits<X>;
    static constexpr unsigned long long mn(){ return static_cast<unsigned long long>(base_value(L::min())); }
    static constexpr unsigned long long mx(){ return static_cast<unsigned long long>(base_value(L::max())); }
};
'''


class RT:
    """static facts on the type of an expression: base type width/sign, declared range"""

    def __init__(self, v):
        self.sgn, self.bits, mn, mx, self.isint = bool(v[0]), v[1], v[2], v[3], bool(v[4])
        if not self.sgn:
            mn, mx = mn % (1 << 64), mx % (1 << 64)
        self.lo, self.hi = mn, mx
        self.blo = -(1 << (self.bits - 1)) if self.sgn else 0
        self.bhi = (1 << (self.bits - 1)) - 1 if self.sgn else (1 << self.bits) - 1

    def __repr__(self):
        return '%s%d[%d,%d]' % ('i' if self.sgn else 'u', self.bits, self.lo, self.hi)


def _query(args):
    exprs, extra = args
    d = scratch()
    try:
        def attempt(es):
            src = PRELUDE + QPRE + extra + '\n'
            for k, e in es:
                src += ('extern "C" const long long vp_k_%s[5] = { std::is_signed<vp_q<%s>::B>::value, sizeof(vp_q<%s>::B)*8, '
                        '(long long)vp_q<%s>::mn(), (long long)vp_q<%s>::mx(), std::is_integral<vp_q<%s>::B>::value };\n' % ((k,) + (e,) * 5))
            p = os.path.join(d, 'q.cpp')
            open(p, 'w').write(wide(src))
            r = run([CLANG, '-std=' + os.environ.get('VP_STD', 'c++14'), '-w'] + MFLAGS + INC + ['-S', '-emit-llvm', '-o', '-', p])
            if r.returncode:
                return None, r.stderr
            out = {}
            for m in re.finditer(r'^@vp_k_(\w+) = .*?constant \[5 x i64\] (\[[^\]]*\]|zeroinitializer)', r.stdout, re.M):
                v = [int(x) for x in re.findall(r'i64 (-?\d+)', m.group(2))] or [0] * 5
                out[m.group(1)] = RT(v)
            return out, ''
        todo = [list(exprs)]
        res, bad = {}, {}
        while todo:
            es = todo.pop()
            out, err = attempt(es)
            if out is not None:
                res.update(out)
            elif len(es) == 1:
                bad[es[0][0]] = err[:1500]
            else:
                h = len(es) // 2
                todo += [es[:h], es[h:]]
        return res, bad
    finally:
        shutil.rmtree(d, ignore_errors=True)


def query(exprs, extra='', procs=8, chunk=64):
    """exprs: [(key, type expression)] -> ({key: RT}, {key: compiler message})"""
    procs = int(os.environ.get('VP_PROCS', procs))
    if SAMPLE and os.environ.get('VP_QS'):
        names = pick(k for k, e in exprs)
        QUERIED.update(k for k, e in exprs if k not in names)
        exprs = [x for x in exprs if x[0] in names]
    chunks = [(exprs[i:i + chunk], extra) for i in range(0, len(exprs), chunk)]
    ctx = mp.get_context('fork')
    res, bad = {}, {}
    with ctx.Pool(procs) as p:
        for a, b in p.imap_unordered(_query, chunks):
            res.update(a)
            bad.update(b)
    return res, bad


class Operand:
    """a parameter of a wrapper: C++ type of the parameter, range, expression making the operand, its type"""

    def __init__(self, key, pty, lo, hi, expr, ty):
        self.key, self.pty, self.lo, self.hi, self.expr, self.ty = key, pty, lo, hi, expr, ty
        b, s = bits(pty), signed(pty)
        self.param = (lo, hi, b)

    def make(self, v):
        return self.expr.replace('$', v)


def builtin(t):
    return Operand(t, t, tmin(t), tmax(t), '$', cxx(t))


def safe(t, P='native', E='EP'):
    ty = 'safe<%s,%s,%s>' % (cxx(t), P, E)
    return Operand('s' + t, t, tmin(t), tmax(t), ty + '($)', ty)


def num(v):
    """a C++ integer constant expression of exact value v"""
    if v == -2**63:
        return '(-9223372036854775807L-1)'
    if v < 0:
        return '(-%dL)' % -v
    return '%d%s' % (v, 'UL' if v > 2**63 - 1 else 'L')


def mini(lo, hi, sgn):
    for b in (8, 16, 32, 64):
        l, h = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if sgn else (0, (1 << b) - 1)
        if l <= lo and hi <= h:
            return ('i' if sgn else 'u') + str(b)
    raise ValueError((lo, hi, sgn))


def srange(lo, hi, sgn, P='native', E='EP'):
    t = mini(lo, hi, sgn)
    n = lambda v: num(v) if sgn else num(v) if v > 2**63 - 1 else '%dUL' % v
    ty = '%s<%s,%s,%s,%s>' % ('safe_signed_range' if sgn else 'safe_unsigned_range', n(lo), n(hi), P, E)
    key = ('r' if sgn else 'q') + '%s_%s' % (str(lo).replace('-', 'm'), str(hi).replace('-', 'm'))
    return Operand(key, t, lo, hi, ty + '($)', ty)


def tdivi(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def hull(op, a, b):
    """exact interval hull of a op b (a, b: (lo,hi)); None when no defined result"""
    (al, ah), (bl, bh) = a, b
    if op == 'add':
        return al + bl, ah + bh
    if op == 'sub':
        return al - bh, ah - bl
    if op == 'mul':
        c = [x * y for x in a for y in b]
        return min(c), max(c)
    ds = []
    for l, h in ((bl, min(bh, -1)), (max(bl, 1), bh)):
        if l <= h:
            ds += [l, h]
    if not ds:
        return None
    if op == 'div':
        c = [tdivi(x, y) for x in a for y in ds] + ([0] if al <= 0 <= ah else [])
        return min(c), max(c)
    if op == 'mod':
        m = max(abs(d) for d in ds) - 1
        return (max(al, -m) if al < 0 else 0 if al == 0 or m >= 0 else al), (min(ah, m) if ah > 0 else 0)
    raise KeyError(op)


def opname(op, a, b, tag=''):
    return 'n_%s_%s_%s%s' % (op, a.key, b.key, tag)


def expr(op, a, b):
    return '(%s %s %s)' % (a.make('t'), SYM[op], b.make('u'))


def texpr(op, a, b):
    return 'decltype(std::declval<const %s&>() %s std::declval<const %s&>())' % (a.ty, SYM[op], b.ty)


def arith_entry(op, a, b, rt, tag='', allow_reject=True):
    """exact value in rt's base type, or the handler"""
    n = opname(op, a, b, tag)
    code = 'void %s(%s t, %s u){ vp_result = base_value%s; }' % (n, cxx(a.pty), cxx(b.pty), expr(op, a, b))
    lo, hi = rt.blo, rt.bhi

    def regs(x, y):
        return op_regions(op, x, y, lo, hi, lambda c: Hnd({0}), None, Hnd({0}) if allow_reject else None,
                          (a.lo, a.hi), (b.lo, b.hi))
    return Entry(n, [('t', a.param), ('u', b.param)], code, regs)


def literal(v, sgn, P='void', E='void'):
    t = mini(v, v, sgn)
    n = num(v) if sgn or v > 2**63 - 1 else '%dUL' % v
    ty = '%s<%s,%s,%s>' % ('safe_signed_literal' if sgn else 'safe_unsigned_literal', n, P, E)
    key = ('l' if sgn else 'k') + str(v).replace('-', 'm')
    return Operand(key, t, v, v, ty + '()', ty)
