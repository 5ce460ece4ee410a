"""E01: the error handler of the right kind is called exactly once for every error, and never otherwise."""
from ops import *
import a04
from c02 import shr_term

KIND = {POS: 0, NEG: 0, DOMAIN: 0, RANGE: 0, PREC: 0, UNDER: 0, NEGVALSHIFT: 1, NEGSHIFT: 1, TOOLARGE: 1, UNINIT: 3}
ARITH = {POS, NEG, DOMAIN, RANGE, PREC, UNDER}
SHIFT = {NEGVALSHIFT, NEGSHIFT, TOOLARGE}


def notes(ex):
    o = []
    for e in ex.events:
        if e[0] == 'vp_note':
            k, c = [ex.st.simp(a).const() if isinstance(a, Poly) else None for a in e[1][:2]]
            o.append((k, c))
    return o


def Once(codes, most=1, least=1):
    codes = set(codes)

    def f(ex, an):
        n = notes(ex)
        if any(k is None or c is None for k, c in n):
            return None
        if not (least <= len(n) <= most):
            return False
        return all(c in codes and k == KIND.get(c) for k, c in n)
    return Pred(f, '%s error handler call of the right kind with code in {%s}' % (
        'exactly one' if most == 1 else 'one or more', ','.join(ENAMES[c] for c in sorted(codes))))


def never(ex, an):
    return ex.kind == 'ret' and not notes(ex)


Never = Pred(never, 'no error handler call')


def arith(op, a, b, rt, tag):
    n = opname(op, a, b, tag)
    code = '%s %s(%s t, %s u){ return base_value%s; }' % ('vp_t_' + n, n, cxx(a.pty), cxx(b.pty), expr(op, a, b))
    code = 'auto %s(%s t, %s u){ return base_value%s; }' % (n, cxx(a.pty), cxx(b.pty), expr(op, a, b))
    lo, hi = rt.blo, rt.bhi

    def err(c):
        # below an unsigned range: reported as negative overflow or domain error
        return Once({DOMAIN} if c == DOMAIN else {POS} if c == POS else {NEG} | ({DOMAIN, RANGE} if lo == 0 else set()))

    def regs(x, y):
        out = []
        for tagc, cons in outside_cells(x, y, (a.lo, a.hi), (b.lo, b.hi), lo, hi):
            if tagc:
                out.append(R_(tagc.strip() or 'operand', cons, Once(ARITH, 3, 0)))
            else:
                out += [R_(q.name, cons + q.cons, q.expect) for q in op_regions(op, x, y, lo, hi, err, lambda p: Never)]
        return out
    return Entry(n, [('t', a.param), ('u', b.param)], code, regs)


def shift(op, t, u, tag):
    a, b = safe(t, 'native', 'EPN'), safe(u, 'native', 'EPN')
    n = opname(op, a, b, tag)
    code = 'auto %s(%s t, %s u){ return base_value%s; }' % (n, cxx(t), cxx(u), expr(op, a, b))
    R = promote(t)
    W = bits(R)
    lo, hi = rng(R)

    def regs(x, y):
        S = Once(SHIFT | ARITH if bits(u) > W or signed(u) != signed(R) else SHIFT, 3)
        o = [R_('count<0', [(y, None, -1)], S), R_('count>=width', [(y, W, hi)], Once(SHIFT)), R_('count>max', [(y, hi + 1, None)], S)]
        if op == 'shl':
            o.append(R_('negative value', [(x, None, -1), (y, 1, W - 1)], Once(SHIFT)))
            for k in range(0, W):
                e = x * (1 << k)
                o.append(R_('count %d fits' % k, [(y, k, k), (x, 1, None), (e, lo, hi)], Never))
                o.append(R_('count %d overflows' % k, [(y, k, k), (x, 1, None), (e, hi + 1, None)], Once(SHIFT)))
        else:
            o.append(R_('negative value', [(x, None, -1), (y, 0, W - 1)], Once(SHIFT)))
            o.append(R_('fine', [(x, 0, None), (y, 0, W - 1)], Never))
        return o
    return Entry(n, [('t', t), ('u', u)], code, regs)


def conv(src, tgt, form):
    n = 'n_%s_%s_from_%s' % (form, tgt.key, src.key)
    mk = src.make('t')
    if form == 'ctor':
        body = 'return base_value(%s(%s));' % (tgt.ty, mk)
    elif form == 'asgn':
        body = '%s x(%s); x = %s; return base_value(x);' % (tgt.ty, num(tgt.lo) if signed(tgt.pty) else '%dUL' % tgt.lo, mk)
    code = 'auto %s(%s t){ %s }' % (n, cxx(src.pty), body)

    def regs(x):
        return range_regions(x, tgt.lo, tgt.hi, Never, Once({NEG, DOMAIN, RANGE}), Once({POS}))
    return Entry(n, [('t', src.param)], code, regs)


def toint(src, R):
    n = 'n_toint_%s_%s' % (R, src.key)
    code = '%s %s(%s t){ return static_cast<%s>(%s); }' % (cxx(R), n, cxx(src.pty), cxx(R), src.make('t'))
    lo, hi = rng(R)

    def regs(x):
        return range_regions(x, lo, hi, Never, Once({NEG, DOMAIN, RANGE}), Once({POS}))
    return Entry(n, [('t', src.param)], code, regs)


def main():
    r = Report('E01')
    full = TIER == 'thorough'
    E = 'EPN'
    items, qs, ents = [], [], []
    rgs = [(-100, 100, 1), (0, 100, 1), (1, 10, 1), (-10, -1, 1), (-40000, 40000, 1), (0, 2**32 - 1, 0), (3, 7, 0), (200, 300, 0), (2**62, 2**63 - 1, 1)]
    for P, pn in (('native', 'n'), ('automatic', 'a')):
        std = [safe(t, P, E) for t in STD8]
        rg = [srange(l, h, s, P, E) for l, h, s in rgs]
        prs = [(a, b) for i, a in enumerate(std) for j, b in enumerate(std) if full or pn == 'n' or (i + j) % 3 == 0]
        prs += [(a, builtin(t)) for i, a in enumerate(std) for j, t in enumerate(STD8) if full or (i + 3 * j) % 4 == 0]
        prs += [(builtin(t), a) for i, a in enumerate(std) for j, t in enumerate(STD8) if full or (i + 3 * j) % 4 == 1]
        prs += [(a, b) for i, a in enumerate(rg) for j, b in enumerate(rg + std) if full or (i * 2 + j * 3) % 5 == 0]
        prs += [(a, literal(v, 1)) for a in std for v in (7, -1)]
        for op in ('add', 'sub', 'mul', 'div', 'mod'):
            for a, b in a04.dedupe(prs):
                items.append((op, a, b, '_' + pn))
                qs.append((opname(op, a, b, '_' + pn), texpr(op, a, b)))
    res, bad = query(qs)
    for op, a, b, tag in items:
        k = opname(op, a, b, tag)
        if k in QUERIED:
            continue
        if k in bad:
            r.violation(k + '/compiles', 'operation does not compile: ' + (re.search('error: .*', bad[k]) or [bad[k][:200]])[0])
            continue
        ents.append(arith(op, a, b, res[k], tag))
    for i, t in enumerate(STD8):
        for j, u in enumerate(STD8):
            if full or (i + j) % 2 == 0:
                ents += [shift('shl', t, u, ''), shift('shr', t, u, '')]
    std = [safe(t, 'native', E) for t in STD8]
    rg = [srange(l, h, s, 'native', E) for l, h, s in rgs]
    for i, tg in enumerate(std + rg):
        for j, s in enumerate([builtin(t) for t in STD8] + std + rg):
            if s.hi < tg.lo or s.lo > tg.hi or s.key == tg.key:
                continue
            for f in ('ctor', 'asgn'):
                if full or (i + j + len(f)) % 2 == 0:
                    ents.append(conv(s, tg, f))
    for s in std + rg:
        for R in STD8:
            if not (s.hi < tmin(R) or s.lo > tmax(R)):
                ents.append(toint(s, R))
    for t in std + rg[:2]:
        n = 'n_uninit_%s' % t.key
        ents.append(Entry(n, [('z', (0, 0, 32))], 'void %s(int z){ %s x; (void)x; }' % (n, t.ty), lambda z: [R_('default construction', [], Once({UNINIT}))]))
    n = max(8, len(ents) // 40)
    r.absorb(run_jobs([Job('j%d' % i, ents[i::n]) for i in range(n)]))
    r.finish('with a policy whose four handlers all return: arithmetic, shifts, conversions and default construction; in every region of the operands the '
             'sequence of handler calls must be empty, or exactly one call of the slot and with a code that matches the error',
             ['LP64 data model, clang 18 lowering, C++14'])
