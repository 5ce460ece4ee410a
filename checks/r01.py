"""R01: the value of every expression lies within the declared range of its type."""
from ops import *
import a02
import a04

OPS = ('add', 'sub', 'mul', 'div', 'mod', 'shl', 'shr', 'and', 'or', 'xor')
SHIFTS = [(0, 7, 0), (0, 3, 1), (1, 4, 1), (0, 31, 0), (0, 63, 0), (-2, 5, 1), (8, 20, 0), (2, 2, 1), (0, 0, 0)]


def within(op, a, b, rt, tag=''):
    n = opname(op, a, b, tag)
    code = 'void %s(%s t, %s u){ vp_result = base_value%s; }' % (n, cxx(a.pty), cxx(b.pty), expr(op, a, b))
    exp = OneOf(ValIn(rt.lo, rt.hi), Hnd({0, 1, 2}))

    def regs(x, y):
        out = []
        for n1, l1, h1 in (('t<0 ', None, -1), ('t>=0 ', 0, None)):
            for n2, l2, h2 in (('u<0', None, -1), ('u=0', 0, 0), ('u>0', 1, None)):
                out.append(R_(n1 + n2, [(x, l1, h1), (y, l2, h2)], exp))
        return out
    return Entry(n, [('t', a.param), ('u', b.param)], code, regs)


def un_within(sym, nm, a, rt):
    n = 'n_%s_%s' % (nm, a.key)
    code = 'void %s(%s t){ vp_result = base_value(%s(%s)); }' % (n, cxx(a.pty), sym, a.make('t'))
    exp = OneOf(ValIn(rt.lo, rt.hi), Hnd({0, 1, 2}))

    def regs(x):
        return [R_('t<0', [(x, None, -1)], exp), R_('t>=0', [(x, 0, None)], exp)]
    return Entry(n, [('t', a.param)], code, regs)


def main():
    r = Report('R01')
    full = TIER == 'thorough'
    rnd = random.Random(SEED)
    items = {}
    for pi, P in enumerate(('native', 'automatic')):
        std = [safe(t, P) for t in STD8]
        rg = [srange(l, h, s, P) for l, h, s in a04.RANGES]
        sh = [srange(l, h, s, P) for l, h, s in SHIFTS]
        lits = [literal(v, s) for v, s in a04.LITS]
        prs = [(a, b) for a in std for b in std]
        prs += [(a, builtin(t)) for a in std for t in STD8] if full else [(a, builtin('i32')) for a in std]
        for i, a in enumerate(rg):
            for j, b in enumerate(rg + std + lits):
                if full or (i * 5 + j * 3 + pi) % 31 == 0:
                    prs += [(a, b)] + ([(b, a)] if j >= len(rg) else [])
        prs += [(srange(*a04.rand_range(rnd), P=P), srange(*a04.rand_range(rnd), P=P)) for _ in range(300 if full else 12)]
        shp = [(a, b) for i, a in enumerate(std + rg) for j, b in enumerate(sh + [builtin('i32'), builtin('u8')]) if full or (i + j) % 9 == 0]
        for op in OPS:
            for a, b in prs + (shp if op in ('shl', 'shr') else []):
                if op in ('shl', 'shr') and not full and (a, b) not in shp and not (a.key[0] == 's' and b.key[0] == 's'):
                    continue
                tag = '_' + P[0]
                items[opname(op, a, b, tag)] = ('b', op, a, b, tag)
        for a in std + rg:
            for sym, nm in (('-', 'neg'), ('+', 'pos'), ('~', 'not')):
                items['n_%s_%s%s' % (nm, a.key, '_' + P[0])] = ('u', sym, nm + '_' + P[0], a, None)
    qs = []
    for k, v in items.items():
        if v[0] == 'b':
            qs.append((k, texpr(v[1], v[2], v[3])))
        else:
            qs.append((k, 'decltype(%sstd::declval<const %s&>())' % (v[1], v[3].ty)))
    res, bad = query(qs)
    ents = []
    nb = []
    for k, v in items.items():
        if k not in res:
            # whether an operation compiles is a matter of the other properties; here only its result is
            nb.append(k)
            continue
        ents.append(within(v[1], v[2], v[3], res[k], v[4]) if v[0] == 'b' else un_within(v[1], v[2], v[3], res[k]))
    r.extra['not_compiling'] = len(nb)
    r.extra['not_compiling_samples'] = nb[:20]
    n = max(8, len(ents) // 60)
    r.absorb(run_jobs([Job('j%d' % i, ents[i::n]) for i in range(n)]))
    r.finish('ten binary and three unary operators over pairs of standard types, ranges, literals and built-in operands, native and automatic '
             'promotion: every returned value within [numeric_limits::min(), max()] of the static result type',
             ['LP64 data model, clang 18 lowering, C++14'])
