"""K01: comparison of safe values."""
from ops import *
import a04

CMP = {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>=', 'eq': '==', 'ne': '!='}
TRUE = {'lt': '-', 'le': '-=', 'gt': '+', 'ge': '+=', 'eq': '=', 'ne': '-+'}
CPP = {'z80': 'cpp<8,16,16,32,64>', 'llp': 'cpp<8,16,32,32,64>'}


def cmp_entry(op, a, b, lo, hi, tag):
    """lo,hi: range of the type in which the policy compares; an operand outside may be reported instead"""
    n = 'n_%s_%s_%s%s' % (op, a.key, b.key, tag)
    code = 'void %s(%s t, %s u){ bool r = (%s %s %s); vp_result = r; }' % (n, cxx(a.pty), cxx(b.pty), a.make('t'), CMP[op], b.make('u'))

    def regs(x, y):
        out = []
        for tagc, cons in outside_cells(x, y, (a.lo, a.hi), (b.lo, b.hi), lo, hi):
            for s, l, h in (('-', None, -1), ('=', 0, 0), ('+', 1, None)):
                v = Val(1 if s in TRUE[op] else 0)
                out.append(R_(tagc + 't-u' + s, cons + [(x - y, l, h)], OneOf(v, Hnd({0})) if tagc else v))
        return out
    return Entry(n, [('t', a.param), ('u', b.param)], code, regs)


def main():
    r = Report('K01')
    full = TIER == 'thorough'
    rnd = random.Random(SEED)
    items, qs = [], []
    for P, pn in (('native', 'n'), ('automatic', 'a')) + tuple((v, k) for k, v in CPP.items()):
        T = STD8 + ['ll', 'ull']
        prs = []
        for i, x in enumerate(T):
            for j, y in enumerate(T):
                if pn not in 'na' and not full and (i + j) % 3:
                    continue
                prs.append((safe(x, P), safe(y, P)))
                if full or (pn == 'n' and (i + 2 * j) % 3 == 0) or (i + j) % 7 == 0:
                    prs += [(safe(x, P), builtin(y)), (builtin(x), safe(y, P))]
        rg = [srange(l, h, s, P) for l, h, s in a04.RANGES]
        lits = [literal(v, s) for v, s in a04.LITS]
        for i, x in enumerate(rg):
            for j, y in enumerate(rg + lits + [safe(t, P) for t in STD8]):
                if full or (3 * i + 5 * j) % (17 if pn in 'na' else 61) == 0:
                    prs += [(x, y)] + ([(y, x)] if j >= len(rg) else [])
        for i, x in enumerate([safe(t, P) for t in STD8]):
            for j, y in enumerate(lits):
                if full or (i + j) % 4 == 0:
                    prs += [(x, y), (y, x)]
        prs += [(srange(*a04.rand_range(rnd), P=P), srange(*a04.rand_range(rnd), P=P)) for _ in range(200 if full else 10)]
        for a, b in prs:
            k = 'q_%s_%s_%s' % (pn, a.key, b.key)
            items.append((k, pn, a, b))
            B = 'decltype(base_value(std::declval<const %s&>()))'
            if pn == 'n':
                qs.append((k, 'decltype(std::declval<std::decay_t<%s>>() + std::declval<std::decay_t<%s>>())' % (B % a.ty, B % b.ty)))
            elif pn != 'a':
                qs.append((k, 'typename %s::template addition_result<%s,%s>::type' % (P, a.ty, b.ty)))
    if SAMPLE:
        names = pick(k for k, *_ in items)
        items, qs = [x for x in items if x[0] in names], [x for x in qs if x[0] in names]
    res, bad = query(qs)
    ents, seen = [], set()
    for n, (k, pn, a, b) in enumerate(items):
        if pn == 'a':
            lo, hi = (0, 2**64 - 1) if not signed(a.pty) and not signed(b.pty) else (-2**63, 2**63 - 1)
        elif k in bad:
            raise SystemExit('query failed: %s %s' % (k, bad[k][:400]))
        else:
            lo, hi = res[k].blo, res[k].bhi
        ops = list(CMP) if full or a.key[0] == b.key[0] == 's' and pn in 'na' else [list(CMP)[(n + i * 2 + (n // 6) % 2 * i) % 6] for i in range(3)]
        for op in ops:
            e = cmp_entry(op, a, b, lo, hi, '_' + pn)
            if e.name not in seen:
                seen.add(e.name)
                ents.append(e)
    n = max(8, len(ents) // 60)
    r.absorb(run_jobs([Job('j%d' % i, ents[i::n]) for i in range(n)]))
    r.finish('six comparison operators over pairs of standard types, built-in operands, ranges and literals under native, automatic and two cpp<> policies: '
             'the mathematical truth value, or the handler only if an operand cannot be represented in the type the policy compares in',
             ['LP64 data model, clang 18 lowering, C++14'])
