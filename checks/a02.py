"""A02: + - * / % under automatic promotion."""
from ops import *

# constrained ranges: (lo, hi, signed)
RANGES = [(0, 0, 1), (5, 5, 1), (-1, 1, 1), (0, 100, 1), (-100, 100, 1), (1, 10, 1), (-10, -1, 1), (5, 10, 1), (3, 7, 1),
          (100, 300, 1), (-40000, 40000, 1), (2**31 - 1, 2**31, 1), (0, 2**63 - 1, 1), (-2**63, -1, 1), (2**62, 2**63 - 1, 1),
          (0, 1, 0), (3, 7, 0), (5, 10, 0), (200, 300, 0), (1, 65535, 0), (2**31, 2**32 - 1, 0), (2**63, 2**64 - 1, 0),
          (1, 2**64 - 1, 0)]


def operands(P):
    return [safe(t, P) for t in STD8] + [srange(l, h, s, P) for l, h, s in RANGES]


def pairs(P, full):
    ops = operands(P)
    out = []
    std, rg = ops[:8], ops[8:]
    for a in std:
        for b in std:
            out.append((a, b))
        out.append((a, builtin('i32')))
        out.append((builtin('u16'), a))
    for i, a in enumerate(rg):
        for j, b in enumerate(rg):
            if full or (i * 7 + j * 3) % 4 == 0:
                out.append((a, b))
        for j, b in enumerate(std):
            if full or (i + j) % 4 == 0:
                out.append((a, b))
                out.append((b, a))
    seen, o = set(), []
    for a, b in out:
        if (a.key, b.key) not in seen:
            seen.add((a.key, b.key))
            o.append((a, b))
    return o


def build(r, P, prs, ops=('add', 'sub', 'mul', 'div', 'mod'), wide=None):
    keys = {}
    for a, b in prs:
        for op in ops:
            keys[opname(op, a, b)] = (op, a, b)
    res, bad = query([(k, texpr(*v)) for k, v in keys.items()])
    ents = []
    for k, (op, a, b) in keys.items():
        if k in QUERIED:
            continue
        if k in bad:
            m = re.search(r'error: .*', bad[k])
            if op in ('div', 'mod') and b.lo == b.hi == 0:
                r.ok('division by a constant zero does not compile')      # no value to divide by
                continue
            r.violation(k + '/compiles', 'documented operation does not compile: %s' % (m.group(0) if m else bad[k][:200]))
            continue
        rt = res[k]
        if wide:
            wide(r, k, op, a, b, rt)
        ents.append(arith_entry(op, a, b, rt))
    n = max(1, min(64, len(ents) // 24 + 1))
    return [Job('j%d' % i, ents[i::n]) for i in range(n)]


def wide(r, k, op, a, b, rt):
    h = hull(op, (a.lo, a.hi), (b.lo, b.hi))
    if h is None:
        return
    uns = not signed(a.pty) and not signed(b.pty) and op != 'sub'
    l, u = (0, 2**64 - 1) if uns else (-2**63, 2**63 - 1)
    if op in ('div', 'mod') and (a.hi > u or b.hi > u or a.lo < l or b.lo < l):
        return                           # an operand itself may be rejected
    if a.hi > u or b.hi > u or a.lo < l or b.lo < l:
        return
    if max(h[0], l) < rt.blo or min(h[1], u) > rt.bhi:
        r.violation(k + '/wide', 'result type %r cannot hold the results [%d,%d] although a standard integer type can' % (rt, h[0], h[1]),
                    'automatic.hpp')
    else:
        r.ok('automatic result type holds every result a 64 bit type can hold')


def main():
    r = Report('A02')
    jobs = build(r, 'automatic', pairs('automatic', TIER == 'thorough'), wide=wide)
    r.absorb(run_jobs(jobs))
    r.finish('pairs of standard integer types and of constrained ranges under automatic promotion, five operators; result type '
             'read from the type-checked program, values decided by abstract interpretation',
             ['LP64 data model, clang 18 lowering, C++14'])
