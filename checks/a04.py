"""A04: + - * / % on range types and literals (native promotion; automatic for the literals)."""
from ops import *
import a02

RANGES = a02.RANGES + [(2, 100, 1), (-5, -3, 1), (-1, -1, 1), (-5, 5, 1), (-128, 127, 1), (0, 255, 1), (-2**31, 2**31 - 1, 1),
                       (-2**31, -1, 1), (-2**63, 2**63 - 1, 1), (-2**63, 0, 1), (1, 1, 0), (0, 100, 0), (2, 16, 0), (0, 255, 0),
                       (0, 2**32 - 1, 0), (0, 2**64 - 1, 0), (1, 255, 0), (-2**31, -2**31 + 5, 1), (30000, 40000, 1), (46340, 46341, 1), (46341, 46342, 1)]
LITS = [(0, 1), (1, 1), (-1, 1), (7, 1), (-100, 1), (127, 1), (128, 1), (-128, 1), (40000, 1), (2**31 - 1, 1), (-2**31, 1), (2**63 - 1, 1),
        (0, 0), (1, 0), (9, 0), (255, 0), (256, 0), (2**32 - 1, 0), (2**64 - 1, 0)]


def rand_range(rnd):
    sgn = rnd.random() < .6
    if sgn:
        k = rnd.choice([8, 16, 32, 64])
        M = 1 << (k - 1)
        c = rnd.choice([0, 1, -1, M - 1, -M, rnd.randint(-M, M - 1), rnd.randint(-50, 50), rnd.randint(-50, 50)])
        d = rnd.choice([0, 1, -1, M - 1, -M, rnd.randint(-M, M - 1), rnd.randint(-50, 50), rnd.randint(-50, 50)])
    else:
        k = rnd.choice([8, 16, 32, 64])
        M = 1 << k
        c = rnd.choice([0, 1, M - 1, rnd.randint(0, M - 1), rnd.randint(0, 50), rnd.randint(0, 50)])
        d = rnd.choice([0, 1, M - 1, rnd.randint(0, M - 1), rnd.randint(0, 50), rnd.randint(0, 50)])
    return min(c, d), max(c, d), int(sgn)


def dedupe(prs):
    seen, o = set(), []
    for a, b in prs:
        if (a.key, b.key) not in seen:
            seen.add((a.key, b.key))
            o.append((a, b))
    return o


def pairs(P, full, rnd):
    std = [safe(t, P) for t in STD8]
    rg = [srange(l, h, s, P) for l, h, s in RANGES]
    out = []
    for i, a in enumerate(rg):
        for j, b in enumerate(rg):
            if full or (i * 5 + j * 3) % 17 == 0 or i == j:
                out.append((a, b))
        for j, t in enumerate(STD8):
            if full or (i + j) % 8 == 0:
                out += [(a, safe(t, P)), (safe(t, P), a), (a, builtin(t)), (builtin(t), a)]
    for i in range(400 if full else 24):
        a, b = srange(*rand_range(rnd), P=P), srange(*rand_range(rnd), P=P)
        out.append((a, b))
    return dedupe(out)


def litpairs(P, full):
    out = []
    for i, (v, s) in enumerate(LITS):
        l = literal(v, s)
        for j, t in enumerate(STD8):
            if full or (i + j) % 5 == 0:
                out += [(l, safe(t, P)), (safe(t, P), l)]
        for j, (lo, hi, sg) in enumerate(RANGES):
            if full or (i + 2 * j) % 23 == 0:
                out += [(srange(lo, hi, sg, P), l), (l, srange(lo, hi, sg, P))]
    return dedupe(out)


def main():
    r = Report('A04')
    full = TIER == 'thorough'
    rnd = random.Random(SEED)
    jobs = a02.build(r, 'native', pairs('native', full, rnd) + litpairs('native', full))
    r.absorb(run_jobs(jobs))
    r2 = a02.build(r, 'automatic', litpairs('automatic', full) + (pairs('automatic', full, rnd) if full else []), wide=a02.wide)
    r.absorb(run_jobs(r2))
    r.finish('pairs of safe_signed_range / safe_unsigned_range / literal / safe / built-in operands under native promotion, and of '
             'literals with safe types and ranges under automatic promotion, five operators; %d declared ranges plus seeded random ones'
             % len(RANGES), ['LP64 data model, clang 18 lowering, C++14'])
