"""A03: + - * / % under the cpp<> promotion policies, with the result types those architectures prescribe."""
from ops import *

ARCH = {'host': (8, 16, 32, 64, 64), 'llp': (8, 16, 32, 32, 64), 'z80': (8, 16, 16, 32, 64), 'pic': (8, 8, 8, 16, 16),
        'c16': (8, 16, 16, 32, 32), 'w64': (8, 16, 64, 64, 64), 'm24': (8, 16, 32, 64, 64)}
del ARCH['m24']
T10 = STD8 + ['ll', 'ull']


def main():
    r = Report('A03')
    full = TIER == 'thorough'
    ents, qs, meta = [], [], {}
    for ai, (an, w) in enumerate(ARCH.items()):
        P = 'cpp<%s>' % ','.join(map(str, w))
        prs = []
        for i, a in enumerate(T10):
            for j, b in enumerate(T10):
                if full or an in ('z80',) or (i + 3 * j + ai) % 3 == 0:
                    prs.append((safe(a, P), safe(b, P)))
                if full or (2 * i + j + ai) % 7 == 0:
                    prs.append((safe(a, P), builtin(b)))
                    prs.append((builtin(a), safe(b, P)))
        rg = [(0, 100, 1), (-100, 100, 1), (1, 10, 1), (-10, -1, 1), (100, 300, 1), (-40000, 40000, 1), (0, 1, 0), (3, 7, 0), (200, 300, 0), (1, 65535, 0),
              (2**31, 2**32 - 1, 0), (2**62, 2**63 - 1, 1), (1, 2**64 - 1, 0)]
        for i, x in enumerate(rg):
            for j, y in enumerate(rg):
                if full or (i * 3 + j + ai) % 11 == 0:
                    prs.append((srange(*x, P=P), srange(*y, P=P)))
        for a, b in prs:
            for op in ('add', 'sub', 'mul', 'div', 'mod'):
                k = opname(op, a, b, '_' + an)
                meta[k] = (op, a, b, an)
                qs.append((k, texpr(op, a, b)))
    res, bad = query(qs)
    for k, (op, a, b, an) in meta.items():
        if k in QUERIED:
            continue
        if k in bad:
            m = re.search(r'error: .*', bad[k])
            r.violation(k + '/compiles', 'arithmetic under a cpp<> policy does not compile: %s' % (m.group(0) if m else bad[k][:200]), 'cpp.hpp')
            continue
        r.ok('compiles')
        ents.append(arith_entry(op, a, b, res[k], '_' + an))
    n = max(8, len(ents) // 40)
    r.absorb(run_jobs([Job('j%d' % i, ents[i::n]) for i in range(n)]))
    r.finish('safe/safe, safe/built-in and range operands over ten integer types under %s; five operators' %
             ', '.join('cpp<%s>' % ','.join(map(str, w)) for w in ARCH.values()), ['LP64 data model, clang 18 lowering, C++14'])
