"""Type-level witnesses: snippets that must compile, or must not, decided by the compiler front ends on /repo's headers."""
from vp import *

GXX = shutil.which('g++') or 'g++'


class Wit:
    """key; code at namespace scope; ok: must compile / must be rejected; what: the rule; twin: a snippet of the same form
    that must compile (so that a rejection is not caused by the form itself)"""

    def __init__(self, key, code, ok=True, what='', where='', pre=''):
        self.key, self.code, self.ok, self.what, self.where, self.pre = key, code, ok, what, where, pre


def _ident(i):
    return 'namespace w%d { %s }' % (i, '%s')


def _src(ws):
    return ''.join('#line 1 "%s"\nnamespace w_%d {\n%s\n}\n' % (w.key, i, w.code) for i, w in enumerate(ws))


def _cmd(cc, std, pch):
    if cc == 'clang':
        return [CLANG, '-std=' + std, '-w', '-ferror-limit=3'] + MFLAGS + INC + (['-include-pch', pch] if pch else []) + ['-fsyntax-only', '-x', 'c++', '-']
    return [GXX, '-std=' + std, '-w', '-fmax-errors=3'] + INC + ['-fsyntax-only', '-x', 'c++', '-']


def _firsterr(s):
    m = re.search(r'(?:fatal )?error: .*', s)
    k = re.search(r'static_assert\(.*', s)
    if m and k:
        return (m.group(0) + ': ' + k.group(0))[:400]
    return m.group(0)[:300] if m else s[:300]


def _job(a):
    kind, ws, cc, std, pch, pre = a
    out = []
    stack = [list(ws)]
    while stack:
        cur = stack.pop()
        src = wide(('' if pch else pre) + '\n' + _src(cur))
        r = run(_cmd(cc, std, pch), input=src)
        if kind == 'ok':
            if r.returncode == 0:
                out += [(w.key, True, '') for w in cur]
            elif len(cur) == 1:
                out.append((cur[0].key, False, _firsterr(r.stderr)))
            else:
                h = len(cur) // 2
                stack += [cur[:h], cur[h:]]
        else:
            if len(cur) > 1:
                stack += [[w] for w in cur]
                continue
            out.append((cur[0].key, r.returncode == 0, _firsterr(r.stderr) if r.returncode else ''))
    return cc, kind, out


def decide_wits(r, wits, pre=PRELUDE, std='c++14', compilers=('clang', 'g++'), fail_compilers=('clang',), procs=8, rule='type-level witness',
                tolerate=None):
    """tolerate(w, error): a rejected must-compile witness that is not a violation"""
    seen = set()
    ws = []
    wits = list(wits)
    names = pick(w.key for w in wits) if SAMPLE else ()
    procs = int(os.environ.get('VP_PROCS', procs))
    std = os.environ.get('VP_STD', std)
    if MODEL != 'lp64':
        compilers = [c for c in compilers if c == 'clang']
        fail_compilers = [c for c in fail_compilers if c == 'clang']
    for w in wits:
        if w.key not in seen and (not SAMPLE or w.key in names):
            seen.add(w.key)
            ws.append(w)
    d = scratch()
    try:
        hp = os.path.join(d, 'pre.hpp')
        pre = wide(pre)
        open(hp, 'w').write(pre)
        pch = os.path.join(d, 'pre.pch')
        x = run([CLANG, '-std=' + std, '-w'] + MFLAGS + INC + ['-x', 'c++-header', hp, '-o', pch])
        if x.returncode:
            r.violation('headers/compile', 'the library headers do not compile: ' + _firsterr(x.stderr))
            return {}
        by = {w.key: w for w in ws}
        jobs = []
        oks = [w for w in ws if w.ok]
        bad = [w for w in ws if not w.ok]
        for cc in compilers:
            k = 50
            for i in range(0, len(oks), k):
                jobs.append(('ok', oks[i:i + k], cc, std, pch if cc == 'clang' else None, pre))
        for cc in fail_compilers:
            for i in range(0, len(bad), 12):
                jobs.append(('bad', bad[i:i + 12], cc, std, pch if cc == 'clang' else None, pre))
        ctx = mp.get_context('fork')
        got = {}
        with ctx.Pool(procs) as p:
            for cc, kind, out in p.imap_unordered(_job, jobs):
                for key, comp, msg in out:
                    w = by[key]
                    got[(key, cc)] = comp
                    if comp == w.ok:
                        r.ok('%s (%s, must %scompile)' % (rule, cc, '' if w.ok else 'not '))
                    elif w.ok:
                        if tolerate and tolerate(w, msg):
                            r.undecide(key + '/' + cc, msg)
                        else:
                            r.violation(key, '%s - rejected by %s: %s' % (w.what, cc, msg), w.where)
                    else:
                        r.violation(key, '%s - accepted by %s' % (w.what, cc), w.where)
        r.entries |= seen
        return got
    finally:
        shutil.rmtree(d, ignore_errors=True)
