"""python3 tools/mkseed.py specs.py [id...]: make and confirm planted bugs (development tool, not used by any check).
specs.py defines S = [dict(id, prop, file, edits=[(old, new)], demo, needs, breaks, cc=..)]"""
import sys, os, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = 'include/boost/safe_numerics/'
WORK = '/tmp/seedwork'
HEAD = r'''#include <boost/safe_numerics/safe_integer.hpp>
#include <boost/safe_numerics/safe_integer_range.hpp>
#include <boost/safe_numerics/safe_integer_literal.hpp>
#include <boost/safe_numerics/automatic.hpp>
#include <boost/safe_numerics/native.hpp>
#include <boost/safe_numerics/cpp.hpp>
#include <boost/safe_numerics/checked_integer.hpp>
#include <boost/safe_numerics/checked_result_operations.hpp>
#include <boost/safe_numerics/interval.hpp>
#include <boost/safe_numerics/safe_compare.hpp>
#include <sstream>
#include <cstdio>
#include <system_error>
using namespace boost::safe_numerics;
#define CHECK(x) do { if(!(x)){ std::printf("failed: %s\n", #x); ++bad; } } while(0)
static int bad = 0;
template<class F> bool throws(F f){ try { f(); return false; } catch(const std::exception &){ return true; } }
'''
DEMO = '''#!/bin/bash
# run in the top directory of the repository
here="$(cd "$(dirname "$0")" && pwd)"
out="$(mktemp -d)" || exit 2
trap 'find "$out" -mindepth 1 -delete; rmdir "$out"' EXIT
g++ -std=c++14 -O1 -w -I include -I /opt/vp/guard "$here/demo.cpp" -o "$out/demo" || exit 1
timeout 60 "$out/demo"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)


def original(diff):
    """removed lines must be lines of the base commit"""
    base = {}
    cur = None
    for l in diff.splitlines():
        if l.startswith('--- a/'):
            cur = l[6:]
            base[cur] = set(sh('git -C /repo show 64f3762:' + cur).stdout.splitlines())
        elif l.startswith('-') and not l.startswith('---'):
            if l[1:] in base[cur] and l[1:].strip():
                return True
    return False


def main():
    ns = {'D': D}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for s in ns['S']:
        if only and s['id'] not in only:
            continue
        out = os.path.join(V, 'seeded', s['id'])
        if os.path.exists(out) and not only:
            continue
        if os.path.exists(WORK):
            shutil.rmtree(WORK)
        sh('git -C /repo worktree prune; cp -a /repo ' + WORK)
        ok = True
        for f, a, b in s['edits']:
            p = os.path.join(WORK, D + f)
            t = open(p).read()
            n, exact = 1, True
            if isinstance(a, tuple):
                (a, n), exact = a, False
            if t.count(a) < n:
                print(s['id'], 'TEXT NOT FOUND', a[:60]); ok = False; break
            if exact and t.count(a) != 1 and not s.get('first'):
                print(s['id'], 'TEXT AMBIGUOUS', t.count(a), a[:60]); ok = False; break
            i = -1
            for _ in range(n):
                i = t.index(a, i + 1)
            t = t[:i] + b + t[i + len(a):]
            open(p, 'w').write(t)
        if not ok:
            continue
        diff = subprocess.run(['git', '-C', WORK, 'diff'], stdout=subprocess.PIPE, universal_newlines=True).stdout
        if not original(diff):
            print(s['id'], 'NOT ORIGINAL LINES'); continue
        tmp = '/tmp/seedout'
        if os.path.exists(tmp):
            shutil.rmtree(tmp)
        os.makedirs(tmp)
        open(tmp + '/patch.diff', 'w').write(diff)
        open(tmp + '/demo.sh', 'w').write(s.get('demo_sh', DEMO)); os.chmod(tmp + '/demo.sh', 0o755)
        for fn, tx in s.get('files', {}).items():
            os.makedirs(os.path.dirname(os.path.join(tmp, fn)), exist_ok=True)
            open(os.path.join(tmp, fn), 'w').write(tx)
        if 'demo' in s:
            open(tmp + '/demo.cpp', 'w').write(HEAD + s.get('pre', '') + '\nint main(){\n' + s['demo'] + '\n    return bad ? 1 : 0;\n}\n')
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(tmp + '/meta.json', 'w'), indent=1)
        a = sh('bash %s/demo.sh' % tmp, cwd='/repo')
        if a.returncode:
            print(s['id'], 'DEMO FAILS ON CLEAN', a.stdout[-600:]); continue
        b = sh('bash %s/demo.sh' % tmp, cwd=WORK)
        if not b.returncode:
            print(s['id'], 'DEMO PASSES WITH BUG'); continue
        # tests: build and run from the scratch copy
        x = sh('bash /verif/tools/seedtest.sh ' + WORK)
        res = x.stdout.strip().splitlines()[-1] if x.stdout.strip() else ''
        if not res.startswith('112 passed'):
            print(s['id'], 'TESTS:', res, b.stdout[-100:].replace('\n', ' ')); continue
        if os.path.exists(out):
            shutil.rmtree(out)
        shutil.copytree(tmp, out)
        print(s['id'], 'KEPT', s['prop'], b.stdout.strip().splitlines()[-1][:150] if b.stdout.strip() else '(crash)')
        sys.stdout.flush()
    if os.path.exists(WORK):
        shutil.rmtree(WORK)


main()
