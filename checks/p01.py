"""P01: the guarantees hold on other data models and under every language standard the library supports."""
import concurrent.futures as cf
from vp import *

VALUE = ['A01', 'A03', 'A04', 'B01', 'C01', 'C02', 'C03', 'E01', 'H01', 'K01', 'K02', 'M01', 'R01', 'U01', 'V01', 'V02', 'W01', 'X01', 'N01', 'A02']
TYPE = ['Q01', 'R02', 'R03', 'T01', 'G01', 'Y01']
ALL = VALUE + TYPE
QS = ('A02', 'A03', 'A04', 'E01', 'M01', 'R01')
STDS = ['c++17', 'c++20', 'c++2b']
OTHER = [m for m in MODELS if m != 'lp64']
def one(a):
    pid, model, std, n, d = a
    ev = os.path.join(d, '%s_%s_%s' % a[:3])
    os.makedirs(ev)
    env = dict(os.environ, VP_MODEL=model, VP_STD=std, VP_SAMPLE=str(n), VP_PROCS='1', VP_EVID=ev, VP_SKIP=r'_(se|es)($|_|/)')
    if pid in ('C02', 'X01') and model.startswith('ip16'):
        env['VP_SKIP'] += r'|_(or|xor|and|shl|shr|not)_(ll|ull|i64|u64)'       # four words each: beyond the analysis
    if pid in QS:
        env['VP_QS'] = '1'
    t0 = time.time()
    x = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), pid, 'quick'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    try:
        e = json.load(open(os.path.join(ev, 'evidence', pid + '.json')))
        v = os.path.join(ev, 'evidence', pid + '.violations.json')
        v = json.load(open(v)) if os.path.exists(v) else []
    except (OSError, ValueError):
        e, v = None, []
    return a, x.returncode, e, v, x.stdout[-1500:], time.time() - t0


def main():
    r = Report('P01')
    full = TIER == 'thorough'
    todo = []
    for i, m in enumerate(OTHER):
        for j, pid in enumerate(ALL):
            if full or (i + j) % 2 == 0:
                todo.append((pid, m, 'c++14', 250 if full else 40))
    for i, s in enumerate(STDS):
        for j, pid in enumerate(ALL):
            if full or (i + j) % 2 == 0:
                todo.append((pid, 'lp64', s, 250 if full else 40))
    d = scratch()
    slow, done = [], {}
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            for a, rc, e, v, out, t in ex.map(one, [x + (d,) for x in todo]):
                cfg = '%s/%s/%s' % a[:3]
                slow.append((round(t, 1), cfg))
                if rc not in (0, 1) or e is None or e['coverage']['jobs_without_answer']:
                    r.errors.append((cfg, out[-600:]))
                    continue
                c = e['coverage']
                done[cfg] = c['obligations']
                for x in v:
                    r.violation(cfg + '/' + x['key'], x['text'], x['where'], x['trace'], x['witness'])
                for k in c['undecided']:
                    r.undecide(cfg + '/' + k, 'not decided')
                for k, n in c['rules'].items():
                    r.ok(k, n)
                r.entries |= {(cfg, i) for i in range(c['entry_points'])}
                r.paths += c['abstract_paths']
                r.irf += c['ir_functions']
    finally:
        shutil.rmtree(d, ignore_errors=True)
    r.extra['configurations'] = {'%s %s' % k: sorted(x.split('/')[0] for x in done if x.split('/')[1:] == list(k))
                                 for k in sorted({tuple(x.split('/')[1:]) for x in done})}
    if os.environ.get('VP_DEBUG'):
        print(sorted(slow)[-12:])
    r.finish('seeded samples of the obligations of the other checks, decided again for each data model (%s) and language standard (%s): '
             'the library headers are lowered for that target, the C++ conversion rules of the oracle are those of that data model' % (
                 ', '.join(OTHER), ', '.join(STDS)),
             ['C library headers of LP64 with the exact-width types of the target (shim/)', 'clang 18 lowering'])


main()
