#!/usr/bin/env python3
"""Runs the check of one property: builds its harnesses together with the sources of /repo's working tree, generates
cases, writes evidence/<id>.json and prints VIOLATION / KNOWN-FINDING lines.

  run.py <id> [--tier quick|thorough]      seed from VERIF_SEED (default 1)
  run.py --replay <file>                   reruns a replay file, exit 1 when the case still fails
  run.py --build [ids]                     only builds
"""
import sys, os, json, subprocess, time, hashlib, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(V, 'build'))
sys.path.insert(0, V)
from checks import CHECKS

LIBS = {
    'fem': ['anifem++/fem/fem_space.cpp', 'anifem++/fem/tetdofmap.cpp', 'anifem++/fem/quadrature_formulas.cpp'],
    'quad': ['anifem++/fem/quadrature_formulas.cpp'],
    'dof': ['anifem++/fem/tetdofmap.cpp'],
    'interval': ['anifem++/interval/interval.cpp'],
    'autodiff': ['anifem++/autodiff/autodiff.cpp'],
    'none': [],
    'glob': ['anifem++/fem/tetdofmap.cpp', 'anifem++/inmost_interface/global_enumerator.cpp', 'anifem++/inmost_interface/elemental_assembler.cpp'],
    'util': ['anifem++/fem/fem_space.cpp', 'anifem++/fem/tetdofmap.cpp', 'anifem++/fem/quadrature_formulas.cpp', 'anifem++/inmost_interface/global_enumerator.cpp', 'anifem++/inmost_interface/elemental_assembler.cpp', 'anifem++/utils/utils.cpp', 'anifem++/utils/mesh_utils.cpp', 'anifem++/utils/adapt_mesh.cpp'],
    'globfem': ['anifem++/fem/fem_space.cpp', 'anifem++/fem/tetdofmap.cpp', 'anifem++/fem/quadrature_formulas.cpp', 'anifem++/inmost_interface/global_enumerator.cpp', 'anifem++/inmost_interface/elemental_assembler.cpp'],
}
BASE = ['-std=c++17', '-O1', '-w', '-ftrivial-auto-var-init=pattern', '-fno-omit-frame-pointer', '-I', REPO, '-I', os.path.join(V, 'harness'), '-DVP_CHECK']
ASAN = ['-fsanitize=address']
VARIANTS = {
    'eig':   ['-DWITH_EIGEN', '-I', '/usr/include/eigen3'],
    'eiga':  ['-DWITH_EIGEN', '-I', '/usr/include/eigen3'] + ASAN,
    'noe':   ASAN,
    'noen':  [],
    'noet':  ['-fsanitize=thread'],
    'glob':  ASAN + ['-D_GLIBCXX_ASSERTIONS'],
}
# seconds of case generation per check, all variants together
TIME = {'quick': 45.0, 'thorough': 560.0}
# factor on the number of cases each property asks for (the time above cuts generation)
SCALE = {'quick': 4, 'thorough': 8}

def env():
    e = dict(os.environ); e.setdefault('CCACHE_DIR', os.path.join(BUILD, 'ccache')); e['CCACHE_NOHASHDIR'] = '1'
    e['CCACHE_COMPILERCHECK'] = 'content'; e['OMP_WAIT_POLICY'] = 'PASSIVE'; e['GOMP_SPINCOUNT'] = '0'; e.pop('ASAN_OPTIONS', None); return e

def compile_one(args):
    src, obj, flags = args
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    cc = (['ccache'] if shutil.which('ccache') else []) + ['g++', '-c'] + flags + [src, '-o', obj]
    p = subprocess.run(cc, capture_output=True, text=True, env=env())
    if p.returncode != 0 and cc[0] == 'ccache':
        cc = cc[1:]; p = subprocess.run(cc, capture_output=True, text=True, env=env())
    return p.returncode, ' '.join(cc), p.stderr

def build(jobs, lost=None):
    """jobs: list of (harness dict, variant); returns {(h, variant): exe}. A program that must compile (must_compile: its
    sources only instantiate what the headers offer) and does not, while all the others do, is put into lost instead"""
    todo, exes = {}, {}
    for h, v in jobs:
        flags = BASE + VARIANTS[v] + h.get('flags', [])
        tag = v + ('-' + hashlib.sha1(' '.join(h.get('flags', [])).encode()).hexdigest()[:6] if h.get('flags') else '')
        objs = []
        for s in h['src']:
            o = os.path.join(BUILD, tag, s + '.o'); objs.append(o); todo[o] = (os.path.join(V, 'harness', s), o, flags)
        for s in LIBS[h.get('lib', 'fem')]:
            o = os.path.join(BUILD, tag, 'lib', s.replace('/', '_') + '.o'); objs.append(o); todo[o] = (os.path.join(REPO, s), o, flags)
        exes[(h['name'], v)] = (os.path.join(BUILD, tag, h['name']), objs, flags)
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        res = list(ex.map(compile_one, sorted(todo.values(), key=lambda t: t[0].startswith(REPO))))
    bad = [r for r in res if r[0] != 0]
    for r in bad[:3]:
        sys.stderr.write('COMPILE FAILED: %s\n%s\n' % (r[1], r[2][:4000]))
    if bad:
        objs = set(todo_o for todo_o, t in todo.items() if any(t[0] in r[1].split() and t[1] in r[1].split() for r in bad))
        for h, v in jobs:
            k = (h['name'], v); mine = set(exes[k][1])
            if lost is not None and h.get('must_compile') and mine & objs: lost.append((h, v, next(r[2] for r in bad if any(o in r[1].split() for o in mine)))); objs -= mine; del exes[k]
        if objs: return None
    out = {}
    for k, (exe, objs, flags) in exes.items():
        p = subprocess.run(['g++'] + [f for f in flags if f.startswith(('-fsan', '-fopenmp'))] + objs + ['-o', exe, '-lpthread'], capture_output=True, text=True)
        if p.returncode != 0:
            sys.stderr.write('LINK FAILED: %s\n%s\n' % (exe, p.stderr[:4000])); return None
        out[k] = exe
    return out

def known():
    r = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                d = {}; rest = l[len('finding:'):].strip()
                while rest and '=' in rest.split(' ', 1)[0]:
                    w, _, rest = rest.partition(' '); k, _, x = w.partition('='); d[k] = x
                d['what'] = rest; r.append(d)
    return r

def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        r = json.load(open(a[1])); h = next(h for h in CHECKS[r['property']]['run'] if h['name'] == r['harness'])
        lost = []; exes = build([(h, r['variant'])], lost)
        if r.get('compile'): return 1 if lost else 0
        if not exes: return 2
        p = subprocess.run([exes[(h['name'], r['variant'])], '--replay', r['prop'] + ':' + ','.join(map(str, r['tape'])), '--repeat', str(h.get('repeat', 1))], env=env())
        return p.returncode
    if a and a[0] == '--build':
        ids = a[1:] or list(CHECKS)
        jobs = [(h, v) for i in ids for h in CHECKS[i]['run'] for v in h['variants']]
        return 0 if build(jobs) is not None else 2
    pid = a[0]; tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    if tier not in TIME: tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time(); chk = CHECKS[pid]
    jobs = [(h, v) for h in chk['run'] for v in h['variants']]
    lost = []; exes = build(jobs, lost)
    if exes is None: return 2
    tb = time.time() - t0
    tmp = os.path.join(BUILD, 'run', pid); shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    rep = os.path.join(V, 'evidence', 'replay'); os.makedirs(rep, exist_ok=True)
    for f in os.listdir(rep):
        if f.startswith(pid + '-'): os.unlink(os.path.join(rep, f))
    cov = {'evaluations': 0, 'distinct_nontrivial': 0, 'discarded': 0, 'comparisons': 0, 'rule': '', 'samples': [], 'parts': []}
    rules, viol, err = [], [], False
    left = TIME[tier] * chk.get('time', 1.0)
    for h, v, e in lost:
        f = os.path.join(rep, '%s-%s-%s.json' % (pid, h['name'], v)); errs = ' / '.join(l for l in e.splitlines() if 'error' in l)[:1500]
        json.dump({'property': pid, 'harness': h['name'], 'variant': v, 'compile': True, 'msg': errs, 'how': 'python3 run.py --replay <this file>'}, open(f, 'w'), indent=1)
        viol.append(({'name': h['name'], 'msg': h['must_compile'] + ': ' + errs, 'case': 'compiling ' + ' '.join(h['src'])}, v, f))
    jobs = [j for j in jobs if (j[0]['name'], j[1]) in exes]
    # known findings: rerun the witness of each
    for k in known():
        if k.get('property') != pid: continue
        hn, vr, pr = k['probe'].split(':', 2)
        if (hn, vr) not in exes: continue
        p = subprocess.run([exes[(hn, vr)], '--replay', pr + ('' if ':' in pr else ':')], capture_output=True, text=True, env=env())
        if p.returncode == 1: print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
        else: print('note: known finding not reproduced here: property=%s %s' % (pid, k['what']))
    for n, (h, v) in enumerate(jobs):
        exe = exes[(h['name'], v)]
        names = [l.split()[0] for l in subprocess.run([exe, '--list'], capture_output=True, text=True, env=env()).stdout.splitlines()]
        names = [x for x in names if x.startswith(pid + '_')]
        if not names: continue
        o = os.path.join(tmp, '%s-%s.json' % (h['name'], v)); d = os.path.join(tmp, '%s-%s' % (h['name'], v)); os.makedirs(d)
        t1 = time.time(); dl = left / (len(jobs) - n)
        p = subprocess.run([exe, '--seed', str(seed), '--tier', tier, '--workers', str(h.get('workers', 8)), '--deadline', '%.1f' % dl, '--out', o, '--tmp', d,
                            '--only', ','.join(names), '--scale', str(chk.get('scale', 1)*SCALE[tier]), '--shrink', '25' if tier == 'quick' else '40'] , capture_output=True, text=True, env=env())
        left -= time.time() - t1; left = max(left, 5.0)
        if not os.path.exists(o):
            sys.stderr.write('harness %s (%s) gave no result, status %s\n%s\n' % (h['name'], v, p.returncode, p.stderr[-2000:])); err = True; continue
        for r in json.load(open(o)):
            cov['evaluations'] += r['evaluations']; cov['distinct_nontrivial'] += r['distinct_nontrivial']
            cov['discarded'] += r['discarded']; cov['comparisons'] += r['checks']
            if r['rule'] not in rules: rules.append(r['rule'])
            for x in r['samples'][:2]:
                if len(cov['samples']) < 24: cov['samples'].append('%s[%s]: %s' % (r['name'], v, x[:1200]))
            cov['parts'].append({k: r[k] for k in ('name', 'exhaustive', 'planned', 'evaluations', 'discarded', 'checks', 'distinct_nontrivial', 'cut_by_time', 'wall_s', 'labels')})
            cov['parts'][-1]['variant'] = v
            if r.get('failed'):
                # where the schedule of threads is part of the input, a failure seen once is a failure; elsewhere a
                # case that can not be repeated (a killed process, a stalled machine) is noted but is not evidence
                if r['flaky'] and not (h.get('repeat') and r['kind'] in (1, 3)):
                    sys.stderr.write('a case of %s (%s) failed once and passes when rerun: %s\n' % (r['name'], v, r['msg'][:500]))
                    cov.setdefault('not_reproducible', []).append({'prop': r['name'], 'variant': v, 'msg': r['msg'], 'case': r['case']}); continue
                f = os.path.join(rep, '%s-%s-%s.json' % (pid, r['name'], v))
                json.dump({'property': pid, 'harness': h['name'], 'variant': v, 'prop': r['name'], 'seed': seed, 'msg': r['msg'], 'case': r['case'], 'tape': r['tape'],
                           'how': 'python3 run.py --replay <this file>'}, open(f, 'w'), indent=1)
                viol.append((r, v, f))
    cov['rule'] = ' | '.join(rules)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov, 'wall_s': round(time.time() - t0, 2), 'build_s': round(tb, 2),
          'assumptions': chk.get('assumptions', []), 'violations': [{'prop': r['name'], 'variant': v, 'msg': r['msg'], 'case': r['case'], 'replay': os.path.relpath(f, V)} for r, v, f in viol]}
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    shutil.rmtree(tmp, ignore_errors=True)
    for r, v, f in viol:
        print('%s [%s]: %s\n  case: %s' % (r['name'], v, r['msg'][:1500], r['case'][:1500]))
        print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(f, V)))
    print('%s %s seed=%d: %d cases (%d distinct non-trivial), %d comparisons, build %.1fs, total %.1fs' % (pid, tier, seed, cov['evaluations'], cov['distinct_nontrivial'], cov['comparisons'], tb, time.time() - t0))
    if viol: return 1
    return 3 if err else 0

if __name__ == '__main__':
    sys.exit(main())
