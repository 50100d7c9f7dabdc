#!/usr/bin/env python3
"""Runs the check of one property:  check.py <ID> [--tier quick|thorough] [--keep]

Regenerates the encoding (LLVM bitcode) from /repo's current sources, executes the
harnesses of the property symbolically (engine/vsym, Z3), replays every
counterexample and a sample of path witnesses on a native sanitizer build of the same
sources, and writes evidence/<ID>.json.
Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 2: internal error (the
real code does not compile; when only its encoding cannot be built, real runs stand in and
the evidence says that nothing was decided)."""
import sys, os, json, time, subprocess, tempfile, shutil, glob, itertools, re, hashlib
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
CPP = REPO + '/core/src/main/cpp'
sys.path.insert(0, V)
import specs

NCPU = min(8, os.cpu_count() or 8)
PRE = ['-w', '-include', 'cstdint', '-include', 'iostream', '-include', 'limits', '-include', 'algorithm']
INC = ['-I', V + '/rt', '-I', V + '/harness', '-I', CPP + '/algorithm', '-I', CPP + '/interfaces', '-I', CPP + '/interfaces/vgram_builders', '-I', V + '/rt/stub/x']
BC = ['clang++', '-std=c++14', '-O1', '-gline-tables-only', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops',
      '-fno-threadsafe-statics', '-mllvm', '-force-attribute=_ZNK10VectorHashclERKSt6vectorIiSaIiEE:noinline', '-D_GLIBCXX_ASSERTIONS', '-DVS_SYMBOLIC', '-emit-llvm', '-c']
NAT = ['g++', '-std=c++14', '-O1', '-g1', '-fsanitize=address', '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_SANITIZE_VECTOR=1']
STUBJSON = ['-include', V + '/rt/stub_json.h']

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

class Internal(Exception): pass

def engine():
    exe = V + '/build/vsym'
    src = [V + '/engine/' + f for f in ('vsym.cpp', 'expr.cpp', 'expr.h', 'order.h', 'build.sh')]
    if not os.path.exists(exe) or any(os.path.getmtime(s) > os.path.getmtime(exe) for s in src):
        r = sh(['bash', V + '/engine/build.sh', exe])
        if r.returncode: raise Internal('engine build failed:\n' + r.stdout[-3000:])
    return exe

def repo_sources(group):
    """group core: no json; full: everything that makes up the library"""
    s = sorted(glob.glob(CPP + '/algorithm/*.cc') + glob.glob(CPP + '/algorithm/*.cpp') + glob.glob(CPP + '/interfaces/*.cc') + glob.glob(CPP + '/interfaces/tokenizers/*.cc'))
    skip = {'vgram_builder.cc', 'list_dict.cc'}     # uninstantiated templates that no target compiles
    s = [f for f in s if os.path.basename(f) not in skip]
    if group == 'full': s += sorted(glob.glob(CPP + '/interfaces/vgram_builders/*.cc'))
    return s

def compile_all(work, harnesses, group_of, native):
    """returns {harness: file}; compiles everything in parallel"""
    groups = sorted({group_of[h] for h in harnesses})
    srcs = sorted({(f) for g in groups for f in repo_sources(g)})
    ext = '.o' if native else '.bc'
    jobs = []
    for f in srcs:
        out = work + '/' + os.path.relpath(f, CPP).replace('/', '_') + ext
        stub = STUBJSON if not native and 'vgram_builders' in f else []
        fl = ['-O0'] if native and 'vgram_builders' in f else []
        jobs.append(((NAT + ['-c'] if native else BC) + PRE + stub + INC + [f, '-o', out] + fl, f, out, False))
    if native: jobs.append((NAT + ['-c'] + PRE + INC + [V + '/rt/native.cc', '-o', work + '/native' + ext], 'native', None, True))
    else: jobs.append((BC + PRE + ['-fno-builtin'] + INC + [V + '/rt/rt.cc', '-o', work + '/rt' + ext], 'rt', None, True))
    for h in harnesses:
        stub = STUBJSON if not native and group_of[h] == 'full' else []
        jobs.append(((NAT + ['-c'] if native else BC) + PRE + stub + INC + [V + '/harness/' + h + '.cc', '-o', work + '/h_' + h + ext], h, None, True))
    def one(j):
        if native: return j, sh(j[0])
        c = j[0]; i = c.index('-I')
        r = sh(c[:i] + ['-I', V + '/rt/sym'] + c[i:])    # with the stand-ins for standard headers, without them if they do not suffice
        return j, r if r.returncode == 0 else sh(c)
    with ThreadPoolExecutor(NCPU) as ex: res = list(ex.map(one, jobs))
    bad = [(j, r) for j, r in res if r.returncode]
    if bad: raise Internal(('native' if native else 'bitcode') + ' compilation failed: ' + bad[0][0][1] + '\n' + '\n'.join(l for l in bad[0][1].stdout.splitlines() if 'error' in l)[:3000])
    objs = {j[1]: j[2] for j, _ in res if not j[3]}
    def link(h):
        ins = [work + '/h_' + h + ext] + [objs[f] for f in repo_sources(group_of[h])]
        if native: cmd = NAT + ['-o', work + '/n_' + h] + ins + [work + '/native' + ext]
        else: cmd = ['llvm-link-18', '-o', work + '/l_' + h + '.bc'] + ins + [work + '/rt' + ext]
        return h, sh(cmd)
    with ThreadPoolExecutor(NCPU) as ex: lk = list(ex.map(link, harnesses))
    for h, r in lk:
        if r.returncode: raise Internal('link failed: ' + h + '\n' + r.stdout[-2000:])
    return {h: (work + '/n_' + h if native else work + '/l_' + h + '.bc') for h in harnesses}

def run_native(exe, scratch, inputs, params, tag, timeout=30, fill=None, more=None):
    d = tempfile.mkdtemp(dir=scratch)
    fn = d + '/inputs'
    with open(fn, 'w') as f: f.write('\n'.join(str(v) for _, v in inputs) + '\n')
    env = {'PATH': '/usr/bin:/bin', 'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0' + (':max_malloc_fill_size=1000000000:malloc_fill_byte=%d' % fill if fill is not None else ''), 'HOME': d}
    if more is not None: env['VS_FILL'] = str(more)
    try:
        r = subprocess.run(['timeout', '-k', '5', str(timeout), exe, fn] + [str(p) for p in params], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d, env=env, timeout=timeout + 20)
        out, rc = r.stdout.decode('utf-8', 'replace'), r.returncode
    except subprocess.TimeoutExpired: out, rc = '', 124
    shutil.rmtree(d, ignore_errors=True)
    return rc, out

def confirm(exe, scratch, v, params):
    """replays a counterexample; returns (confirmed, description, inputs)"""
    for inp in [v['inputs']] + v.get('alts', []):
        for fill in ([None] if not v.get('uninit') else [None, 0, 255, 1, 127]):
            rc, out = run_native(exe, scratch, inp, params, 'v', fill=fill)
            tail = '\n'.join(l for l in out.splitlines() if not l.startswith(('OBS', 'REACH')))[:1500]
            if rc == 42: return True, 'CHECK failed natively: ' + tail, inp
            if rc not in (0, 77, 78): return True, 'native run ended with status %d: %s' % (rc, tail), inp
    return False, 'not reproduced (status %d)' % rc, v['inputs']

def known_findings():
    res = []
    p = V + '/known-findings.txt'
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            if l.startswith('finding: '):
                m = re.match(r'finding: property=(\S+) harness=(\S+) msg=/(.*?)/ site=/(.*?)/ (.*)$', l)
                if m: res.append(m.groups())
    return res

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    keep = '--keep' in sys.argv
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else None
    seed = int(os.environ.get('VERIF_SEED') or 1)
    spec = specs.SPECS[pid]
    t0 = time.time()
    base = V + '/build'; os.makedirs(base, exist_ok=True); os.makedirs(V + '/evidence', exist_ok=True)
    work = tempfile.mkdtemp(prefix='w_%s_' % pid, dir=base)
    scratch = tempfile.mkdtemp(prefix='s_', dir=work)
    try: rc = check(pid, spec, tier, seed, work, scratch, t0, only)
    except Internal as e:
        print('ERROR: ' + str(e)); rc = 2
    finally:
        if not keep: shutil.rmtree(work, ignore_errors=True)
        else: print('work dir', work)
    sys.exit(rc)

def expand(spec, tier):
    jobs = []
    for j in spec['jobs']:
        if tier == 'quick' and j.get('thorough_only'): continue
        if tier == 'thorough' and j.get('quick_only'): continue
        n = j.get('split', 1)
        for p in j['params']:
            for k in range(n):
                jobs.append(dict(j, params=list(p), k=k, n=n))
    return jobs

def check(pid, spec, tier, seed, work, scratch, t0, only):
    vsym = engine()
    jobs = expand(spec, tier)
    if only: jobs = [j for j in jobs if j['h'] == only]
    group_of = {j['h']: j.get('group', 'core') for j in jobs}
    hs = sorted(group_of)
    wb, wn = work + '/bc', work + '/nat'; os.mkdir(wb); os.mkdir(wn)
    pool = ThreadPoolExecutor(1)
    errors = []; bcs = {}
    try: bcs = compile_all(wb, hs, group_of, False)
    except Internal as e: errors.append('the encoding could not be built: ' + str(e))
    tb = time.time() - t0
    natf = pool.submit(compile_all, wn, hs, group_of, True)
    budget = spec.get('budget', {}).get(tier, 150 if tier == 'quick' else 780)
    deadline = t0 + budget
    def run(ij):
        i, j = ij
        out = '%s/out_%d.json' % (work, i)
        tl = min(j.get('time', 10000), max(3, deadline - time.time()))
        if j['h'] not in bcs: return j, None, 'no encoding'
        cmd = [vsym, bcs[j['h']], '--out', out, '--time', '%.0f' % tl, '--samples', str(j.get('samples', 4)), '--seed', str(seed), '--repo', REPO + '/', '--maxinst', str(j.get('maxinst', 60000000))]
        if j['n'] > 1: cmd += ['--split', '%d/%d' % (j['k'], j['n']), '--split-depth', str(j.get('split_depth', 10))]
        for p in j['params']: cmd += ['--param', str(p)]
        cmd += j.get('opts', [])
        ts = time.time()
        try: r = sh(['timeout', '-k', '10', '%.0f' % (tl + 60)] + cmd)
        except Exception as e: return j, None, str(e)
        if not os.path.exists(out): return j, None, 'rc %d: %s' % (r.returncode, r.stdout[-1500:])
        try: d = json.load(open(out))
        except Exception as e: return j, None, 'bad output: %s; %s' % (e, r.stdout[-500:])
        d['cpu'] = time.time() - ts
        return j, d, r.stdout[-1500:]
    with ThreadPoolExecutor(NCPU) as ex: res = list(ex.map(run, enumerate(jobs)))
    te = time.time() - t0
    nats = natf.result()
    # ---- collect
    tot = dict.fromkeys(['paths', 'forks', 'insts', 'queries', 'sat', 'unsat', 'unknown', 'order_sat', 'order_unsat', 'order_crosschecked', 'int_queries', 'final_queries', 'symbolic_checks', 'assumed_out', 'fp_havoc', 'pending'], 0)
    solver_s = 0; reach = {}; funcs = {}; incomplete = []; viols = []; samples = []; perrun = []; prefixes = []; npartial = 0
    for j, d, log in res:
        name = '%s(%s)%s' % (j['h'], ','.join(map(str, j['params'])), ' %d/%d' % (j['k'], j['n']) if j['n'] > 1 else '')
        if d is None:
            if bcs: errors.append(name + ': ' + log)
            prefixes += [(j, [], 1000 * seed + f) for f in range(max(2, min(20, 160 // len(jobs))))]; continue
        for k in tot: tot[k] += d.get(k, 0)
        solver_s += d['solver_s']
        for k, v in d['reach'].items(): reach[j['h'] + ':' + k] = reach.get(j['h'] + ':' + k, 0) + v
        for k, v in d['functions'].items(): funcs[k] = funcs.get(k, 0) + v
        if d['incomplete']: incomplete.append('%s: %s' % (name, d['incomplete']))
        for v in d['violations']: viols.append((j, v))
        for s in d['samples']: samples.append((j, s))
        npartial += d.get('npartial', 0)
        prefixes += [(j, w['inputs'], 1000 * seed + f) for w in d.get('partial', []) for f in range(2)]
        perrun.append({'run': name, 'paths': d['paths'], 'queries': d['queries'], 'wall_s': d['wall_s'], 'rss_mb': d['rss_mb']})
    # ---- replay counterexamples
    confirmed = []; unconfirmed = []; seen = {}
    def rep(jv):
        j, v = jv
        return j, v, confirm(nats[j['h']], scratch, v, j['params'])
    uniq = []
    for j, v in viols:
        k = (j['h'], v['kind'], v['msg'], v['site'])
        seen[k] = seen.get(k, 0) + 1
        if seen[k] <= 3: uniq.append((j, v))
    with ThreadPoolExecutor(NCPU) as ex:
        for j, v, (ok, why, inp) in ex.map(rep, uniq): (confirmed if ok else unconfirmed).append((j, v, why, inp))
    # ---- replay witnesses of paths on which everything held
    random_order = sorted(range(len(samples)), key=lambda i: hashlib.md5(('%d/%d' % (seed, i)).encode()).digest())
    picks = [samples[i] for i in random_order][: (64 if tier == 'quick' else 300)]
    validated = 0; mism = []; bad = []
    def wit(js):
        j, s = js
        rc, out = run_native(nats[j['h']], scratch, s['inputs'], j['params'], 'w')
        obs = [l.split(' ')[1:] for l in out.splitlines() if l.startswith('OBS ')]
        return j, s, rc, out, obs
    with ThreadPoolExecutor(NCPU) as ex:
        for j, s, rc, out, obs in ex.map(wit, picks):
            if rc == 42 or rc in (99, 134, 139, 124): bad.append((j, s, rc, out)); continue
            if rc != 0: mism.append('%s: status %d %s' % (j['h'], rc, out[-200:])); continue
            exp = [[t, None if v is None else str(v)] for t, v in s['obs']]
            got = [[o[0], o[1]] for o in obs]
            if len(exp) == len(got) and all(e[0] == g[0] and (e[1] is None or e[1] == g[1]) for e, g in zip(exp, got)): validated += 1
            else: mism.append('%s(%s): observed %s, encoding says %s, inputs %s' % (j['h'], j['params'], got[:12], exp[:12], [v for _, v in s['inputs']]))
    # ---- paths that were not followed to their end (an unmodelled operation, a time limit): real runs of their
    #      prefixes, completed with arbitrary values.  They decide nothing; the evidence says so.
    prefixes = sorted(prefixes, key=lambda x: hashlib.md5(repr((seed, x[0]['h'], x[0]['params'], x[1], x[2])).encode()).digest())[: (200 if tier == 'quick' else 1000)]
    def pre(x):
        j, inp, f = x
        if time.time() > deadline + 60: return None
        rc, out = run_native(nats[j['h']], scratch, inp, j['params'], 'p', more=f)
        return j, inp, f, rc, out
    ran = 0
    with ThreadPoolExecutor(NCPU) as ex:
        for x in ex.map(pre, prefixes):
            if x is None: continue
            j, inp, f, rc, out = x; ran += 1
            if rc == 42 or rc in (99, 134, 139): bad.append((j, {'inputs': inp + [['completed with VS_FILL', f]] if f else inp}, rc, out))
    for j, s, rc, out in bad:
        tail = '\n'.join(l for l in out.splitlines() if not l.startswith(('OBS', 'REACH')))[:1500]
        m = re.search(r'CHECK-FAILED (.*)', out)
        v = {'kind': 'property' if rc == 42 else 'native', 'msg': m.group(1) if m else 'native run of a witness ended with status %d' % rc, 'site': '', 'where': '', 'inputs': s['inputs'], 'count': 1}
        confirmed.append((j, v, 'native replay of a path witness: ' + tail, s['inputs']))
    for j, v, why, inp in unconfirmed:
        if v['kind'] == 'resource': incomplete.append('%s(%s): a path exceeded the instruction budget' % (j['h'], ','.join(map(str, j['params']))))
    # ---- verdict
    kf = known_findings(); rcode = 0; shown = set(); nviol = 0
    for j, v, why, inp in confirmed:
        hit = None
        for (p, h, msg, site, text) in kf:
            if p == pid and h == j['h'] and re.search(msg, v['msg']) and re.search(site, v['site']): hit = text
        if hit:
            if hit not in shown: print('KNOWN-FINDING: property=%s %s' % (pid, hit)); shown.add(hit)
            continue
        nviol += 1; rcode = 1
        if nviol <= 5:
            rp = '%s/build/replay_%s_%d.json' % (V, pid, nviol)
            json.dump({'property': pid, 'harness': 'harness/%s.cc' % j['h'], 'params': j['params'], 'inputs': inp, 'kind': v['kind'], 'msg': v['msg'], 'site': v['site'], 'where': v.get('where', ''), 'native': why}, open(rp, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (pid, rp))
            print('  %s(%s): %s: %s at %s' % (j['h'], ','.join(map(str, j['params'])), v['kind'], v['msg'], v['site']))
            print('  inputs: ' + ' '.join('%s=%s' % (n, x) for n, x in inp)[:1500])
            print('  ' + why.replace('\n', '\n  ')[:1500])
    missing = [h['h'] + ':' + t for h in spec['jobs'] for t in h.get('reach', ['end']) if h['h'] in group_of and not reach.get(h['h'] + ':' + t)] if not viols and not errors else []
    missing = sorted(set(missing))
    if errors:
        print('NOT DECIDED by the solver: ' + '; '.join(errors)[:2000])
        incomplete += errors
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {
            'states': tot['paths'], 'transitions': tot['forks'], 'traces_validated_against_impl': validated,
            'exhaustive': not incomplete and not errors and tot['fp_havoc'] == 0,
            'bounds': spec['bounds'], 'outside_the_bounds': spec.get('outside', ''),
            'functions_encoded': dict(sorted(funcs.items())),
            'queries_discharged': {'z3': tot['queries'], 'z3_sat': tot['sat'], 'z3_unsat': tot['unsat'], 'z3_unknown': tot['unknown'], 'z3_over_integers': tot['int_queries'],
               'order_procedure_sat': tot['order_sat'], 'order_procedure_unsat': tot['order_unsat'], 'order_unsat_rechecked_with_z3': tot['order_crosschecked'],
               'final_obligation_queries': tot['final_queries'], 'assertions_with_symbolic_operands': tot['symbolic_checks']},
            'solver_s': round(solver_s, 3), 'instructions_executed_symbolically': tot['insts'], 'paths_cut_by_assumptions': tot['assumed_out'],
            'floating_point_branches_overapproximated': tot['fp_havoc'], 'reached': reach, 'vacuity_missing': missing,
            'incomplete': incomplete, 'paths_not_followed_to_the_end': npartial, 'their_prefixes_run_natively': ran, 'errors': errors, 'runs': perrun,
            'counterexamples_not_reproduced_natively': [{'harness': j['h'], 'params': j['params'], 'kind': v['kind'], 'msg': v['msg'], 'site': v['site'], 'why': why, 'inputs': inp} for j, v, why, inp in unconfirmed],
            'witness_mismatches': mism[:10], 'witness_mismatch_count': len(mism),
            'samples': [{'harness': j['h'], 'params': j['params'], 'inputs': dict_list(s['inputs']), 'path_condition_literals': s['pc'], 'observed': s['obs'][:40]} for j, s in picks[:5]],
            'time_to_bitcode_s': round(tb, 2), 'time_to_verdicts_s': round(te, 2)},
          'assumptions': spec.get('assumptions', []) + specs.COMMON_ASSUMPTIONS,
          'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    json.dump(ev, open('%s/evidence/%s.json' % (V, pid), 'w'), indent=1)
    print('%s %s: paths %d, forks %d, z3 queries %d (unknown %d), order decisions %d, solver %.1f s, witnesses replayed %d/%d, unconfirmed %d, incomplete %d, prefixes run %d, fp_havoc %d, missing %s, wall %.1f s (bitcode %.1f, verdicts %.1f)' % (
        pid, 'OK' if rcode == 0 else 'FAILED', tot['paths'], tot['forks'], tot['queries'], tot['unknown'], tot['order_sat'] + tot['order_unsat'], solver_s, validated, len(picks), len(unconfirmed), len(incomplete), ran, tot['fp_havoc'], missing, time.time() - t0, tb, te))
    for x in incomplete[:6]: print('  INCOMPLETE ' + x)
    for x in mism[:4]: print('  MISMATCH ' + x[:600])
    for j, v, why, inp in unconfirmed[:4]: print('  UNCONFIRMED %s(%s) %s: %s at %s; %s; inputs %s' % (j['h'], j['params'], v['kind'], v['msg'], v['site'], why[:200], [x for _, x in inp]))
    slow = sorted(perrun, key=lambda r: -r['wall_s'])[:4]
    print('  slowest: ' + ', '.join('%s %.1fs' % (r['run'], r['wall_s']) for r in slow))
    return rcode

def dict_list(inp): return ' '.join('%s=%s' % (n, x) for n, x in inp)[:600]

if __name__ == '__main__': main()
