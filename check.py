#!/usr/bin/env python3
"""Decide one property: build the harnesses against /repo's current source, execute them symbolically, report.

usage: check.py <property> [--tier quick|thorough] [--entry NAME] [--keep]
exit 0: held on everything explored; 1: VIOLATION; 2: the check itself failed.
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
import replay
BUILD = os.path.join(HERE, 'build')
NPROC = os.cpu_count() or 8
CXX = ['clang++-18', '-std=c++20', '-O1', '-DNDEBUG', '-gline-tables-only', '-D_GLIBCXX_EXTERN_TEMPLATE=0',
       '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-pie', '-w']


class CheckError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if r.returncode != 0:
        raise CheckError('command failed: %s\n%s' % (' '.join(cmd), (r.stdout + r.stderr)[-6000:]))
    return r.stdout


def gen_config(inc):
    """The configuration the real build uses on this platform, from the repository's own template."""
    src = open(os.path.join(REPO, 'include/stlab/config.hpp.in')).read()
    on = {'STLAB_STD_COROUTINES()', 'STLAB_THREADS_PTHREAD()', 'STLAB_TASK_SYSTEM_PORTABLE()',
          'STLAB_MAIN_EXECUTOR_NONE()'}
    out = []
    for line in src.split('\n'):
        m = re.match(r'#cmakedefine01\s+(.*)$', line)
        if m:
            line = '#define %s %d' % (m.group(1).strip(), m.group(1).strip() in on)
        line = re.sub(r'@PROJECT_VERSION_[A-Z]+@', '0', line).replace('@STLAB_TASK_POOL_MAXIMUM@', '0')
        out.append(line)
    os.makedirs(os.path.join(inc, 'stlab'), exist_ok=True)
    open(os.path.join(inc, 'stlab/config.hpp'), 'w').write('\n'.join(out))


def entries_of(path, prop, tier):
    res = []
    for line in open(path):
        m = re.match(r'\s*ENTRY\((\w+)\)\s*\{?\s*//\s*@(\S+)\s*(.*)$', line)
        if not m or prop not in m.group(2).split(','):
            continue
        e = {'name': m.group(1), 'preempt': 2, 'parts': 1, 'time': 100, 'reach': [], 'flags': [], 'weight': 1, 'src': path,
             'tier': 'both', 'native': 1}
        kv = [t for t in m.group(3).split()]
        for pref in ('', 'thorough.') if tier == 'thorough' else ('',):
            for t in kv:
                if '=' not in t:
                    continue
                k, v = t.split('=', 1)
                if pref:
                    if not k.startswith(pref):
                        continue
                    k = k[len(pref):]
                elif k.startswith('thorough.'):
                    continue
                if k == 'reach':
                    e['reach'] = v.split(',')
                elif k == 'flags':
                    e['flags'] = ['--' + f for f in v.split(',')]
                elif k == 'tier':
                    e['tier'] = v
                else:
                    e[k] = int(v)
        if tier == 'thorough' and not any(t.startswith('thorough.time=') for t in kv):
            e['time'] = max(e['time'] * 4, 400)
        if e['tier'] in ('both', tier):
            res.append(e)
    return res


def harness_files(prop):
    d = os.path.join(HERE, 'harness')
    out = []
    for f in sorted(os.listdir(d)):
        if f.endswith('.cpp'):
            t = open(os.path.join(d, f)).read()
            if re.search(r'//\s*@(\w+,)*%s\b' % prop, t):
                out.append(os.path.join(d, f))
    return out


def compile_bc(src, out, inc, extra=()):
    run(CXX + ['-emit-llvm', '-c', '-I' + inc, '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(HERE, 'harness'),
               *extra, src, '-o', out])


def repo_sources():
    out = []
    for r, _, fs in os.walk(os.path.join(REPO, 'src')):
        out += [os.path.join(r, f) for f in fs if f.endswith('.cpp')]
    return sorted(out)


def build(prop, files, work):
    inc = os.path.join(work, 'inc')
    gen_config(inc)
    jobs = []
    with cf.ThreadPoolExecutor(NPROC) as ex:
        base = []
        for s in repo_sources():
            o = os.path.join(work, 'repo_' + re.sub(r'\W', '_', os.path.relpath(s, REPO)) + '.bc')
            base.append(o)
            jobs.append(ex.submit(compile_bc, s, o, inc))
        for s in ('rt', 'lib'):
            o = os.path.join(work, s + '.bc')
            base.append(o)
            jobs.append(ex.submit(compile_bc, os.path.join(HERE, 'rt', s + '.cpp'), o, inc, ('-fno-builtin',)))
        hs = {}
        for f in files:
            o = os.path.join(work, 'h_' + os.path.basename(f)[:-4] + '.bc')
            hs[f] = o
            jobs.append(ex.submit(compile_bc, f, o, inc))
        for j in jobs:
            j.result()
        progs = {}

        def link(f):
            l = os.path.join(work, 'l_' + os.path.basename(f)[:-4] + '.bc')
            names = re.findall(r'^\s*ENTRY\((\w+)\)', open(f).read(), re.M)
            run(['llvm-link-18', hs[f], *base, '-o', l + '.t'])
            run(['opt-18', '-passes=internalize,globaldce', '-internalize-public-api-list=' + ','.join(names + ['__sym_run_atexit']),
                 l + '.t', '-o', l])
            progs[f] = l
        for j in [ex.submit(link, f) for f in files]:
            j.result()
    return progs


def prefetch(src, names, work):
    try:
        replay.binary(src, names, 'address', work, CXX, HERE)
    except Exception:
        pass


def second_solver(work):
    """Put the dumped queries to cvc5; returns (same answer, no answer in time, [different])."""
    fs = sorted(os.path.join(r, f) for r, _, x in os.walk(os.path.join(work, 'smt')) for f in x)

    def ask(f):
        try:
            r = subprocess.run(['cvc5', '--tlimit=20000', f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=40)
        except (subprocess.TimeoutExpired, OSError):
            return None
        a = r.stdout.split()[:1]
        return a[0] == f.split('.')[-2] if a and a[0] in ('sat', 'unsat') else None
    with cf.ThreadPoolExecutor(NPROC) as ex:
        rs = list(ex.map(ask, fs))
    return rs.count(True), rs.count(None), [os.path.relpath(f, work) for f, r in zip(fs, rs) if r is False]


def load_known():
    known, fixed = [], []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) entry=(\S+) key=(.*?) :: (.*)$', line.strip())
            if m:
                known.append(dict(zip(('property', 'entry', 'key', 'what'), m.groups())))
    return known


def main():
    t0 = time.time()
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    keep = '--keep' in args
    if '--tier' in args:
        tier = args[args.index('--tier') + 1]
    if '--entry' in args:
        only = args[args.index('--entry') + 1].split(',')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    budget = 700 if tier == 'quick' else 3 * 3600
    run(['bash', os.path.join(HERE, 'engine/build.sh')])
    files = harness_files(prop)
    ents = [e for f in files for e in entries_of(f, prop, tier)]
    names = [e['name'] for e in ents]
    if len(names) != len(set(names)):
        raise CheckError('two entries share a name: ' + ', '.join(sorted({n for n in names if names.count(n) > 1})))
    if only:
        ents = [e for e in ents if e['name'] in only]
    if not ents:
        raise CheckError('no harness for property ' + prop)
    files = sorted({e['src'] for e in ents})
    os.makedirs(os.path.join(BUILD, 'work'), exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + '-', dir=os.path.join(BUILD, 'work'))
    rc = 2
    try:
        progs = build(prop, files, work)
        tb = time.time() - t0
        tasks = []
        for e in ents:
            for p in range(e['parts']):
                tasks.append((e, p))
        tasks.sort(key=lambda t: -(t[0]['weight'] * 1000 + t[0]['parts'] * 10 + t[0]['preempt']))
        results = {}

        def go(task):
            e, p = task
            left = budget - (time.time() - t0)
            if left < 2:
                return e, p, None
            out = os.path.join(work, '%s.%d.json' % (e['name'], p))
            cmd = [os.path.join(BUILD, 'symir'), progs[e['src']], '--entry=' + e['name'], '--out=' + out,
                   '--traces=%d' % max(1, (6 if tier == 'quick' else 24) // e['parts']), '--preempt=%d' % e['preempt'], '--max-time=%g' % min(e['time'], left), '--part=%d/%d' % (p, e['parts']),
                   *e['flags']]
            if tier == 'thorough':  # some of the queries go to a second solver
                os.makedirs(os.path.join(work, 'smt', '%s.%d' % (e['name'], p)))
                cmd += ['--dump=' + os.path.join(work, 'smt', '%s.%d' % (e['name'], p)), '--dump-max=%d' % max(4, 40 // e['parts'])]
            try:
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                                   timeout=min(e['time'], left) + 60)
                if r.returncode not in (0, 1, 3) or not os.path.exists(out):
                    return e, p, {'error': 'symir ended with %s: %s' % (r.returncode, r.stderr[-2000:]), 'violations': []}
            except subprocess.TimeoutExpired:
                return e, p, {'error': '', 'complete': False, 'violations': [], 'truncated': 'killed after the time limit'}
            return e, p, json.load(open(out))

        with cf.ThreadPoolExecutor(NPROC) as ex:
            for f in files:  # machine code of the harnesses, for replay, while the executor runs
                threading.Thread(target=prefetch, args=(f, [x['name'] for x in ents if x['src'] == f], work), daemon=True).start()
            for e, p, r in ex.map(go, tasks):
                results.setdefault(e['name'], []).append(r)
        rc = report(prop, tier, seed, ents, progs, results, work, t0, tb, keep)
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print('kept', work)
    return rc


def report(prop, tier, seed, ents, progs, results, work, t0, tb, keep):
    known = [k for k in load_known() if k['property'] == prop]
    errors, viol, knownhits = [], [], []
    tot = {k: 0 for k in ('paths', 'states', 'insts', 'forks', 'sched_points', 'deduped', 'visited', 'asserts_solver',
                          'asserts_constant', 'queries', 'sat', 'unsat', 'unknown', 'query_cache_hits', 'model_hits',
                          'solver_s', 'assume_killed', 'choices')}
    per, functions, lines_hit, samples = [], set(), set(), []
    exhaustive = True
    for e in ents:
        rs = results.get(e['name'], [])
        reach, complete = {}, True
        ent = {'entry': e['name'], 'preemption_bound': e['preempt'], 'partitions': e['parts']}
        sub = {k: 0 for k in tot}
        mt = 1
        evs = {}
        for r in rs:
            if r is None:
                complete = False
                continue
            if r.get('error'):
                errors.append('%s: %s' % (e['name'], r['error']))
            complete &= bool(r.get('complete'))
            for k in tot:
                sub[k] += r.get(k, 0)
            for k, v in r.get('reach', {}).items():
                reach[k] = reach.get(k, 0) + v
            functions |= set(r.get('functions', []))
            lines_hit |= set(r.get('lines', []))
            mt = max(mt, r.get('max_threads', 1))
            for s in r.get('samples', [])[:1]:
                if len(samples) < 12:
                    samples.append(e['name'] + ': ' + s[:600])
            for v in r.get('violations', []):
                # S01 is about races and memory; what the entries assert belongs to the other properties
                if prop != 'S01' or not v['key'].startswith('assert:'):
                    evs.setdefault(v['key'], v)
        for v in evs.values():
            k = next((k for k in known if k['entry'] in ('*', e['name']) and k['key'] == v['key']), None)
            (knownhits if k else viol).append((e, v, k))
        for k in tot:
            tot[k] += sub[k]
        ent.update({k: (round(sub[k], 3) if isinstance(sub[k], float) else sub[k]) for k in
                    ('paths', 'states', 'insts', 'sched_points', 'deduped', 'queries', 'unsat', 'sat', 'solver_s', 'asserts_solver', 'asserts_constant')})
        ent.update({'max_threads': mt, 'complete': complete, 'reached': reach})
        per.append(ent)
        exhaustive &= complete
        missing = [t for t in e['reach'] if t not in reach]
        if missing and complete and not evs:
            errors.append('%s: vacuous, never reached: %s' % (e['name'], ','.join(missing)))
    rdir = os.path.join(BUILD, 'replays')
    os.makedirs(rdir, exist_ok=True)
    lines = []
    validated = 0
    nat = None
    for e, v, _ in viol:
        path = os.path.join(rdir, '%s-%s-%s.txt' % (prop, e['name'], hashlib.sha1(v['key'].encode()).hexdigest()[:8]))
        with open(path, 'w') as f:
            f.write('# property %s entry %s\n# %s: %s\n# key %s\n' % (prop, e['name'], v['kind'], v['msg'], v['key']))
            f.write('# at ' + '\n#    '.join(v['stack']) + '\n')
            if v['stack2']:
                f.write('# conflicting access at ' + '\n#    '.join(v['stack2']) + '\n')
            for n in v['notes']:
                f.write('# note %s\n' % n)
            f.write('entry %s\nharness %s\npreempt %d\nunlock_sched %d\n' % (e['name'], os.path.basename(e['src']), e['preempt'], '--unlock-sched' in e['flags']))
            for n, (w, x) in v['inputs'].items():
                f.write('input %s %d\n' % (n, x))
            f.write('sched ' + ' '.join(map(str, v['sched'])) + '\n')
        try:
            nat = 'not attempted, one of many' if len(lines) >= 8 else replay.replay([x['name'] for x in ents if x['src'] == e['src']], e, v['kind'], v['msg'], path, work, CXX, HERE)
        except Exception as x:  # the replay shows the counterexample in the real code; the solver decides
            nat = 'not possible: %s' % str(x)[:300]
        if nat:
            with open(path, 'a') as f:
                f.write('# native replay: %s\n' % nat)
        lines.append((path, e, v, nat))
    mismatched = []
    if not viol:
        with cf.ThreadPoolExecutor(NPROC) as ex:
            validated, mismatched = replay.validate(ents, results, work, CXX, HERE, ex)
    same, noans, diff = second_solver(work) if tier == 'thorough' else (0, 0, [])
    errors += ['cvc5 and z3 disagree on ' + f for f in diff]
    seen = set()
    for e, v, k in knownhits:
        if k['key'] + k['entry'] in seen:
            continue
        seen.add(k['key'] + k['entry'])
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    cov = {
        'states': int(tot['states']), 'transitions': int(tot['insts']),
        'traces_validated_against_impl': int(validated), 'traces_not_reproduced': len(mismatched),
        'exhaustive': bool(exhaustive and not errors),
        'paths': int(tot['paths']), 'schedule_points': int(tot['sched_points']), 'merged_states': int(tot['deduped']),
        'assertions_discharged_by_solver': int(tot['asserts_solver']), 'assertions_constant_on_path': int(tot['asserts_constant']),
        'solver_queries': int(tot['queries']), 'solver_unsat': int(tot['unsat']), 'solver_sat': int(tot['sat']),
        'solver_unknown': int(tot['unknown']), 'solver_s': round(tot['solver_s'], 3), 'query_cache_hits': int(tot['query_cache_hits']),
        **({'queries_confirmed_by_cvc5': same, 'queries_cvc5_did_not_decide': noans, 'queries_cvc5_contradicted': len(diff)} if tier == 'thorough' else {}),
        'functions_encoded': sorted(functions), 'repository_lines_executed': len(lines_hit), 'entries': per, 'samples': samples or ['(none)'], 'build_s': round(tb, 2),
        'known_findings': [k['what'] for _, _, k in knownhits],
    }
    if os.environ.get('VERIF_LINES'):
        open(os.path.join(os.environ['VERIF_LINES'], prop + '.lines'), 'w').write('\n'.join(sorted(lines_hit)))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': ['bounds: thread count, operation counts and preemption bound of each entry as listed; outside them nothing is claimed',
                          'interleavings are sequentially consistent at synchronisation operations; weak-memory effects are covered only through the happens-before race check',
                          'allocation never fails; libstdc++ out-of-line runtime replaced by rt/rt.cpp'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for p in per:
        print('%-34s paths=%-7d states=%-7d insts=%-10d queries=%-5d threads=%d p=%d %s' % (
            p['entry'], p['paths'], p['states'], p['insts'], p['queries'], p['max_threads'], p['preemption_bound'],
            'complete' if p['complete'] else 'INCOMPLETE'))
    print('%s %s: %d entries, %d paths, %.1fs' % (prop, tier, len(ents), tot['paths'], time.time() - t0))
    for path, e, v, nat in lines:
        print('  %s [%s] %s at %s' % (e['name'], v['kind'], v['msg'][:300], v['stack'][0] if v['stack'] else '?'))
        for s in v['stack'][1:9]:
            print('      < ' + s)
        if v['stack2']:
            print('    conflicts with ' + v['stack2'][0])
            for s in v['stack2'][1:9]:
                print('      < ' + s)
        if nat:
            print('    native replay: ' + nat)
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if same + noans:
        print('%d of %d queries put to cvc5 as well got the same answer' % (same, same + noans + len(diff)))
    print('%d sampled paths ran natively with the predicted outcome' % validated)
    for x in mismatched:
        print('NOTE native run differs: ' + x)
    for x in errors:
        print('ERROR ' + x)
    if lines:
        return 1
    return 2 if errors else 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except CheckError as e:
        print('ERROR', e)
        sys.exit(2)
