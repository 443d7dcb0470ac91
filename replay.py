"""Native replay: the same bitcode as machine code on real threads, following the executor's schedule and inputs.

replay()   runs a counterexample; the answer says whether the real code fails as the executor reported.
validate() runs finished paths of a quiet check and compares what they observe with what the executor predicted.
"""
import concurrent.futures as cf
import glob, os, re, subprocess, threading, time

_built = {}
_lock = threading.Lock()


def _run(cmd, timeout=300):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    if r.returncode != 0:
        raise RuntimeError('%s: %s' % (cmd[0], r.stderr[-600:]))


def _runtime(work, cxx, here):
    with _lock:
        o = os.path.join(work, 'native_rt.o')
        if not os.path.exists(o):
            _run([cxx[0], '-std=c++20', '-O1', '-w', '-c', os.path.join(here, 'rt/native.cpp'), '-o', o])
    return o


def binary(src, names, san, work, cxx, here):
    """An executable of the harness `src` with the entries `names`, under AddressSanitizer or ThreadSanitizer."""
    key = (src, tuple(names), san)
    with _lock:
        ev = _built.get(key)
        mine = ev is None
        if mine:
            ev = _built[key] = {'done': threading.Event(), 'path': None, 'err': None}
    if not mine:
        ev['done'].wait()
    else:
        try:
            h = os.path.basename(src)[:-4]
            base = os.path.join(work, 'n_%s.%s.%d' % (h, san, len(_built)))
            bcs = [os.path.join(work, 'h_%s.bc' % h)] + sorted(glob.glob(os.path.join(work, 'repo_*.bc')))
            _run(['llvm-link-18', *bcs, '-o', base + '.l.bc'])
            _run(['opt-18', '-passes=internalize,globaldce', '-internalize-public-api-list=' + ','.join(names),
                  base + '.l.bc', '-o', base + '.g.bc'])
            _run([os.path.join(here, 'build/symir'), base + '.g.bc', '--instrument=' + base + '.i.bc'])
            _run([cxx[0], '-O0', '-w', '-c', '-fsanitize=' + san, base + '.i.bc', '-o', base + '.o'])
            _run([cxx[0], '-w', '-fsanitize=' + san, base + '.o', _runtime(work, cxx, here), '-rdynamic', '-no-pie', '-pthread',
                  '-o', base])
            ev['path'] = base
        except Exception as x:
            ev['err'] = str(x)
        ev['done'].set()
    if ev['err']:
        raise RuntimeError(ev['err'])
    return ev['path']


def _exec(exe, entry, script, limit):
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:symbolize=1:handle_abort=0:detect_stack_use_after_return=1'
    env['TSAN_OPTIONS'] = 'halt_on_error=0:exitcode=0:report_thread_leaks=0:report_signal_unsafe=0:report_mutex_bugs=0:history_size=5'
    try:
        r = subprocess.run([exe, entry, script, str(limit)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env,
                           timeout=limit + 60, errors='replace')
        return r.stdout, r.stderr, r.returncode
    except subprocess.TimeoutExpired:
        return '', 'no end', -1


def replay(names, e, kind, msg, path, work, cxx, here):
    """What the counterexample does in the real code, in words."""
    race = kind == 'race'
    exe = binary(e['src'], names, 'thread' if race else 'address', work, cxx, here)
    out, err, rc = _exec(exe, e['name'], path, 20)
    m = re.search(r'^RESULT (\w+): (.*)$', out, re.M)
    st = re.search(r'^STATS script=(\d+)/(\d+)', out, re.M)
    how = 'schedule and inputs followed natively'
    if st:
        how += ' (%s of %s scheduling decisions)' % (st.group(1), st.group(2))
    san = re.search(r'ERROR: AddressSanitizer: (.*)', err)
    tsan = re.search(r'WARNING: ThreadSanitizer: data race.*?(?=\n=====|\Z)', err, re.S)
    if race and tsan:
        fr = [x for x in re.findall(r'#\d+ (.*?) (?:/|<null>)', tsan.group(0))][:1]
        return 'confirmed: ThreadSanitizer reports a data race on this schedule' + (' in ' + fr[0][:120] if fr else '')
    if san:
        return ('confirmed: ' if not race else '') + 'AddressSanitizer: ' + san.group(1)[:160]
    if m and m.group(1) == 'diverged':
        return 'not confirmed: the native run left the schedule (%s)' % m.group(2)
    if m and m.group(1) == 'ok':
        what = {'race': 'ThreadSanitizer saw no race', 'undef': 'a read of indeterminate data leaves no trace natively'}.get(kind, 'the run ended normally')
        return 'not confirmed: %s; %s' % (how, what)
    if m:
        same = m.group(1) == kind and (kind != 'assert' or m.group(2) == msg)
        return '%s: %s, the run ends with %s: %s' % ('confirmed' if same else 'the real code fails too', how, m.group(1), m.group(2)[:200])
    return 'the native run ended with status %s: %s' % (rc, err.strip()[-200:])


def validate(ents, results, work, cxx, here, pool):
    """Returns (traces that agree, list of disagreements)."""
    todo = []
    by = {}
    for e in ents:
        by.setdefault(e['src'], []).append(e['name'])
    for e in ents:
        n = 0
        for k, r in enumerate(results.get(e['name'], [])):
            for i, t in enumerate((r or {}).get('traces', [])):
                if n >= 24:
                    break
                n += 1
                f = os.path.join(work, 'tr_%s.%d.%d.txt' % (e['name'], k, i))
                with open(f, 'w') as o:
                    o.write('unlock_sched %d\n' % ('--unlock-sched' in e['flags']))
                    for a, v in t['inputs'].items():
                        o.write('input %s %d\n' % (a, v))
                    o.write('sched %s\n' % t['sched'])
                todo.append((e, f, t['expect']))

    slow = []

    def one(x):
        e, f, want = x
        if len(slow) > 3:
            return False, 'not run: native runs do not end'
        try:
            exe = binary(e['src'], by[e['src']], 'address', work, cxx, here)
        except Exception as ex:
            return None, 'build: ' + str(ex)
        t1 = time.time()
        out, err, rc = _exec(exe, e['name'], f, 30)
        if time.time() - t1 > 25:
            slow.append(f)
        m = re.search(r'STATS script=(\d+)/(\d+) (.*) points', out)
        if 'RESULT ok' in out and m and m.group(1) == m.group(2) and m.group(3) == want:
            return True, ''
        return False, '%s: expected %s, native %s %s' % (os.path.basename(f), want, ' '.join(out.split('\n'))[-300:], err.strip()[:160])

    good, bad = 0, []
    for ok, why in pool.map(one, todo):
        if ok:
            good += 1
        elif why not in bad:
            bad.append(why)
    return good, bad
