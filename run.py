#!/usr/bin/env python3
"""Builds a monitor driver with /repo's sources, runs its cases over all cores,
collects what the monitors saw, and decides one property.

  run.py check ID        decide property ID (VERIF_SEED, VERIF_TIER)
  run.py replay FILE     run the single case of a replay file again, verbosely
  run.py build [ID...]   build only

Exit 0: held on everything explored; 1: VIOLATION lines printed; 2: no answer.
"""
import fcntl, glob, hashlib, json, os, re, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

JOBS = 8
CXX = 'g++'
VARIANTS = {
    # memory errors, undefined behaviour and container misuse are fatal
    'asan': '-O1 -g1 -fsanitize=address,undefined,float-cast-overflow '
            '-fno-sanitize-recover=all -fno-omit-frame-pointer '
            '-D_GLIBCXX_DEBUG',
    # for valgrind memcheck (use of uninitialised values)
    'plain': '-O1 -g1',
}
LINK = {'asan': '-fsanitize=address,undefined', 'plain': ''}


def build(ident):
    cfg = CHECKS[ident]
    variants = ['asan'] + (['plain'] if cfg.get('memcheck') else [])
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        for v in variants:
            d = os.path.join(BUILD, v)
            os.makedirs(d, exist_ok=True)
            out = []
            flags = VARIANTS[v]
            out.append('rule cxx\n command = %s $std %s -I%s/include -I%s/harness '
                       '-MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\n'
                       % (CXX, flags, REPO, VERIF))
            out.append('rule link\n command = %s %s $in -o $out\n' % (CXX, LINK[v]))
            objs = []

            def add(src, std):
                o = 'o/' + hashlib.md5(src.encode()).hexdigest()[:6] + '_' + \
                    os.path.basename(src)[:-3] + '.o'
                out.append('build %s: cxx %s\n std = %s\n' % (o, src, std))
                return o
            for s in sorted(glob.glob(REPO + '/src/*/*.cc')):
                objs.append(add(s, '-std=c++11'))
            h = [add(os.path.join(VERIF, 'harness', f), '-std=c++17')
                 for f in ['mon.cc', 'gen.cc']]
            exe = 'drv_' + cfg['driver']
            main = add(os.path.join(VERIF, 'harness', cfg['driver'] + '.cc'), '-std=c++17')
            out.append('build %s: link %s\n' % (exe, ' '.join([main] + h + objs)))
            nf = 'build_%s.ninja' % cfg['driver']
            text = 'ninja_required_version = 1.5\nbuilddir = .\n' + '\n'.join(out)
            p = os.path.join(d, nf)
            if not os.path.exists(p) or open(p).read() != text:
                open(p, 'w').write(text)
            r = subprocess.run(['ninja', '-C', d, '-f', nf, exe], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                sys.stdout.write(r.stdout[-6000:])
                print('BUILD FAILED')
                sys.exit(2)
    return {v: os.path.join(BUILD, v, 'drv_' + cfg['driver']) for v in variants}


ENV = dict(os.environ)
ENV.pop('VERIF_KIND', None)
ENV['ASAN_OPTIONS'] = ('detect_leaks=0:detect_stack_use_after_return=1:abort_on_error=0:'
                       'exitcode=96:allocator_may_return_null=0:strict_string_checks=1')
ENV['UBSAN_OPTIONS'] = 'print_stacktrace=1:exitcode=96'


def crash_key(err, code):
    """Stable identification of an abnormal end: kind and first frame in the tree."""
    kind = 'exit%s' % code
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', err)
    if m:
        kind = m.group(1)
    elif 'runtime error:' in err:
        m = re.search(r'runtime error: (.*)', err)
        kind = 'ub-' + re.sub(r'[^a-z]+', '-', m.group(1).lower())[:40].strip('-')
    elif 'terminate called' in err:
        m = re.search(r"instance of '([\w:]+)", err)
        kind = 'uncaught-' + (m.group(1) if m else 'exception')
    elif 'Error: attempt to' in err:
        m = re.search(r'Error: (attempt to [\w -]+)', err)
        kind = 'libstdcxx-' + re.sub(r'\W+', '-', m.group(1))[:60].strip('-')
    frame = ''
    for m in re.finditer(r'#\d+ 0x[0-9a-f]+ in ([^\n]*?) (?:\(|%s/)' % re.escape(REPO), err):
        f = m.group(1)
        if '__' in f or f.startswith('std::') or f.startswith('operator'):
            continue
        frame = re.sub(r'\(.*', '', f)
        break
    return 'crash:' + kind + (':' + frame if frame else '')


HANGS = []  # cases that ran out of time: a few of them are enough


def run_range(exe, seed, a, b, prefix, wd, state):
    """Runs cases [a,b), restarting behind a case that ends the process."""
    while a < b and len(HANGS) < 3:
        r = subprocess.run([exe, str(seed), str(a), str(b), prefix, str(wd)],
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=ENV,
                           errors='replace', text=True)
        if os.path.exists(prefix + '.viol'):
            for line in open(prefix + '.viol', errors='replace'):
                try:
                    state['viol'].append(json.loads(line))
                except ValueError:
                    pass
        if r.returncode == 0:
            s = json.load(open(prefix + '.sum'))
            state['done'] += s['done']
            state['slow'] = max(state.get('slow', [0, 0]), [s['slowest_ms'], s['slowest_case']])
            for k in ('events', 'checks'):
                for n, c in s[k].items():
                    state[k][n] = state[k].get(n, 0) + c
            state['samples'] += s['samples']
            data = open(prefix + '.dist', 'rb').read()
            state['dist'].update(struct.unpack('<%dQ' % (len(data) // 8), data))
            return
        try:
            at = struct.unpack('<Q', open(prefix + '.crumb', 'rb').read(8))[0]
        except Exception:
            state['error'] = 'driver failed to start: ' + r.stderr[-500:]
            return
        if r.returncode == 97:
            state['hang'].append(at)
            HANGS.append(at)
        else:
            state['viol'].append({'case': at, 'key': crash_key(r.stderr, r.returncode),
                                  'text': r.stderr[-3500:], 'note': ''})
        state['done'] += at - a
        state['restarts'] += 1
        if state['restarts'] > 6:
            return
        a = at + 1


def check(ident):
    t0 = time.time()
    cfg = CHECKS[ident]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    exes = build(ident)
    exe = exes['asan']
    info = subprocess.run([exe, '--info'], stdout=subprocess.PIPE, text=True, env=ENV).stdout
    fixed = int(info.split('\n')[0])
    rule = info.split('\n', 1)[1].strip()
    n = fixed + cfg[tier]
    tmp = os.path.join(BUILD, 'run_%s_%d' % (ident, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    chunks = JOBS * 4
    bounds = [n * i // chunks for i in range(chunks + 1)]

    def job(i):
        st = {'viol': [], 'done': 0, 'events': {}, 'checks': {}, 'samples': [], 'dist': set(),
              'hang': [], 'restarts': 0, 'error': None}
        run_range(exe, seed, bounds[i], bounds[i + 1], os.path.join(tmp, 'c%d' % i),
                  cfg.get('watchdog', 30), st)
        return st
    with ThreadPoolExecutor(JOBS) as ex:
        states = list(ex.map(job, range(chunks)))
    viol, events, checks, samples, dist, done, errors = [], {}, {}, [], set(), 0, []
    for st in states:
        for at in st['hang']:
            if viol:
                break
            # a slow case is not a hang: the case must fail again with more time
            st2 = {'viol': [], 'done': 0, 'events': {}, 'checks': {}, 'samples': [],
                   'dist': set(), 'hang': [], 'restarts': 0, 'error': None}
            del HANGS[:]
            run_range(exe, seed, at, at + 1, os.path.join(tmp, 'h'), 4 * cfg.get('watchdog', 30), st2)
            if st2['hang']:
                viol.append({'case': at, 'key': 'hang', 'text': 'case does not finish', 'note': ''})
            viol += st2['viol']
            done += st2['done']
            dist |= st2['dist']
            for k, dst in (('events', events), ('checks', checks)):
                for a, b in st2[k].items():
                    dst[a] = dst.get(a, 0) + b
        viol += st['viol']
        done += st['done']
        dist |= st['dist']
        samples += st['samples'][:1]
        for k, dst in (('events', events), ('checks', checks)):
            for a, b in st[k].items():
                dst[a] = dst.get(a, 0) + b
        if st['error']:
            errors.append(st['error'])
    extra = {}
    if cfg.get('memcheck') and not errors and not viol:
        extra, v2 = memcheck(exes['plain'], seed, cfg, tier, tmp, fixed)
        viol += v2
    known = [k for k in json.load(open(os.path.join(VERIF, 'known_findings.json')))['findings']
             if k['property'] == ident and k['status'] == 'known']
    known_keys = {k['key'] for k in known}
    seen = {}
    for v in viol:
        seen.setdefault(v['key'], []).append(v)
    out_viol = 0
    rdir = os.path.join(VERIF, 'replays')
    for k in known:
        if k['key'] in seen:
            print('KNOWN-FINDING: property=%s %s' % (ident, k['what']))
    for key in sorted(seen):
        if key in known_keys:
            continue
        v = seen[key][0]
        os.makedirs(rdir, exist_ok=True)
        name = '%s-%s-%d.json' % (ident, re.sub(r'[^A-Za-z0-9_.-]+', '_', key)[:80], v['case'])
        path = os.path.join(rdir, name)
        json.dump({'property': ident, 'seed': seed, 'case': v['case'], 'key': key,
                   'text': v['text'], 'note': v['note'], 'tool': v.get('tool', 'asan'),
                   'cmd': 'python3 /verif/run.py replay ' + path}, open(path, 'w'), indent=1)
        out_viol += 1
        if out_viol <= 25:
            print('VIOLATION property=%s replay=%s' % (ident, path))
            print('  [%s] x%d case %d: %s' % (key, len(seen[key]), v['case'],
                                              v['text'].strip().replace('\n', ' | ')[:600]))
    wall = time.time() - t0
    ev = {'property': ident, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': dict({'evaluations': done, 'distinct_nontrivial': len(dist), 'rule': rule,
                            'samples': samples[:6] or ['(no sample recorded)'],
                            'listed_cases': fixed,
                            'slowest_case_cpu_ms': max([st.get('slow', [0, 0]) for st in states]),
                            'monitor_events': events, 'monitor_evaluations': checks}, **extra),
          'assumptions': cfg.get('assumptions', []), 'wall_s': round(wall, 2),
          'violations': out_viol}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', ident + '.json'), 'w'), indent=1)
    subprocess.run(['rm', '-rf', tmp])
    print('%s %s seed=%d cases=%d distinct=%d monitor evaluations=%d violations=%d %.1fs'
          % (ident, tier, seed, done, len(dist), sum(checks.values()), out_viol, wall))
    if out_viol:
        return 1
    if errors:
        print('NO ANSWER: ' + errors[0])
        return 2
    starved = [k for k in cfg.get('must_see', []) if events.get(k, 0) == 0]
    if done < n or starved:
        print('NO ANSWER: %d of %d cases ran; never observed: %s' % (done, n, starved))
        return 2
    return 0


def memcheck(exe, seed, cfg, tier, tmp, fixed):
    """Same cases under valgrind memcheck: decisions on uninitialised values."""
    per = cfg['memcheck'][tier]
    viol = []
    total = [0]

    def job(i):
        a = 0 if i == 0 else fixed + per * i // JOBS
        b = fixed + per * (i + 1) // JOBS
        pre = os.path.join(tmp, 'v%d' % i)
        r = subprocess.run(['valgrind', '-q', '--error-exitcode=98', '--track-origins=no',
                            '--exit-on-first-error=yes', exe, str(seed), str(a), str(b), pre,
                            '600'], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                           errors='replace', text=True)
        if r.returncode == 0:
            total[0] += b - a
        elif r.returncode == 98:
            at = struct.unpack('<Q', open(pre + '.crumb', 'rb').read(8))[0]
            m = re.search(r'==\d+== (Conditional|Use of|Invalid|Syscall)[^\n]*', r.stderr)
            fr = re.search(r'(?:at|by) 0x[0-9A-F]+: ([A-Z]\w+::[\w~]+)', r.stderr)
            key = 'memcheck:%s:%s' % (m.group(1) if m else 'error', fr.group(1) if fr else '?')
            viol.append({'case': at, 'key': key, 'text': r.stderr[:3000], 'note': '',
                         'tool': 'memcheck'})
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(job, range(JOBS)))
    return {'memcheck_cases': total[0]}, viol


def replay(path):
    r = json.load(open(path))
    exes = build(r['property'])
    c = str(r['case'])
    cmd = [exes['asan'], str(r['seed']), c, str(r['case'] + 1), '/tmp/replay.%d' % os.getpid(),
           '120', 'verbose']
    if r.get('tool') == 'memcheck':
        cmd = ['valgrind', '-q', '--error-exitcode=98', exes['plain']] + cmd[1:]
    p = subprocess.run(cmd, env=ENV)
    for f in glob.glob('/tmp/replay.%d*' % os.getpid()):
        os.remove(f)
    print('exit status of the driver: %d' % p.returncode)
    return 0


if __name__ == '__main__':
    if len(sys.argv) == 3 and sys.argv[1] == 'check':
        sys.exit(check(sys.argv[2]))
    if len(sys.argv) == 3 and sys.argv[1] == 'replay':
        sys.exit(replay(sys.argv[2]))
    if len(sys.argv) >= 2 and sys.argv[1] == 'build':
        for i in sys.argv[2:] or sorted(CHECKS):
            build(i)
        sys.exit(0)
    print(__doc__)
    sys.exit(2)
