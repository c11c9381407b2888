#!/usr/bin/env python3
"""Driver:  check.py <property> [--thorough] | --setup | --replay FILE | --list

Builds the harnesses of a property against the working tree of /repo, explores all of them, compares
violations with known_findings.txt and writes evidence/<property>.json."""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
OUT = os.path.join(ROOT, 'out')
JOBS = max(2, os.cpu_count() or 2)
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def die(msg):
    print(msg)
    sys.exit(2)

def newer(dst, *srcs):
    return os.path.exists(dst) and all(os.path.getmtime(dst) >= os.path.getmtime(s) for s in srcs)

def build_engines():
    os.makedirs(BUILD, exist_ok=True)
    so, o = os.path.join(BUILD, 'libmc.so'), os.path.join(BUILD, 'seq.o')
    src = os.path.join(ROOT, 'mc/runtime.cpp')
    if not newer(so, src):
        r = run(['g++', '-std=c++17', '-O2', '-g', '-fPIC', '-shared', '-w', '-fvisibility=hidden', src, '-o', so + '.tmp', '-ldl'])
        if r.returncode: die(r.stdout[-3000:])
        os.rename(so + '.tmp', so)
    src = os.path.join(ROOT, 'seq/seq.cpp')
    if not newer(o, src, os.path.join(ROOT, 'seq/seq.hpp')):
        r = run(['g++', '-std=c++17', '-O1', '-g', '-w', '-c', src, '-o', o + '.tmp'])
        if r.returncode: die(r.stdout[-3000:])
        os.rename(o + '.tmp', o)

def directives(src):
    d = {'engine': 'mc', 'std': 'gnu++14', 'parts': {}, 'inc': [], 'def': []}
    with open(src) as f:
        for line in f:
            if not line.startswith('//'): break
            for k, v in re.findall(r'@(\w+) ([^@\n]*)', line):
                v = v.strip()
                if k == 'parts':
                    for x in v.split():
                        n, p = x.rsplit(':', 1)
                        d['parts'][n] = int(p)
                elif k in ('inc', 'def'): d[k] += v.split()
                elif k in ('engine', 'std'): d[k] = v.split()[0]
    return d

def build(src):
    """harness source -> (binary, error text)"""
    d = directives(src)
    name = os.path.basename(src)[:-4]
    tag = hashlib.sha1(REPO.encode()).hexdigest()[:8] if REPO != '/repo' else 'repo'
    bdir = os.path.join(BUILD, tag)
    os.makedirs(bdir, exist_ok=True)
    exe = os.path.join(bdir, name)
    inc = ['-I' + os.path.join(ROOT, 'harness')] + ['-I' + os.path.join(ROOT, 'harness', i) for i in d['inc']] + ['-I' + REPO] + ['-D' + x for x in d['def']]
    base = ['g++', '-std=' + d['std'], '-O1', '-g', '-w', '-include', 'prelude.hpp']
    if d['engine'] == 'seq':
        # indeterminate variables get a pattern; library containers check their indices
        r = run(base + ['-ftrivial-auto-var-init=pattern', '-D_GLIBCXX_ASSERTIONS', '-fsanitize=address,bounds,return,null', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer',
                        '-I' + os.path.join(ROOT, 'seq')] + inc + [src, os.path.join(BUILD, 'seq.o'), '-latomic', '-o', exe])
        return exe, (r.stdout if r.returncode else '')
    obj = exe + '.o'
    r = run(base + ['-fsanitize=thread', '-c', '-I' + os.path.join(ROOT, 'mc')] + inc + [src, '-o', obj])
    if r.returncode: return exe, r.stdout
    r = run(['g++', obj, '-o', exe, '-L' + BUILD, '-lmc', '-Wl,-rpath,$ORIGIN/..', '-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset', '-latomic'])
    return exe, (r.stdout if r.returncode else '')

def sources(prop):
    p = prop.lower()
    return sorted(glob.glob(os.path.join(ROOT, 'harness', p + '_*.cpp')))

def known_findings():
    res = []
    path = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) harness=(\S+) match=/(.*?)/ (.*)', line.strip())
            if m: res.append({'property': m[1], 'harness': m[2], 'match': m[3], 'what': m[4]})
    return res

def explore(job, deadline, thorough):
    exe, harness, part, limit = job
    left = deadline - time.time()
    if left < 2: return {'harness': harness, 'status': 'skipped', 'part': part}
    cmd = [exe, '--out', job_out(harness, part), '--time', '%.0f' % max(1, min(limit, left - 5))]
    os.makedirs(job_out(harness, part), exist_ok=True)
    if thorough: cmd.append('--thorough')
    if part: cmd += ['--part', str(part[0]), str(part[1])]
    cmd.append(harness)
    t = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=max(5, left + 30))
    except subprocess.TimeoutExpired:
        return {'harness': harness, 'status': 'skipped', 'part': part}
    try:
        d = json.loads(r.stdout.strip().splitlines()[-1])
    except Exception:
        return {'harness': harness, 'status': 'error', 'message': 'exit %s %s' % (r.returncode, r.stderr[-1500:])}
    d['wall'] = round(time.time() - t, 2)
    d['part'] = part
    if r.returncode not in (0, 1): d['status'] = 'error'; d['message'] = 'exit %s %s' % (r.returncode, r.stderr[-1500:])
    return d

def job_out(harness, part):
    return os.path.join(OUT, harness + ('.%d' % part[0] if part else ''))

def check(prop, thorough):
    t0 = time.time()
    deadline = t0 + (840 if thorough else 600)
    limit = 780 if thorough else 150
    build_engines()
    srcs = sources(prop)
    if not srcs: die('no harness for ' + prop)
    only = os.environ.get('ONLY')
    jobs = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        built = list(ex.map(build, srcs))
    for src, (exe, err) in zip(srcs, built):
        if err:
            print(err[:4000])
            die('cannot build %s against %s' % (os.path.basename(src), REPO))
    for src, (exe, err) in zip(srcs, built):
        d = directives(src)
        r = run([exe, '--list'])
        for line in r.stdout.splitlines():
            name, fl = line.split()
            th = bool(int(fl) & (16 if d['engine'] == 'mc' else 1))
            if th and not thorough: continue
            if only and not re.search(only, name): continue
            n = d['parts'].get(name, 1)
            if n == 1: jobs.append((exe, name, None, limit))
            else: jobs += [(exe, name, (i, n), limit) for i in range(n)]
    jobs.sort(key=lambda j: 0 if j[2] else 1)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        results = list(ex.map(lambda j: explore(j, deadline, thorough), jobs))
    engine = {}
    for src in srcs:
        pass
    known = [k for k in known_findings() if k['property'] == prop]
    rc, viol, errors, capped, found = 0, [], [], [], set()
    for d in results:
        if d['status'] == 'violation':
            text = '%s: %s' % (d.get('kind', ''), d.get('message', ''))
            hit = None
            for k in known:
                if k['harness'] == d['harness'] and re.search(k['match'], text): hit = k
            if hit:
                found.add((hit['harness'], hit['what']))
            else: viol.append((d, text))
        elif d['status'] == 'error': errors.append(d)
        elif d['status'] in ('capped', 'skipped') or d.get('capped'): capped.append(d['harness'])
    tot = lambda k: sum(int(d.get(k, 0) or 0) for d in results)
    samples = []
    for d in sorted(results, key=lambda d: -int(d.get('executions', 0) or 0)):
        if len(samples) >= 40: break
        samples.append({k: d[k] for k in ('harness', 'status', 'executions', 'transitions', 'states', 'max_depth', 'distinct_outcomes', 'checks', 'wall', 'part') if k in d and d[k] is not None})
        oc = d.get('outcomes')
        if isinstance(oc, dict): samples[-1]['outcomes'] = dict(list(oc.items())[:6])
    ev = {
        'property': prop, 'tier': 'thorough' if thorough else 'quick', 'seed': SEED, 'level': 'model_checking',
        'coverage': {
            'states': tot('states'), 'transitions': tot('transitions'), 'traces_validated_against_impl': tot('executions'),
            'samples': samples, 'exhaustive': not capped and not errors, 'harnesses': len({d['harness'] for d in results}),
            'comparisons_with_reference': tot('checks'), 'capped': sorted(set(capped)),
            'explanation': 'states: nodes of the exploration tree reached for the first time (schedule prefixes or choice prefixes); '
                           'transitions: visible operations or harness operations executed; every trace is an execution of the code of '
                           + REPO + ' itself, so all of them are validated against the implementation.',
        },
        'assumptions': ['sequentially consistent interleavings plus, where a harness says so, stale reads allowed by coherence; race detection uses the declared memory orders',
                        'bounds of the harnesses: numbers of threads, operations, values and capacities as written in harness/%s_*.cpp' % prop.lower()],
        'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for h, w in sorted(found): print('KNOWN-FINDING: property=%s %s: %s' % (prop, h, w))
    for d in errors: print('ERROR %s: %s' % (d['harness'], d.get('message')))
    for d, text in viol:
        print('%s: %s' % (d['harness'], text))
        rp = d.get('replay') or job_out(d['harness'], d.get('part'))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
    print('%s %s: %d harnesses, %d executions, %d transitions, %d states%s, %.1f s' % (prop, ev['tier'], ev['coverage']['harnesses'],
          tot('executions'), tot('transitions'), tot('states'), ', capped: ' + ' '.join(sorted(set(capped))) if capped else '', time.time() - t0))
    if viol: return 1
    if errors: return 2
    return 0

def replay(path):
    build_engines()
    name = None
    for line in open(path):
        if line.startswith('harness '): name = line.split()[1]
    for src in sources(name.split('_')[0]):
        exe, err = build(src)
        if err: die(err)
        if any(l.split()[0] == name for l in run([exe, '--list']).stdout.splitlines()):
            os.execv(exe, [exe, '--replay', path])
    die('no harness ' + str(name))

def main():
    a = sys.argv[1:]
    if not a: die(__doc__)
    if a[0] == '--setup':
        build_engines()
        return 0
    if a[0] == '--replay': return replay(a[1])
    thorough = '--thorough' in a or os.environ.get('VERIF_TIER') == 'thorough'
    return check(a[0], thorough)

if __name__ == '__main__':
    sys.exit(main())
