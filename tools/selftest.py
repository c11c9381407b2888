#!/usr/bin/env python3
"""Self-tests of the exploration engine (not of cxxmetrics): selftest.py [number of programs]

selftest/known.cpp: programs whose verdict or number of outcomes is known.
selftest/programs.cpp: generated programs, explored with and without partial-order reduction and enumerated by an
independent interpreter; all must agree on the set of outcomes."""
import concurrent.futures as cf, json, os, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import check

def binary(name, d):
    o, x = f'{d}/{name}.o', f'{d}/{name}'
    subprocess.check_call(['g++', '-std=gnu++14', '-O1', '-g', '-w', '-fsanitize=thread', '-c', f'-I{ROOT}/mc', f'{ROOT}/selftest/{name}.cpp', '-o', o])
    subprocess.check_call(['g++', o, '-o', x, f'-L{check.BUILD}', '-lmc', f'-Wl,-rpath,{check.BUILD}', '-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset'])
    return x

def explore(x, d, names, env={}):
    r = subprocess.run([x, '--out', d, '--time', '300'] + names, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env={**os.environ, **env}, timeout=600)
    return [json.loads(l) for l in r.stdout.splitlines() if l.startswith('{')]

def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 2000
    check.build_engines()
    bad = 0
    with tempfile.TemporaryDirectory() as d:
        k, p = binary('known', d), binary('programs', d)
        names = [l.split()[0] for l in subprocess.run([k, '--list'], stdout=subprocess.PIPE, text=True).stdout.splitlines() if l.strip()]
        for h in names:
            r = explore(k, d, [h])[0]
            what = h.split('_')[0]
            ok = {'ok': r['status'] == 'ok', 'bad': r['status'] == 'violation' and r['kind'] == {'lockfree': 'blocked'}.get(h.split('_')[1], h.split('_')[1])}.get(what)
            if ok is None: ok = r['status'] == 'ok' and r['distinct_outcomes'] == int(what[1:])
            if not ok or r['capped']: bad += 1; print('WRONG', h, r['status'], r['kind'], r['distinct_outcomes'])
        print(f'{len(names)} known programs')
        ref = {}
        for l in subprocess.run([p, 'reference', '0', str(n)], stdout=subprocess.PIPE, text=True).stdout.splitlines():
            f = l.split(';'); ref[int(f[0])] = set(f[1:])
        H = ['reduced', 'unreduced', 'reduced_stale', 'unreduced_stale', 'reduced_relaxed', 'unreduced_relaxed']
        tot = dict.fromkeys(H, 0)
        def one(i):
            os.makedirs(f'{d}/{i}')
            return i, sum((explore(p, f'{d}/{i}', [h], {'PROG': str(i), 'MC_ALL_OUTCOMES': '1'}) for h in H), [])
        diff = 0
        with cf.ThreadPoolExecutor(check.JOBS) as ex:
            for i, rs in ex.map(one, range(n)):
                by = {r['harness']: r for r in rs}
                for h in H:
                    if h not in by or by[h]['status'] != 'ok': bad += 1; print('WRONG', i, h, by.get(h)); break
                    tot[h] += by[h]['executions']
                else:
                    s = {h: set(by[h]['outcomes']) for h in H}
                    if s['reduced'] != ref[i]: bad += 1; print('WRONG', i, 'reduced/reference', len(s['reduced']), len(ref[i]))
                    for a in ('', '_stale', '_relaxed'):
                        if by['unreduced' + a]['capped']: diff += 1; continue
                        if s['reduced' + a] != s['unreduced' + a]: bad += 1; print('WRONG', i, a or 'sc', len(s['reduced' + a]), len(s['unreduced' + a]))
        print(f'{n} generated programs; executions', tot, 'not compared', diff)
    print('failures:', bad)
    sys.exit(1 if bad else 0)

if __name__ == '__main__':
    main()
