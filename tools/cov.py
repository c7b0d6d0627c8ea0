#!/usr/bin/env python3
"""Development helper: which lines of the library each exploration reaches (gcov); never run by a check.
   cov.py run C01 ...    -> /tmp/w/cov/Cxx.json {file: {line: count}}
   cov.py gaps           -> lines reached by no exploration"""
import sys, os, json, glob, subprocess, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import run
OUT = '/tmp/w/cov'
def one(pid):
    P = run.props()[pid]
    h = P['harness'][0]
    exe = run.build(h, run.DIRS, 'cov')
    pre = os.path.join(OUT, 'gcda-' + pid)
    shutil.rmtree(pre, ignore_errors=True); os.makedirs(pre)
    os.environ['GCOV_PREFIX'] = pre
    res = run.explore(exe, 'quick', [k for k, p, _ in run.findings() if p == pid], None, True, 300)
    del os.environ['GCOV_PREFIX']
    cov = {}; br = {}
    obj = os.path.join(run.BUILD, 'obj')
    for g in glob.glob(pre + '/**/*.gcda', recursive=True):
        b = os.path.basename(g)[:-5]
        src = [f for f in glob.glob(obj + '/' + b + '*.gcno')]
        if not src: continue
        shutil.copy(src[0], os.path.join(os.path.dirname(g), b + '.gcno'))
        r = subprocess.run(['gcov', '-t', '-b', '-c', '--json-format', '-o', os.path.dirname(g), g], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=pre)
        for l in r.stdout.decode(errors='replace').splitlines():
            if not l.startswith('{'): continue
            for f in json.loads(l)['files']:
                if '/ntl-extras/' not in f['file']: continue
                n = f['file'].split('/ntl-extras/')[1]
                d = cov.setdefault(n, {})
                for x in f['lines']:
                    d[str(x['line_number'])] = d.get(str(x['line_number']), 0) + x['count']
                    bs = [b['count'] for b in x.get('branches', []) if not b['throw']]
                    if bs:
                        o = br.setdefault(n, {}).setdefault(str(x['line_number']), [])
                        if len(o) < len(bs): o += [0] * (len(bs) - len(o))
                        for i, v in enumerate(bs): o[i] += v
    shutil.rmtree(pre, ignore_errors=True)
    json.dump(cov, open(os.path.join(OUT, pid + '.json'), 'w')); json.dump(br, open(os.path.join(OUT, 'B' + pid + '.json'), 'w'))
    print(pid, len(res['failures']), {f: '%d/%d' % (sum(1 for v in d.values() if v), len(d)) for f, d in cov.items() if any(d.values())}, flush=True)
def gaps():
    tot = {}
    for j in glob.glob(OUT + '/C*.json'):
        for f, d in json.load(open(j)).items():
            t = tot.setdefault(f, {})
            for l, v in d.items(): t[int(l)] = t.get(int(l), 0) + v
    a = b = 0
    for f in sorted(tot):
        miss = sorted(l for l, v in tot[f].items() if not v)
        a += len(tot[f]); b += len(miss)
        r = []
        for l in miss:
            if r and l - r[-1][1] <= 3: r[-1][1] = l
            else: r.append([l, l])
        print('%-60s %4d/%4d missed: %s' % (f, len(miss), len(tot[f]), ' '.join('%d-%d' % tuple(x) if x[0] != x[1] else str(x[0]) for x in r)))
    print(b, 'of', a)
def branches():
    tot = {}
    for j in glob.glob(OUT + '/BC*.json'):
        for f, d in json.load(open(j)).items():
            t = tot.setdefault(f, {})
            for l, v in d.items():
                o = t.setdefault(int(l), [])
                if len(o) < len(v): o += [0] * (len(v) - len(o))
                for i, x in enumerate(v): o[i] += x
    for f in sorted(tot):
        src = open(os.path.join(run.NTLX, f)).read().split('\n')
        for l in sorted(tot[f]):
            v = tot[f][l]
            if sum(v) and 0 in v and l <= len(src): print('%s:%d: %s   %s' % (f, l, src[l - 1].strip()[:140], v))
if __name__ == '__main__':
    os.makedirs(OUT, exist_ok=True)
    if sys.argv[1] == 'run':
        for p in sys.argv[2:]: one(p)
    elif sys.argv[1] == 'branches': branches()
    else: gaps()
