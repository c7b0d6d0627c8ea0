#!/usr/bin/env python3
"""Development helper: mutation campaign. Small edits of the library, each run against the explorations that reach the edited
line (coverage maps of cov.py); lists the edits nothing notices. Never run by a check.
   mutate.py gen N SEED > list.json ; mutate.py run list.json out.jsonl LANES"""
import sys, os, json, re, random, subprocess, shutil, tempfile, time, glob
from concurrent.futures import ThreadPoolExecutor
import threading
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, V)
import run
COV = '/tmp/w/cov'

def covmap():
    m = {}
    for j in glob.glob(COV + '/C*.json'):
        pid = os.path.basename(j)[:-5]
        for f, d in json.load(open(j)).items():
            for l, v in d.items():
                if v: m.setdefault((f, int(l)), []).append(pid)
    return m

OPS = [(r'(?<![<>\-=!+*/<])<(?![<=>])', '<='), (r'<=', '<'), (r'(?<![->=<])>(?![>=])', '>='), (r'>=', '>'), (r'==', '!='), (r'!=', '=='),
       (r'(?<=[\w\)\]]) ?\+ ?1\b', ''), (r'(?<=[\w\)\]]) ?- ?1\b', ''), (r'(?<=[\w\)\]])\+(?=[a-z])', '-'), (r'(?<=[\w\)\]]) \+ (?=[a-z])', ' - '), (r'(?<=[\w\)\]]) - (?=[a-z])', ' + '), (r'(?<=[\w\)\]])-(?=[a-z])', '+'),
       (r'&&', '||'), (r'\|\|', '&&'), (r'(?<![\w.])0(?![\w.])', '1'), (r'(?<![\w.])1(?![\w.L])', '2'), (r'(?<![\w.])1(?![\w.L])', '0'), (r'(?<![\w.])2(?![\w.])', '1'),
       (r'\[i\]\[j\]', '[j][i]'), (r'\bmin\(', 'max('), (r'\bmax\(', 'min('), (r'\badd\(', 'sub('), (r'\bsub\(', 'add('), (r'\+=', '-='), (r'-=', '+='), (r'\btrunc\(([^,()]+), ([^,()]+), ([^,()]+)\)', r'trunc(\1, \2, (\3)-1)'),
       (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'! ?(?=[a-z(])', ''), (r'>> 1', ''), (r'\bdeg\(([^()]+)\)', r'(deg(\1)+1)'), (r'NumRows', 'NumCols'), (r'NumCols', 'NumRows')]
DEL = re.compile(r'^\s*[\w\.\[\]>:&-]+(\(.*\))?(\s*[-+*/]?=[^=].*)?;\s*$')

def gen(n, seed):
    m = covmap(); rnd = random.Random(seed); per = {}
    for (f, l) in m: per.setdefault(f, []).append(l)
    muts = []
    for f in sorted(per):
        if not f.endswith('.cpp') or '/src/' not in f: continue
        L = open(os.path.join(run.NTLX, f)).read().split('\n')
        c = []
        for l in sorted(per[f]):
            if l > len(L): continue
            t = L[l - 1]; code = t.split('//')[0]
            if not code.strip() or code.strip().startswith(('#', '/*', '*', 'template')): continue
            if 'Error(' in code or 'cout' in code or 'GetWallTime' in code: continue
            for i, (a, b) in enumerate(OPS):
                for x in re.finditer(a, code):
                    new = code[:x.start()] + x.expand(b) + code[x.end():]
                    if new != code: c.append((f, l, t, new + t[len(code):], 'op%d' % i))
            if DEL.match(code) and not re.match(r'^\s*(return|break|continue|long|const|zz_p|zz_pX|Vec|Mat|std|double|VecLong|using|else|[A-Za-z_:<>]+ +[A-Za-z_]+[;( =])\b', code) and code.count('(') == code.count(')'):
                c.append((f, l, t, re.match(r'^\s*', code).group(0) + ';', 'del'))
        rnd.shuffle(c)
        seen = set(); k = []
        quota = max(4, int(n * len(per[f]) / 11000.0))
        for x in c:
            if (x[1], x[4]) in seen: continue
            seen.add((x[1], x[4])); k.append(x)
            if len(k) >= quota: break
        muts += k
    rnd.shuffle(muts)
    return muts

def lane_run(args, timeout):
    try: return subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=run.env(), timeout=timeout)
    except subprocess.TimeoutExpired: return None

def main():
    if sys.argv[1] == 'gen':
        json.dump(gen(int(sys.argv[2]), int(sys.argv[3])), sys.stdout, indent=0); return
    muts = json.load(open(sys.argv[2])); out = sys.argv[3]; lanes = int(sys.argv[4]); workers = max(1, 8 // lanes)
    only = None
    m = covmap(); P = run.props(); done = set()
    cost = json.load(open(COV + '/cost.json'))
    if os.path.exists(out):
        for l in open(out):
            x = json.loads(l); done.add((x['f'], x['l'], x['new']))
    # clean objects for the whole library and harness objects
    lib = run.lib_sources(run.DIRS); libobj = dict(zip([s for s, _ in lib], run.compile_all(lib, 'plain')))
    hob = {}
    for pid in P:
        if pid == 'C23': continue
        h = P[pid]['harness'][0]; src = os.path.join(run.VERIF, 'harness', h + '.cpp'); hob[pid] = run.compile_all([(src, [])], 'plain')[0]
    gen_ = run.gen_headers(); inc = ['-I' + os.path.join(run.NTLX, d) for d in run.DIRS] + ['-I' + gen_]
    lock = threading.Lock()
    def ev(x):
        f, l, old, new, kind = x
        if (f, l, new) in done: return
        d = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
        res = {'f': f, 'l': l, 'old': old.strip(), 'new': new, 'kind': kind}
        t0 = time.time()
        try:
            src = os.path.join(run.NTLX, f); L = open(src).read().split('\n')
            if L[l - 1] != old: res['r'] = 'stale'; return
            L[l - 1] = new
            ms = os.path.join(d, os.path.basename(f)); open(ms, 'w').write('\n'.join(L))
            o = os.path.join(d, 'm.o'); so = os.path.join(d, 'c.o')
            cmd = ['g++'] + run.BASE + run.CFG['plain'] + inc + ['-I' + os.path.dirname(src)]
            r = lane_run(cmd + ['-c', ms, '-o', o], 300)
            if not r or r.returncode: res['r'] = 'nocompile'; return
            a = subprocess.run('objcopy -O binary --only-section=.text %s /dev/stdout 2>/dev/null | md5sum' % o, shell=True, stdout=subprocess.PIPE).stdout
            if open(o, 'rb').read().replace(ms.encode(), b'') == open(libobj[src], 'rb').read(): res['r'] = 'same'; return
            objs = [o if s == src else b for s, b in libobj.items()]
            ar = os.path.join(d, 'l.a'); subprocess.run(['ar', 'rc', ar] + objs, check=True)
            ps = sorted(m.get((f, l), []), key=lambda p: cost.get(p, 50)); res['checks'] = ps; res['r'] = 'SURVIVED'
            for p in ps:
                exe = os.path.join(d, 'x')
                r = lane_run(['g++', '-O3', '-rdynamic', hob[p], ar, '-o', exe] + run.LIBS, 300)
                if not r or r.returncode: res['r'] = 'nolink'; return
                oj = os.path.join(d, 'o.json')
                r = lane_run([exe, '--tier', 'quick', '--workers', str(workers), '--out', oj, '--scratch', d, '--limit', '20', '--maxfail', '1', '--first', '--known', 'KF-01'], 900)
                if not r or r.returncode: res['r'] = 'explorer ' + p; return
                j = json.load(open(oj)); fl = [q for q in j['failures'] if not q['known']]
                if fl: res['r'] = 'killed'; res['by'] = p; res['msg'] = fl[0]['space'] + ' ' + fl[0]['kind']; return
        finally:
            res['t'] = round(time.time() - t0, 1)
            shutil.rmtree(d, ignore_errors=True)
            with lock:
                with open(out, 'a') as g: g.write(json.dumps(res) + '\n')
    with ThreadPoolExecutor(lanes) as ex: list(ex.map(ev, muts))
main()
