#!/usr/bin/env python3
"""Decide one property: build the library from /repo's working tree, explore, report.

  run.py PROPERTY [--tier quick|thorough] [--only SPACES] [--dev]
  run.py --setup        compile what the checks need (warms nothing outside /verif/build)
"""
import sys, os, json, hashlib, subprocess, time, glob, shutil, tempfile, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
NTLX = os.path.join(REPO, 'ntl-extras')
BUILD = os.path.join(VERIF, 'build')
DIRS = ['util', 'sage_output', 'magma_output', 'lzz_p_extra', 'vec_lzz_p_extra', 'lzz_pX_extra',
        'lzz_pX_middle_product', 'lzz_pX_CRT', 'mat_lzz_p_extra', 'structured_lzz_p',
        'mat_lzz_pX_extra', 'lzz_pXY', 'structured_lzz_pX', 'lzz_pX_seq']
BASE = ['-std=c++11', '-w']
CFG = {
    'plain': ['-O3'],
    # memory-safety build: every NTL container access checked, plus sanitizers
    'safe': ['-O1', '-g1', '-DNTL_RANGE_CHECK', '-fno-omit-frame-pointer', '-fsanitize=address,bounds,shift,integer-divide-by-zero,signed-integer-overflow,null,return,vla-bound',
             '-fno-sanitize-recover=all'],
}
CFG['cov'] = ['-O1', '--coverage', '-DMC_COV']     # development only: which lines the explorations reach
LIBS = ['-lntl', '-lpthread', '-lgmp', '-lm']
NCPU = os.cpu_count() or 4
# flint-extras: its C sources against the mini-FLINT environment model (harness/miniflint), FLINT itself is not installed
FX = os.path.join(REPO, 'flint-extras', 'src')
FXCFG = {
    'fx': ['-O2'],                      # with the SIMD variants this machine supports
    'fxgen': ['-O2'],                   # generic C variants only
    'fxsafe': ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,bounds,integer-divide-by-zero,null,return,vla-bound', '-fno-sanitize-recover=all'],
}


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:32]


def rd(p):
    with open(p, 'rb') as f:
        return f.read()


class BuildError(Exception):
    pass


def gen_headers():
    """Default threshold headers: X.orig serves as X.h unless a tuned X.h exists (as the library's own makefiles do)."""
    gen = os.path.join(BUILD, 'gen')
    os.makedirs(gen, exist_ok=True)
    keep = set()
    for d in DIRS:
        for o in sorted(glob.glob(os.path.join(NTLX, d, '*.orig'))):
            h = os.path.basename(o)[:-5] + '.h'
            if os.path.exists(os.path.join(NTLX, d, h)):
                continue
            keep.add(h)
            dst = os.path.join(gen, h)
            if not os.path.exists(dst) or rd(dst) != rd(o):
                tmp = dst + '.%d' % os.getpid()
                with open(tmp, 'wb') as f:
                    f.write(rd(o))
                os.replace(tmp, dst)
    for f in os.listdir(gen):
        if f not in keep and f.endswith('.h'):
            os.unlink(os.path.join(gen, f))
    return gen


def compile_all(sources, cfg, quiet=False):
    """sources: list of (path, extra flags). Content-addressed object cache; never trusts timestamps."""
    gen = gen_headers()
    inc = ['-I' + os.path.join(NTLX, d) for d in DIRS] + ['-I' + gen, '-I' + os.path.join(VERIF, 'harness')]
    hdrs = []
    for d in DIRS:
        hdrs += sorted(glob.glob(os.path.join(NTLX, d, '*.h')))
        hdrs += sorted(glob.glob(os.path.join(NTLX, d, 'src', '*.h')))
    hdrs += sorted(glob.glob(os.path.join(gen, '*.h')))
    hkey = sha(*[x for h in hdrs for x in (os.path.relpath(h, '/'), rd(h))])
    vkey = sha(*[rd(h) for h in sorted(glob.glob(os.path.join(VERIF, 'harness', '*.h')))])
    flags = BASE + CFG[cfg]
    odir = os.path.join(BUILD, 'obj')
    os.makedirs(odir, exist_ok=True)
    jobs, objs = [], []
    for src, extra in sources:
        mine = src.startswith(VERIF)
        k = sha('v1', cfg, ' '.join(flags + extra), src, rd(src), hkey, vkey if mine else '')
        o = os.path.join(odir, k + '.o')
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((os.path.getsize(src) * (3 if mine else 1), src, extra, o))
    jobs.sort(reverse=True)

    def one(j):
        _, src, extra, o = j
        tmp = o + '.%d.tmp' % os.getpid()
        r = subprocess.run(['g++'] + flags + extra + inc + ['-c', src, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            return src, r.stdout.decode(errors='replace')
        os.replace(tmp, o)
        return None
    with ThreadPoolExecutor(NCPU) as ex:
        bad = [x for x in ex.map(one, jobs) if x]
    if bad:
        raise BuildError('\n'.join('%s:\n%s' % (s, m[-3000:]) for s, m in bad))
    return objs


def lib_sources(modules):
    out = []
    for d in modules:
        out += [(s, []) for s in sorted(glob.glob(os.path.join(NTLX, d, 'src', '*.cpp')))]
    return out


def build(name, modules, cfg='plain'):
    if cfg in FXCFG:
        return fx_build(name, cfg)
    try:
        return build1(name, modules, cfg)
    except BuildError:
        if set(modules) == set(DIRS):
            raise
        return build1(name, DIRS, cfg)      # the module list is only an optimisation


def build1(name, modules, cfg):
    src = os.path.join(VERIF, 'harness', name + '.cpp')
    objs = compile_all([(src, [])] + lib_sources(modules), cfg)
    bdir = os.path.join(BUILD, 'bin')
    os.makedirs(bdir, exist_ok=True)
    exe = os.path.join(bdir, name + '-' + cfg + '-' + sha(*objs)[:16])
    if not os.path.exists(exe):
        tmp = exe + '.%d' % os.getpid()
        ar = tmp + '.a'
        subprocess.run(['ar', 'rc', ar] + objs[1:], check=True)
        r = subprocess.run(['g++'] + CFG[cfg] + ['-rdynamic', objs[0], ar, '-o', tmp] + LIBS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        os.unlink(ar)
        if r.returncode:
            raise BuildError(r.stdout.decode(errors='replace')[-3000:])
        os.replace(tmp, exe)
    prune()
    return exe


def fx_flags(cfg):
    fl = list(FXCFG[cfg])
    try:
        cpu = set(re.search(r'^flags\s*:(.*)$', open('/proc/cpuinfo').read(), re.M).group(1).split())
    except (OSError, AttributeError):
        cpu = set()
    if cfg != 'fxgen' and {'avx2', 'fma', 'bmi2'} <= cpu:
        fl += ['-DFLINT_HAVE_FFT_SMALL', '-mavx2', '-mfma', '-mbmi2']
        a5 = ['f', 'dq', 'bw', 'vl', 'cd', 'ifma', 'vnni']
        if all('avx512' + ('_vnni' if x == 'vnni' else x) in cpu for x in a5):
            fl += ['-mavx512' + x for x in a5]
    return fl


def fx_gen():
    gen = os.path.join(BUILD, 'gen-fx')
    os.makedirs(gen, exist_ok=True)
    t = rd(os.path.join(FX, 'pml.h.in')).decode()
    for a, b in (('@PML_MAJOR@', '0'), ('@PML_MINOR@', '0'), ('@PML_PATCH@', '4'), ('@PML_VERSION_FULL@', '0.0.4')):
        t = t.replace(a, b)
    for n, c in (('pml.h', t), ('pml-config.h', ''), ('config.h', '')):
        p = os.path.join(gen, n)
        if not os.path.exists(p) or rd(p).decode() != c:
            with open(p + '.%d' % os.getpid(), 'w') as f:
                f.write(c)
            os.replace(p + '.%d' % os.getpid(), p)
    return gen


def fx_compile(harness, cfg):
    gen = fx_gen()
    mini = os.path.join(VERIF, 'harness', 'miniflint')
    inc = ['-I' + mini, '-I' + gen, '-I' + FX, '-I' + os.path.join(VERIF, 'harness')]
    hs = sorted(glob.glob(os.path.join(FX, '**', '*.h'), recursive=True)) + sorted(glob.glob(os.path.join(mini, '**', '*.h'), recursive=True)) + sorted(glob.glob(os.path.join(gen, '*.h')))
    hkey = sha(*[x for h in hs for x in (os.path.relpath(h, '/'), rd(h))])
    vkey = sha(*[rd(h) for h in sorted(glob.glob(os.path.join(VERIF, 'harness', '*.h')))])
    flags = fx_flags(cfg) + ['-w']
    srcs = [os.path.join(VERIF, 'harness', h + '.cpp') for h in harness]
    for f in sorted(glob.glob(os.path.join(FX, '**', '*.c'), recursive=True)):
        d = set(os.path.relpath(f, FX).split(os.sep)[:-1])
        if not d & {'test', 'profile', 'timings', 'tune', 'mapml', 'examples'}:
            srcs.append(f)
    odir = os.path.join(BUILD, 'obj')
    os.makedirs(odir, exist_ok=True)
    jobs, objs = [], []
    for src in srcs:
        mine = src.endswith('.cpp')
        o = os.path.join(odir, sha('fx1', cfg, ' '.join(flags), src, rd(src), hkey, vkey if mine else '') + '.o')
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((os.path.getsize(src) * (3 if mine else 1), src, o))
    jobs.sort(reverse=True)

    def one(j):
        _, src, o = j
        tmp = o + '.%d.tmp' % os.getpid()
        cc = ['g++', '-std=gnu++17', '-fpermissive'] if src.endswith('.cpp') else ['gcc', '-std=gnu11']
        r = subprocess.run(cc + flags + ['-I' + os.path.dirname(src)] + inc + ['-c', src, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            return src, r.stdout.decode(errors='replace')
        os.replace(tmp, o)
        return None
    with ThreadPoolExecutor(NCPU) as ex:
        bad = [x for x in ex.map(one, jobs) if x]
    if bad:
        raise BuildError('\n'.join('%s:\n%s' % (s, m[-3000:]) for s, m in bad))
    return objs


def fx_build(name, cfg):
    objs = fx_compile([name], cfg)
    bdir = os.path.join(BUILD, 'bin')
    os.makedirs(bdir, exist_ok=True)
    exe = os.path.join(bdir, name + '-' + cfg + '-' + sha(*objs)[:16])
    if not os.path.exists(exe):
        tmp = exe + '.%d' % os.getpid()
        r = subprocess.run(['g++'] + FXCFG[cfg] + ['-rdynamic'] + objs + ['-o', tmp, '-lgmp', '-lm'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError(r.stdout.decode(errors='replace')[-3000:])
        os.replace(tmp, exe)
    prune()
    return exe


def prune():
    """keep the cache small"""
    odir = os.path.join(BUILD, 'obj')
    try:
        fs = sorted((os.path.join(odir, f) for f in os.listdir(odir)), key=os.path.getmtime)
        for f in fs[:-1200]:
            os.unlink(f)
        bdir = os.path.join(BUILD, 'bin')
        fs = sorted((os.path.join(bdir, f) for f in os.listdir(bdir)), key=os.path.getmtime)
        for f in fs[:-60]:
            os.unlink(f)
    except OSError:
        pass


def env():
    e = dict(os.environ)
    e['MALLOC_PERTURB_'] = '165'      # fresh and freed heap memory is never zero
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=0:allocator_may_return_null=1:max_malloc_fill_size=1048576:malloc_fill_byte=165'
    e['UBSAN_OPTIONS'] = 'halt_on_error=1:print_stacktrace=0'
    return e


def findings():
    """known_findings.txt: 'KF-xx property=Cyy <text>' (open), 'fixed: property=Cyy <commit> <text>' (suppresses nothing)"""
    r = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'^(KF-\w+)\s+property=(\w+)\s+(.*)$', l.strip())
            if m:
                r.append(m.groups())
    return r


def explore(exe, tier, known, only=None, dev=False, limit=60, extra=()):
    scratch = tempfile.mkdtemp(prefix='mc-', dir='/tmp')
    try:
        out = os.path.join(scratch, 'out.json')
        cmd = [exe, '--tier', tier, '--workers', str(NCPU), '--out', out, '--scratch', scratch, '--limit', str(limit)] + list(extra)
        if known:
            cmd += ['--known', ','.join(known)]
        if only:
            cmd += ['--only', only]
        if dev:
            cmd += ['--all']
        r = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode != 0:
            raise RuntimeError('explorer failed (%d): %s' % (r.returncode, r.stderr.decode(errors='replace')[-2000:]))
        res = json.load(open(out))
        # replay before report
        conf = []
        seen = {}
        for f in res['failures']:
            if f['known'] and not dev:
                conf.append(f)
                continue
            if dev:
                conf.append(f)
                continue
            if seen.get(f['space'], 0) >= 2:
                continue
            f['replay'] = confirm(exe, tier, f, known, scratch, limit, list(extra))
            if f['replay']:
                seen[f['space']] = seen.get(f['space'], 0) + 1
                conf.append(f)
        res['unconfirmed'] = len(res['failures']) - len(conf)
        res['failures'] = conf
        return res
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def confirm(exe, tier, f, known, scratch, limit, extra):
    """Re-run the failing case alone; then, if it passes alone, the worker's history up to it."""
    lim = limit * 4 if f['kind'] == 'timeout' else limit * 2
    args = extra + ['--tier', tier, '--replay', '%s:%s' % (f['space'], f['seq'])]

    def runs(a, t):
        try:
            r = subprocess.run([exe] + a + ['--scratch', scratch], env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
        except subprocess.TimeoutExpired:
            return f['kind'] == 'timeout'
        return r.returncode not in (0, 2)
    if runs(args, lim):
        return args
    if f['kind'] == 'timeout':
        return None
    pre = extra + ['--tier', tier, '--prefix', '%s:%d:%d:%d' % (f['space'], f['shard'], f['nshards'], f['ordinal'])]
    if runs(pre, 600):
        return pre
    # the wrong result was observed but depends on uncontrolled memory contents: run the history again a few times
    for _ in range(2):
        if runs(pre, 600):
            return pre
    return None


PROPS = None


def props():
    global PROPS
    if PROPS is None:
        PROPS = json.load(open(os.path.join(VERIF, 'checks.json')))
    return PROPS


def main():
    av = sys.argv[1:]
    if av and av[0] == '--setup':
        # every check builds what it needs from /repo by itself; this only verifies the tool chain
        try:
            build('c01', props()['C01']['modules'], 'plain')
        except BuildError as e:
            print(e)
            return 2
        print('setup ok')
        return 0
    pid = av[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only, dev = None, False
    i = 1
    while i < len(av):
        if av[i] == '--tier':
            tier = av[i + 1]; i += 1
        elif av[i] == '--only':
            only = av[i + 1]; i += 1
        elif av[i] == '--dev':
            dev = True
        i += 1
    P = props()[pid]
    t0 = time.time()
    kf = [(k, p, t) for k, p, t in findings() if p == pid]
    cfg = P.get('cfg', 'plain')
    allres = []
    try:
        cfgs = cfg if isinstance(cfg, list) else [cfg]
        if cfgs[0] in FXCFG:
            pass
        elif len(P['harness']) > 1:       # compile everything at once
            compile_all([(os.path.join(VERIF, 'harness', h + '.cpp'), []) for h in P['harness']] + lib_sources(P.get('modules', DIRS)), cfg)
            print('compiled %.1f s' % (time.time() - t0)) if dev else None
        for h, cfg in [(h, c) for h in P['harness'] for c in cfgs]:
            exe = build(h, P.get('modules', DIRS), cfg)
            for plan in P.get('plan', {}).get(tier, {}).get(h, [{}]):
                pt = P.get('safe_tier', {}).get(tier, tier) if cfg == 'fxsafe' else tier      # smaller bounds for the slow build
                res = explore(exe, plan.get('tier', pt), [k for k, _, _ in kf], only or plan.get('only'), dev, limit=P.get('limit', 60), extra=P.get('args', []))
                res['harness'] = h
                res['cfg'] = cfg
                res['exe'] = exe
                allres.append(res)
    except BuildError as e:
        print('ERROR: the library or the harness does not compile:\n' + str(e))
        return 2
    wall = time.time() - t0
    spaces = [dict(s, harness=r['harness'] + ('' if len(cfgs) < 2 else '-' + r['cfg'])) for r in allres for s in r['spaces']]
    fails = [dict(f, harness=r['harness'], cfg=r['cfg'], exe=r['exe']) for r in allres for f in r['failures']]
    known = [f for f in fails if f['known']]
    viol = [f for f in fails if not f['known']]
    if dev:
        for s in spaces:
            print('%-28s leaves %8d exec %8d calls %9d outcomes %8d cpu %.1f %s' % (s['name'], s['leaves'], s['executed'], s['calls'], s['outcomes'], s['cpu_s'], '' if s['complete'] else 'INCOMPLETE'))
        for f in fails[:int(os.environ.get('SHOW', '12'))]:
            print('-', f['space'], f['seq'], f['kind'], f['known'], '|', f['desc'], '|', f['msg'][:int(os.environ.get('MSG', '220'))])
        print('total failures', len(fails), 'wall %.1f build+run' % wall)
        return 1 if viol else 0
    # evidence
    samples = []
    for s in spaces:
        for x in s['samples'][:1]:
            samples.append('%s: %s' % (s['name'], x))
    cov = {
        'states': sum(s['outcomes'] for s in spaces),
        'transitions': sum(s['calls'] for s in spaces),
        'traces_validated_against_impl': sum(s['executed'] for s in spaces),
        'samples': samples[:24],
        'exhaustive': all(s['complete'] for s in spaces),
        'rule': 'every leaf of each choice tree is executed on the implementation and compared with the reference model; '
                'states = distinct observed outcomes (hash of everything compared), transitions = implementation calls compared, '
                'traces_validated_against_impl = enumerated cases (configurations or call histories) run to completion on the implementation',
        'spaces': [{k: s[k] for k in ('harness', 'name', 'leaves', 'executed', 'calls', 'outcomes', 'complete')} for s in spaces],
        'known_findings_hit': len(known),
    }
    ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1')),
          'level': 'model_checking', 'coverage': cov,
          'assumptions': P.get('assumptions', []) + [
              'NTL 11.5 containers and zz_p scalar arithmetic are correct (the reference model stores values in them)',
              'exploration is complete only within the bounds of the choice trees listed under spaces'],
          'wall_s': round(wall, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    hit = {f['known'] for f in known}
    for k, p, t in kf:
        if k in hit:
            print('KNOWN-FINDING: property=%s %s %s' % (p, k, t))
    print('%s %s: %d spaces, %d cases, %d calls, %d distinct outcomes, %.1f s' % (pid, tier, len(spaces), cov['traces_validated_against_impl'], cov['transitions'], cov['states'], wall))
    if viol:
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        for n, f in enumerate(viol[:5]):
            path = os.path.join(rdir, '%s-%d.sh' % (pid, n))
            with open(path, 'w') as g:
                g.write('#!/bin/sh\n# property %s: %s %s\n# %s\n# %s\n' % (pid, f['space'], f['kind'], f['desc'], f['msg'].replace('\n', ' ')))
                g.write('# rebuilds the harness from /repo and re-runs exactly this case\n')
                g.write('cd %s && MALLOC_PERTURB_=165 exec "$(python3 run.py --exe %s %s)" %s\n' % (VERIF, f['harness'], f['cfg'], ' '.join("'%s'" % a for a in f['replay'])))
            os.chmod(path, 0o755)
            print('  case %s:%s (%s) %s' % (f['space'], f['seq'], f['kind'], f['desc']))
            print('  %s' % f['msg'][:600])
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if not cov['exhaustive']:
        print('ERROR: exploration incomplete without a confirmed violation (%d unconfirmed)' % sum(r['unconfirmed'] for r in allres))
        return 2
    return 0


if __name__ == '__main__':
    if len(sys.argv) > 3 and sys.argv[1] == '--exe':
        print(build(sys.argv[2], DIRS, sys.argv[3]))
        sys.exit(0)
    sys.exit(main())
