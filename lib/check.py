#!/usr/bin/env python3
"""Runs the check of one property: check.py PROPERTY [--tier quick|thorough]

 1. builds the harness from /repo's working tree (content-hash cache in /verif/build),
 2. model checks the property's TLA+ specification(s) with TLC,
 3. runs the harness scenarios under the controlled scheduler and collects the
    distinct traces,
 4. validates every trace against the specification with TLC,
 5. re-executes every rejected one and reports it if it is rejected again.
Exit status: 0 the property held on everything explored; 1 violation; 2 error.
"""
import glob
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
sys.path.insert(0, HERE)
import registry

NCPU = max(2, min(8, os.cpu_count() or 2))
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
ABNORMAL = {'deadlock', 'livelock', 'crash', 'hang', 'race', 'uaf', 'doublefree', 'badfree', 'leak'}


class CheckError(Exception):
    pass


def tlc_errors(out):
    """the informative part of TLC's output"""
    ls = out.splitlines()
    at = [i for i, x in enumerate(ls) if x.startswith('Error:')]
    res = []
    for i in at[:3]:
        res += ls[i:i + 6]
    return '\n'.join(res)[:1500] + '\n...\n' + out[-600:]


T0 = time.time()


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


# ---------------------------------------------------------------- build ------
CXX = ['g++', '-std=c++20', '-fcoroutines', '-O1', '-g1', '-fsanitize=thread', '--param',
       'tsan-instrument-func-entry-exit=0', '-fno-omit-frame-pointer', '-fno-lifetime-dse', '-Wno-tsan', '-w', '-pthread']
LINK = ['-pthread', '-ldl',
        '-Wl,--wrap=_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv,--wrap=__cxa_end_catch,--wrap=__cxa_allocate_exception']


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isdir(p):
            for d, ds, fs in sorted(os.walk(p)):
                ds.sort()
                for f in sorted(fs):
                    q = os.path.join(d, f)
                    h.update(q.encode())
                    with open(q, 'rb') as fh:
                        h.update(fh.read())
        elif os.path.exists(p):
            h.update(p.encode())
            with open(p, 'rb') as fh:
                h.update(fh.read())
    return h.hexdigest()[:24]


def includes_dirs():
    # The generated configuration header, if /repo has one in its include tree, is
    # found there; nothing else is needed: the library is header-only.
    return ['-I' + os.path.join(REPO, 'include'), '-isystem', os.path.join(REPO, 'include')]


def run_cc(cmd, out, what, tmp):
    t = time.time()
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        return (what, p.returncode, p.stdout)
    os.replace(tmp, out)
    return None


class CompileFailure(Exception):
    def __init__(self, what, outp):
        super().__init__(what)
        self.what, self.output = what, outp


def build(names):
    """names: {binary: {'srcs': [...], 'flags': [...], 'link': [...]}} -> {binary: path}"""
    os.makedirs(BUILD, exist_ok=True)
    repo_h = tree_hash([os.path.join(REPO, 'include'), os.path.join(REPO, 'src')])
    hdrs = [os.path.join(VERIF, 'harness', f) for f in sorted(os.listdir(os.path.join(VERIF, 'harness')))
            if f.endswith('.hpp')] + [os.path.join(VERIF, 'rt', 'vsched.hpp')]
    hdr_h = tree_hash(hdrs)
    jobs, objs, bins = {}, {}, {}
    rt = os.path.join(VERIF, 'rt', 'vsched.cpp')
    rto = os.path.join(BUILD, 'vsched-%s.o' % tree_hash([rt, os.path.join(VERIF, 'rt', 'vsched.hpp')]))
    if not os.path.exists(rto):
        tmp = rto + '.%d.tmp' % os.getpid()
        jobs[rto] = (['g++', '-std=c++20', '-O2', '-g1', '-w', '-c', rt, '-o', tmp, '-pthread'], 'rt', tmp)
    for b, d in names.items():
        os_ = [rto]
        for s in d['srcs']:
            src = s if s.startswith('/') else (os.path.join(REPO, s[6:]) if s.startswith('@repo/')
                                               else os.path.join(VERIF, 'harness', s))
            flags = d.get('flags', [])
            key = hashlib.sha256((repo_h + hdr_h + tree_hash([src]) + ' '.join(flags + CXX)).encode()).hexdigest()[:24]
            o = os.path.join(BUILD, '%s-%s.o' % (os.path.basename(src).replace('.cpp', ''), key))
            os_.append(o)
            if not os.path.exists(o):
                tmp = o + '.%d.tmp' % os.getpid()
                jobs[o] = (CXX + includes_dirs() + flags + ['-c', src, '-o', tmp], os.path.basename(src), tmp)
        objs[b] = os_
    if jobs:
        log('building', ', '.join(sorted(w for _, w, _ in jobs.values())))
    # biggest first is unknown; submit in the given order
    with cf.ThreadPoolExecutor(NCPU) as ex:
        futs = [ex.submit(run_cc, c, o, w, tmp) for o, (c, w, tmp) in jobs.items()]
        errs = [f.result() for f in futs]
    for e in errs:
        if e:
            what, rc, outp = e
            if rc < 0 or 'internal compiler error' in outp or 'No space left' in outp or 'Killed' in outp or 'cc1plus: out of memory' in outp:
                raise CheckError('compiler trouble on %s: rc=%s\n%s' % (what, rc, outp[-3000:]))
            raise CompileFailure(what, outp)
    for b, os_ in objs.items():
        k = hashlib.sha256(' '.join(os_).encode()).hexdigest()[:16]
        out = os.path.join(BUILD, '%s-%s' % (b, k))
        if not os.path.exists(out):
            tmp = out + '.%d.tmp' % os.getpid()
            e = run_cc(['g++'] + os_ + ['-o', tmp] + LINK + names[b].get('link', []), out, b, tmp)
            if e:
                raise CheckError('link of %s failed\n%s' % (b, e[2][-3000:]))
        bins[b] = out
    # drop stale build products so that the cache does not grow without bound
    now = time.time()
    for f in os.listdir(BUILD):
        p = os.path.join(BUILD, f)
        try:
            if os.path.isfile(p) and now - os.path.getatime(p) > 6 * 3600 and now - os.path.getmtime(p) > 6 * 3600:
                os.unlink(p)
        except OSError:
            pass
    return bins


# ------------------------------------------------------------------ TLC ------
def tlc(module, cfg, env=None, workers=1, heap='2g', timeout=600, extra=(), tmp=None):
    meta = tempfile.mkdtemp(prefix='tlc', dir=tmp)
    cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss16m',
           '-cp', CP, 'tlc2.TLC', '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE',
           '-config', os.path.join(VERIF, 'spec', cfg)] + list(extra) + [os.path.join(VERIF, 'spec', module + '.tla')]
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, timeout=timeout,
                           cwd=meta)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b''), -1
        if isinstance(out, bytes):
            out = out.decode(errors='replace')
    shutil.rmtree(meta, ignore_errors=True)
    gen = dist = depth = 0
    m = re.findall(r'(\d+) states generated[^,]*, (\d+) distinct states found', out.replace(',', '').replace(' states generated ', ' states generated '))
    m = re.findall(r'([\d,]+) states generated.*?, ([\d,]+) distinct states found', out)
    if m:
        gen, dist = (int(x.replace(',', '')) for x in m[-1])
    m = re.findall(r'depth of the complete state graph search is (\d+)', out)
    if m:
        depth = int(m[-1])
    return dict(rc=rc, out=out, generated=gen, distinct=dist, depth=depth)


def model_check(mc, tier, tmp):
    res = []
    for m in mc:
        cfg = m.get(tier, m.get('quick'))
        if cfg is None:
            continue
        cfgs = cfg if isinstance(cfg, list) else [cfg]
        for c in cfgs:
            t = time.time()
            r = tlc(m['module'], c, workers=m.get('workers', 2 if tier == 'quick' else 8),
                    heap='4g' if tier == 'quick' else '12g',
                    timeout=m.get('timeout', 300 if tier == 'quick' else 3000), tmp=tmp)
            ok = r['rc'] == 0 and 'No error has been found' in r['out']
            res.append(dict(module=m['module'], cfg=c, ok=ok, generated=r['generated'], distinct=r['distinct'],
                            depth=r['depth'], wall=round(time.time() - t, 1), out=r['out']))
    return res


# ------------------------------------------------------------- exploration ---
def harness_cmd(binp, job, out, cpu):
    c = [binp, '--scn', job['scn'], '--mode', job['mode'], '--n', str(job['n']), '--seed', str(job['seed']),
         '--out', out, '--max-s', '%.1f' % job['max_s'], '--start', str(job.get('start', 0)),
         '--stride', str(job.get('stride', 1))]
    if job.get('bound') is not None:
        c += ['--bound', str(job['bound'])]
    if job.get('max_distinct'):
        c += ['--max-distinct', str(job['max_distinct'])]
    if job.get('stale'):
        c += ['--stale', str(job['stale'])]
    if job.get('arg') is not None:
        c += ['--arg', str(job['arg'])]
    return c


def run_job(binp, job, out, cpu, env):
    try:
        p = subprocess.run(harness_cmd(binp, job, out, cpu), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           timeout=job['max_s'] + 120, env=env)
    except subprocess.TimeoutExpired:
        return dict(job=job, error='timeout', out=out)
    try:
        st = json.loads(p.stdout.strip().splitlines()[-1])
    except Exception:
        return dict(job=job, error='rc=%s %s %s' % (p.returncode, p.stdout[-500:], p.stderr[-500:]), out=out)
    return dict(job=job, stats=st, out=out)


def list_scenarios(binp):
    p = subprocess.run([binp, '--list'], stdout=subprocess.PIPE, text=True, timeout=60)
    return p.stdout.split()


def make_jobs(prop, comp, bins, tier, seed):
    """one list of jobs; the time budget is split evenly"""
    jobs = []
    budget = comp.get('explore_s', {}).get(tier, 12 if tier == 'quick' else 240)
    for g in comp['groups']:
        have = list_scenarios(bins[g['bin']])
        want = g.get('scenarios')
        scns = [s for s in have if (want is None or any(re.fullmatch(w, s) for w in want))]
        if not scns:
            raise CheckError('no scenario in %s matches %s' % (g['bin'], want))
        for s in scns:
            o = dict(g.get('opts', {}))
            for pat, x in g.get('per', {}).items():
                if re.fullmatch(pat, s):
                    o.update(x)
            base = dict(bin=g['bin'], scn=s, seed=seed, trace=o.get('trace', g['trace']), group=g)
            for k in ('stale', 'arg'):
                if k in o:
                    base[k] = o[k]
            w = o.get('weight', 1)
            nr = o.get('n_rand', 2000000) * (1 if tier == 'quick' else 20)
            nd = o.get('n_dfs', 2000000) * (1 if tier == 'quick' else 20)
            for b in o.get('dfs', [2]) if tier == 'quick' else o.get('dfs_thorough', [2, 3]):
                jobs.append(dict(base, mode='dfs', bound=b, n=nd, w=w))
            sh = o.get('shards', 1)
            for i in range(sh):
                for m in o.get('modes', ['mix']):
                    jobs.append(dict(base, mode=m, n=nr, start=i, stride=sh, w=w))
    tot = sum(j['w'] for j in jobs)
    cap = comp.get('traces', {}).get(tier, 20000 if tier == 'quick' else 400000)
    for j in jobs:
        j['max_s'] = max(1.0, budget * NCPU * j['w'] / tot)
        j['max_distinct'] = max(50, int(cap * j['w'] / tot))
    return jobs


def cfg_of(module):
    # 'Module' or 'Module:Variant'
    return module.replace(':', '') + '.cfg'


def validate(module, lines, tmp, tag, timeout):
    """-> (list of (index, matched)), stats"""
    fn = os.path.join(tmp, 'tr-%s.ndjson' % tag)
    with open(fn, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    r = tlc(module.split(':')[0], cfg_of(module), env={'TRACES': fn}, workers=1, heap='3g', timeout=timeout, tmp=tmp)
    os.unlink(fn)
    m = re.search(r'<<"TRACES", (\d+), "REJECTED", (\d+)>>', r['out'])
    inv = re.search(r'Invariant (\S+) is violated', r['out'])
    if not m and not inv:
        raise CheckError('TLC did not finish validating %s (%s): rc=%s\n%s' % (module, tag, r['rc'], tlc_errors(r['out'])))
    if inv:
        # an accepted prefix of a trace drove the specification into a state which breaks an invariant
        tr = re.findall(r'/\\ tr = (\d+)', r['out'])
        l = re.findall(r'/\\ l = (\d+)', r['out'])
        return [(int(tr[-1]) - 1, int(l[-1]), inv.group(1))], r
    rej = [(int(a) - 1, int(b), None) for a, b in re.findall(r'<<"REJECT", (\d+), (\d+)>>', r['out'])]
    return rej, r


def safe_env(seed):
    e = dict(os.environ)
    e['VERIF_SEED'] = str(seed)
    return e


def known_findings():
    res = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'known: property=(\S+) match=(\S+) (.*)', ln.strip())
            if m:
                res.append((m.group(1), m.group(2), m.group(3)))
    return res


def evs_at(t, mx):
    return t['ev'][max(0, mx - 3):mx]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--no-mc', action='store_true')
    ap.add_argument('--scn', default=None)
    ap.add_argument('--build-only', action='store_true')
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    comp = registry.PROPS[a.prop]
    if a.scn:
        comp = dict(comp, groups=[dict(g, scenarios=[a.scn]) for g in comp['groups']])
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % a.prop)
    try:
        rc = check(a, comp, tier, tmp)
    except CompileFailure as e:
        rc = compile_violation(a.prop, comp, e)
    except CheckError as e:
        print('CHECK-ERROR', e, flush=True)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        if not a.keep:
            shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def compile_violation(prop, comp, e):
    """The harness is a well-formed use of the library's public interface; if the
    library no longer compiles for it the property does not hold.  For harnesses of
    internal components it is an error of the check instead."""
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-compile.txt' % prop)
    with open(p, 'w') as f:
        f.write(e.output)
    print(e.output[-3000:])
    if comp.get('internal'):
        print('CHECK-ERROR harness %s does not compile' % e.what)
        return 2
    # make sure that it is the library's doing
    r = subprocess.run(CXX + ['-x', 'c++', '-c', '-', '-o', '/dev/null'], input='#include <vector>\nint main(){}\n',
                       text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        print('CHECK-ERROR the compiler does not work: ' + r.stdout[-500:])
        return 2
    print('a well-formed program using the public interface does not compile: %s' % e.what)
    print('VIOLATION property=%s replay=%s' % (prop, p), flush=True)
    return 1


def check(a, comp, tier, tmp):
    prop, seed = a.prop, a.seed
    names = {}
    for g in comp['groups']:
        names[g['bin']] = registry.BINS[g['bin']]
    bins = build(names)
    if a.build_only:
        return 0
    pool = cf.ThreadPoolExecutor(NCPU)
    mcf = None
    mcpool = cf.ThreadPoolExecutor(1)
    if not a.no_mc:
        mcf = mcpool.submit(model_check, comp.get('mc', []), tier, tmp)
    jobs = make_jobs(prop, comp, bins, tier, seed)
    log('%d exploration jobs' % len(jobs))
    env = safe_env(seed)
    futs = []
    jobs.sort(key=lambda j: -j['max_s'])
    for i, j in enumerate(jobs):
        futs.append(pool.submit(run_job, bins[j['bin']], j, os.path.join(tmp, 'j%d.out' % i), i % NCPU, env))
    per_module, seen = {}, set()
    agg = dict(execs=0, steps=0, distinct=0, switches=0, exhausted=[])
    events = {}
    per_scn = {}
    for f in futs:
        r = f.result()
        if 'error' in r:
            raise CheckError('harness failed: %s %s' % (r['job']['scn'], r['error']))
        st = r['stats']
        agg['execs'] += st.get('execs', 0)
        agg['steps'] += st.get('steps', 0)
        agg['switches'] += st.get('switches', 0)
        j = r['job']
        if j['mode'] == 'dfs' and st.get('exhausted'):
            agg['exhausted'].append('%s/dfs%s' % (j['scn'], j.get('bound')))
        ps = per_scn.setdefault(j['scn'], [0, 0])
        ps[0] += st.get('execs', 0)
        if not os.path.exists(r['out']):
            continue
        with open(r['out']) as fh:
            for ln in fh:
                ln = ln.rstrip('\n')
                if not ln:
                    continue
                k = re.sub(r'"rp":"[^"]*",', '', ln, 1)
                hh = hashlib.blake2b(k.encode(), digest_size=12).digest()
                if hh in seen:
                    continue
                seen.add(hh)
                ps[1] += 1
                per_module.setdefault(j['trace'], []).append((ln, j))
        os.unlink(r['out'])
    agg['distinct'] = len(seen)
    log('%d executions, %d distinct traces' % (agg['execs'], len(seen)))
    if comp.get('verbose', True):
        log('  ' + ', '.join('%s:%d/%d' % (s, v[1], v[0]) for s, v in sorted(per_scn.items())))
    # ---- trace validation
    rejects = []
    tstates = ttrans = 0
    tmo = 500 if tier == 'quick' else 3400
    tasks = []
    for m, ls in per_module.items():
        chunk = comp.get('chunk', 3000)
        n = max(1, min(NCPU, (len(ls) + 199) // 200)) if len(ls) <= chunk * NCPU else (len(ls) + chunk - 1) // chunk
        # deal traces round robin so that the shards take about the same time
        parts = [ls[i::n] for i in range(n)]
        for i, part in enumerate(parts):
            tasks.append((m, part, '%s-%d' % (m, i)))

    def vtask(t):
        m, part, tag = t
        rej, r = validate(m, [x[0] for x in part], tmp, tag, tmo)
        return [(m, part[i][0], part[i][1], mx, inv) for i, mx, inv in rej], r
    for (rej, r) in pool.map(vtask, tasks):
        rejects += rej
        tstates += r['distinct']
        ttrans += r['generated']
    log('validated %d traces against %s: %d rejected (%d spec states)' % (
        len(seen), ', '.join(sorted(per_module)), len(rejects), tstates))
    for ls in per_module.values():
        for ln, j in ls[:: max(1, len(ls) // 2000)]:
            for e in re.findall(r'"e":"([^"]+)"', ln):
                events[e] = events.get(e, 0) + 1
    # ---- model checking result
    mcres = mcf.result() if mcf else []
    for m in mcres:
        if not m['ok']:
            raise CheckError('model checking %s with %s failed:\n%s' % (m['module'], m['cfg'], tlc_errors(m['out'])))
        log('TLC %s/%s: %d distinct states, depth %d, %.1fs' % (m['module'], m['cfg'], m['distinct'], m['depth'], m['wall']))
    # ---- confirm rejections
    kf = [k for k in known_findings() if k[0] == prop]
    nviol, reported = 0, set()
    rdir = os.path.join(VERIF, 'replays')
    for f in glob.glob(os.path.join(rdir, '%s-*' % prop)):
        os.remove(f)
    by_sig = {}
    for m, ln, j, mx, inv in rejects:
        t = json.loads(ln)
        evs = t['ev']
        at = evs[mx - 1] if mx - 1 < len(evs) else {'e': 'end'}
        sig = (t['scn'], at.get('e'), inv)
        by_sig.setdefault(sig, []).append((len(evs), m, ln, j, mx, inv, t))
    known_hit = {}
    for sig, lst in sorted(by_sig.items(), key=lambda x: str(x[0])):
        lst.sort(key=lambda x: x[0])
        for (n, m, ln, j, mx, inv, t) in lst[:3]:
            conf = confirm(bins[j['bin']], j, t, m, tmp, env)
            if conf is None:
                log('rejection of %s %s at %s not reproduced; ignored' % (t['scn'], t['rp'], json.dumps(evs_at(t, mx))))
                continue
            fp = '%s/%s' % (t['scn'], sig[1])
            k = [x for x in kf if re.fullmatch(x[1], fp)]
            if k:
                known_hit[k[0]] = 1
                break
            os.makedirs(rdir, exist_ok=True)
            rp = os.path.join(rdir, '%s-%s-%d.json' % (prop, t['scn'], nviol))
            with open(rp, 'w') as f:
                json.dump(dict(property=prop, scenario=t['scn'], trace_spec=m, matched_events=mx - 1,
                               rejected_event=sig[1] if not inv else 'invariant ' + inv,
                               rejected=t['ev'][mx - 1] if mx - 1 < len(t['ev']) else None,
                               command=' '.join(replay_cmd(bins[j['bin']], j, t['rp'], '/dev/stdout')),
                               cfg=t.get('cfg'), ev=t['ev']), f, indent=1)
            print('  scenario %s: the specification %s rejects event #%d %s' % (
                t['scn'], m, mx, json.dumps(t['ev'][mx - 1]) if mx - 1 < len(t['ev']) else '(end)'))
            print('VIOLATION property=%s replay=%s' % (prop, rp), flush=True)
            nviol += 1
            break
        if nviol >= 5:
            break
    for k in kf:
        print('KNOWN-FINDING: property=%s %s%s' % (prop, k[2], '' if k in known_hit else ' (not reached in this run)'), flush=True)
    samples = []
    for m, ls in per_module.items():
        for ln, j in ls[:: max(1, len(ls) // 3)][:3]:
            t = json.loads(ln)
            samples.append('%s %s: %s' % (t['scn'], t['rp'], json.dumps(t['ev'])[:400]))
    need = comp.get('need_events', [])
    for e in need:
        if e not in events and nviol == 0:
            raise CheckError('vacuous: no trace contains event %r (have %s)' % (e, sorted(events)))
    write_evidence(prop, tier, seed, comp, agg, mcres, tstates, ttrans, len(seen), samples, per_scn, events, nviol)
    return 1 if nviol else 0


def replay_cmd(binp, j, rp, out):
    c = [binp, '--scn', j['scn'], '--mode', j['mode'], '--seed', str(j['seed']), '--replay', rp, '--out', out]
    if j.get('bound') is not None:
        c += ['--bound', str(j['bound'])]
    if j.get('stale'):
        c += ['--stale', str(j['stale'])]
    if j.get('arg') is not None:
        c += ['--arg', str(j['arg'])]
    return c


def confirm(binp, j, t, module, tmp, env):
    out = os.path.join(tmp, 'replay.out')
    for attempt in range(2):
        if os.path.exists(out):
            os.unlink(out)
        try:
            subprocess.run(replay_cmd(binp, j, t['rp'], out), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, env=env)
            ls = [x for x in open(out).read().splitlines() if x]
        except Exception as e:
            log('replay trouble', e)
            continue
        if not ls:
            continue
        rej, _ = validate(module, ls, tmp, 'replay', 300)
        if rej:
            return ls[0]
    return None


def write_evidence(prop, tier, seed, comp, agg, mcres, tstates, ttrans, ntr, samples, per_scn, events, nviol):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=seed, level=comp.get('level', 'model_checking'),
              coverage=dict(
                  states=sum(m['distinct'] for m in mcres) + tstates,
                  transitions=sum(m['generated'] for m in mcres) + ttrans,
                  traces_validated_against_impl=ntr,
                  samples=samples[:8] or ['none'],
                  executions=agg['execs'], scheduling_points=agg['steps'],
                  exhausted_schedule_spaces=agg['exhausted'],
                  per_scenario={k: dict(executions=v[0], distinct_traces=v[1]) for k, v in per_scn.items()},
                  event_counts_in_sampled_traces=events,
                  model_checking=[dict(module=m['module'], cfg=m['cfg'], distinct=m['distinct'],
                                       generated=m['generated'], depth=m['depth'], wall_s=m['wall']) for m in mcres],
                  trace_spec_states=tstates, violations=nviol),
              wall_s=round(time.time() - T0, 1))
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    main()
