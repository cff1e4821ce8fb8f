#!/usr/bin/env python3
"""Solver-based checks of OpenDAX.

run.py <property> [--tier quick|thorough] [--only name] [--keep]

For every harness of the property: compile /repo's current sources and the
harness with goto-cc, decide all assertions with CBMC (SAT/SMT), replay every
counterexample natively (gcc + sanitizers) against the same sources, and
report only what the replay confirms.
"""
import sys, os, re, json, time, subprocess, tempfile, shutil, hashlib, argparse, threading, signal
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')
HDIR = os.path.join(VERIF, 'harness')
sys.path.insert(0, HERE)
import registry
from registry import UNITS

SCRATCH = None
_lock = threading.Lock()
_objs = {}

def log(*a):
    print(*a, flush=True)

def sh(cmd, timeout=None, cwd=None, env=None, memgb=None, out=None):
    """-> (rc, stdout, stderr, seconds); rc 'timeout' on timeout"""
    t = time.time()
    if memgb:
        cmd = ['prlimit', '--as=%d' % (memgb << 30)] + cmd
    p = subprocess.Popen(cmd, stdout=out or subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env, start_new_session=True,
                         stdin=subprocess.DEVNULL)
    try:
        o, e = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        rc = 'timeout'
    return rc, (o or b'').decode('utf-8', 'replace'), (e or b'').decode('utf-8', 'replace'), time.time() - t

class BuildError(Exception):
    pass

def config_h():
    d = os.path.join(SCRATCH, 'cfg')
    with _lock:
        if not os.path.isdir(d):
            os.makedirs(d)
            txt = open(os.path.join(REPO, 'src/config.h.in')).read()
            txt = re.sub(r'@OpenDAX_VERSION_\w+@', '0', txt)
            txt = re.sub(r'#cmakedefine\s+(\w+).*', r'#define \1 1', txt)
            open(os.path.join(d, 'config.h'), 'w').write(txt + '\n')
    return d

def unit_sources(u):
    U = UNITS[u]
    res = []
    for pat in U['src']:
        p = os.path.join(REPO, pat)
        if '*' in pat:
            d = os.path.dirname(p)
            res += sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith('.c'))
        else:
            res.append(p)
    ex = set(os.path.join(REPO, x) for x in U.get('exclude', []))
    return [r for r in res if r not in ex]

def flags_for(h, unit, sym, repo_src=False):
    U = UNITS[unit]
    defs = h['defs'] if not repo_src else {k: v for k, v in h['defs'].items() if k.startswith('DAX_') or k in h.get('repodefs', ())}
    f = ['-I' + os.path.join(REPO, 'src')]
    f += ['-I' + os.path.join(REPO, i) for i in U.get('inc', [])]
    f += ['-I/usr/include/lua5.4', '-I' + HDIR, '-I' + config_h()]
    f += ['-D%s' % k if v is None else '-D%s=%s' % (k, v) for k, v in sorted(defs.items())]
    f += U.get('flags', [])
    f += ['-include', os.path.join(HDIR, 'vp_env.h')]
    if sym:
        f += ['-DVP_SYM'] + U.get('symflags', []) + ['-include', os.path.join(HDIR, 'vp_macros.h')]
    return f

def extra_flags(src, unit, sym, h):
    U = UNITS[unit]
    b = os.path.relpath(src, REPO)
    e = list(U.get('perfile', {}).get(b, {}).get('both', []))
    if sym:
        e += U.get('perfile', {}).get(b, {}).get('sym', [])
    return e

def compile_objs(jobs):
    """jobs: list of (cmd-without -o, src) -> list of object paths, memoised."""
    res = []
    todo = []
    for cmd in jobs:
        key = hashlib.sha1(' '.join(cmd).encode()).hexdigest()[:16]
        o = os.path.join(SCRATCH, 'obj', key + '.o')
        with _lock:
            ev = _objs.get(o)
            mine = ev is None
            if mine:
                ev = _objs[o] = [threading.Event(), None]
        res.append(o)
        if mine:
            rc, so, se, t = sh(cmd + ['-o', o], timeout=300)
            if rc != 0:
                ev[1] = (' '.join(cmd), so + se)
            ev[0].set()
        todo.append(ev)
    for ev in todo:
        ev[0].wait()
        if ev[1]:
            raise BuildError('%s\n%s' % ev[1])
    return res

def build_sym(h):
    jobs = []
    for u in h['units']:
        for s in unit_sources(u):
            jobs.append(['goto-cc', '-w'] + flags_for(h, u, True, True) + extra_flags(s, u, True, h) + ['-c', s])
    mu = h['units'][0]
    for s in h['src']:
        jobs.append(['goto-cc', '-w'] + flags_for(h, mu, True) + ['-c', os.path.join(HDIR, s)])
    jobs.append(['goto-cc', '-w', '-c', os.path.join(HDIR, 'vp_libc.c')] + ['-D%s' % d for d in h.get('libcdefs', [])])
    objs = compile_objs(jobs)
    gb = os.path.join(SCRATCH, h['name'] + '.gb')
    rc, so, se, t = sh(['goto-cc', '-w'] + objs + ['-o', gb], timeout=300)
    if rc != 0:
        raise BuildError('link %s\n%s' % (h['name'], so + se))
    if h.get('unreached'):
        # functions that cannot be called here (no such tag exists in this harness): the solver proves that they are not reached
        have = set(re.findall(r'^(\w+) /\*', sh(['goto-instrument', '--list-goto-functions', gb], timeout=120)[1], re.M))
        names = [f for f in h['unreached'] if f in have]
        if names:
            g2 = gb + '.2'
            c = ['goto-instrument']
            for f in names: c += ['--remove-function-body', f]
            rc, so, se, t = sh(c + [gb, g2], timeout=300)
            if rc == 0:
                rc, so, se, t = sh(['goto-instrument', '--generate-function-body', '^(%s)$' % '|'.join(names), '--generate-function-body-options', 'assert-false-assume-false', g2, gb], timeout=300)
            if rc != 0: raise BuildError('instrument %s\n%s' % (h['name'], so + se))
    return gb

NATIVE_VARIANTS = [
    (['-ftrivial-auto-var-init=pattern'], 'max_malloc_fill_size=65536:malloc_fill_byte=190'),
    (['-ftrivial-auto-var-init=zero'], 'max_malloc_fill_size=65536:malloc_fill_byte=0'),
    (['-ftrivial-auto-var-init=zero'], 'max_malloc_fill_size=65536:malloc_fill_byte=255'),
]

def native_build(h, rdir, outdir, variant):
    """rdir holds replay_in.h; returns path of executable."""
    vf = NATIVE_VARIANTS[variant][0]
    jobs = []
    base = ['gcc', '-w', '-g', '-O0', '-std=gnu11', '-fsanitize=address,bounds', '-fno-sanitize-recover=all', '-DVP_NATIVE'] + vf
    for u in h['units']:
        for s in unit_sources(u):
            jobs.append(base + flags_for(h, u, False, True) + extra_flags(s, u, False, h) + ['-c', s])
    mu = h['units'][0]
    objs = compile_objs(jobs)
    hs = []
    for i, s in enumerate(h['src']):
        o = os.path.join(outdir, 'h%d.o' % i)
        cmd = base + flags_for(h, mu, False) + ['-I' + rdir, '-c', os.path.join(HDIR, s), '-o', o]
        rc, so, se, t = sh(cmd, timeout=300)
        if rc != 0:
            raise BuildError('native %s\n%s' % (' '.join(cmd), so + se))
        hs.append(o)
    exe = os.path.join(outdir, 'replay%d' % variant)
    cmd = base + hs + objs + ['-o', exe] + h.get('nlibs', []) + ['-lm', '-lpthread']
    rc, so, se, t = sh(cmd, timeout=300)
    if rc != 0:
        raise BuildError('native link %s\n%s' % (' '.join(cmd), so + se))
    return exe

def native_run(exe, variant, cwd, timeout=20):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:allocator_may_return_null=1:' + NATIVE_VARIANTS[variant][1])
    rc, so, se, t = sh([exe], timeout=timeout, cwd=cwd, env=env)
    return rc, so, se

CBMC_CHECKS = ['--bounds-check', '--pointer-check', '--div-by-zero-check']

_loops = {}
def loop_ids(gb):
    with _lock:
        if gb in _loops: return _loops[gb]
    rc, so, se, t = sh(['cbmc', gb, '--show-loops', '--drop-unused-functions'], timeout=120)
    ids = set(re.findall(r'^Loop (\S+):', so, re.M))
    ids |= set(x for x in registry.RECURSIVE if ('\n%s /*' % x) in sh(['goto-instrument', '--list-goto-functions', gb], timeout=120)[1])
    with _lock: _loops[gb] = ids
    return ids

def cbmc_cmd(h, gb, bound_scale):
    c = ['cbmc', gb, '--max-field-sensitivity-array-size', str(h.get('fs', 2048)), '--no-malloc-may-fail', '--drop-unused-functions',
         '--object-bits', str(h.get('objbits', 10)), '--unwind', str(h['unwind'] * bound_scale)]
    us = dict(registry.LIBC_UNWIND)
    us.update(h.get('unwindset', {}))
    us = {k: v for k, v in us.items() if k in loop_ids(gb)}
    c += ['--unwindset', ','.join('%s:%d' % (k, v * bound_scale) for k, v in us.items())]
    c += ['--no-standard-checks', '--unwinding-assertions'] + (CBMC_CHECKS if h.get('memsafe', True) else [])
    c += ['--slice-formula'] if h.get('slice', True) else []
    c += h.get('cbmcflags', registry.DEFAULT_SOLVER)
    return c

def run_cbmc(h, gb, scale, timeout):
    rc, so, se, t = sh(cbmc_cmd(h, gb, scale) + ['--json-ui', '--verbosity', '8'], timeout=timeout, memgb=h.get('memgb', 6))
    r = {'rc': rc, 'secs': t, 'props': None, 'solver_s': 0.0, 'symex_s': 0.0, 'steps': 0, 'vccs': 0, 'vars': 0, 'clauses': 0, 'queries': 0, 'funcs': [], 'err': ''}
    if rc == 'timeout':
        r['err'] = 'timeout after %ds' % timeout
        return r
    try:
        js = json.loads(so)
    except Exception:
        r['err'] = 'unparsable cbmc output rc=%s %s' % (rc, (so[-600:] + se[-600:]))
        return r
    for m in js:
        if 'messageText' in m:
            x = m['messageText']
            g = re.match(r'size of program expression: (\d+) steps', x)
            if g: r['steps'] = int(g.group(1))
            g = re.match(r'Generated (\d+) VCC\(s\), (\d+) remaining', x)
            if g: r['vccs'] = int(g.group(1)); r['remaining'] = int(g.group(2))
            g = re.match(r'(\d+) variables, (\d+) clauses', x)
            if g: r['vars'] = int(g.group(1)); r['clauses'] = int(g.group(2)); r['queries'] += 1
            g = re.match(r'Runtime decision procedure: ([\d.e+-]+)s', x)
            if g: r['solver_s'] += float(g.group(1))
            g = re.match(r'Runtime Symex: ([\d.e+-]+)s', x)
            if g: r['symex_s'] = float(g.group(1))
            if m.get('messageType') == 'ERROR': r['err'] += x + ' '
        if 'result' in m:
            r['props'] = m['result']
    return r

def get_trace(h, gb, scale, prop, timeout):
    """-> dict path->int value of IN leaves, or None"""
    f = os.path.join(SCRATCH, 'trace-%s-%s.txt' % (h['name'], re.sub(r'\W', '_', prop)))
    with open(f, 'wb') as fo:
        rc, so, se, t = sh(cbmc_cmd(h, gb, scale) + ['--trace', '--json-ui', '--property', prop], timeout=timeout, memgb=h.get('memgb', 6), out=fo)
    if rc == 'timeout':
        os.unlink(f)
        return None
    vals = {}
    try:
        js = json.load(open(f, errors='replace'))
    except Exception:
        os.unlink(f)
        return None
    os.unlink(f)
    def leaves(path, v):
        if 'elements' in v:
            for e in v['elements']:
                leaves('%s[%s]' % (path, e['index']), e['value'])
        elif 'members' in v:
            for e in v['members']:
                leaves('%s.%s' % (path, e['name']), e['value'])
        elif 'binary' in v:
            p = re.sub(r'\[(\d+)[lLuU]*\]', r'[\1]', path)
            if '$pad' not in p:
                vals[p] = int(v['binary'], 2)
    found = False
    for m in js:
        for res in m.get('result', []):
            if res.get('trace') and res.get('status') == 'FAILURE': found = True
            for st in res.get('trace', []):
                if st.get('stepType') == 'assignment':
                    l = st.get('lhs', '')
                    if l == 'IN' or l.startswith('IN.') or l.startswith('IN['):
                        leaves(l, st.get('value', {}))
    return vals if found else None

def write_replay(d, vals):
    with open(os.path.join(d, 'replay_in.h'), 'w') as f:
        for k in sorted(vals):
            f.write('%s = (__typeof__(%s))%dULL;\n' % (k, k, vals[k]))

def classify(p):
    d = p['description']
    if d.startswith('cover: '): return 'cover'
    if d.startswith('check: '): return 'check'
    n = p['property']
    if '.unwind.' in n: return 'unwind'
    if 'recursion' in d: return 'unwind'
    return 'safety'

def do_replay(h, vals, prop, kind, replay_root):
    """Natively run the counterexample. -> (confirmed?, text, dir)"""
    d = os.path.join(replay_root, re.sub(r'\W+', '_', '%s-%s' % (h['name'], prop['property'])))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    write_replay(d, vals)
    txt = ''
    want = prop['description'][7:] if kind in ('check', 'cover') else None
    for v in range(len(NATIVE_VARIANTS)):
        bd = tempfile.mkdtemp(dir=SCRATCH)
        try:
            exe = native_build(h, d, bd, v)
            rc, so, se = native_run(exe, v, bd)
        finally:
            pass
        shutil.rmtree(bd, ignore_errors=True)
        txt = 'variant %d rc=%s\n%s\n%s' % (v, rc, so[-3000:], se[-6000:])
        if kind == 'cover':
            if rc != 'timeout' and ('VP-COVER ' + want) in so:
                return True, txt, d
            continue
        conf = False
        if rc == 71: conf = True
        elif rc == 99 or 'AddressSanitizer' in se or 'runtime error' in se: conf = True
        elif rc == 'timeout': conf = True
        elif isinstance(rc, int) and rc < 0: conf = True       # killed by a signal (abort, segv)
        if conf:
            with open(os.path.join(d, 'output.txt'), 'w') as f:
                f.write('harness %s\nproperty %s\n%s\nlocation %s\n\n%s\n' % (h['name'], prop['property'], prop['description'], json.dumps(prop.get('sourceLocation', {})), txt))
            return True, txt, d
    return False, txt, d

def summarize(txt):
    m = re.search(r'VP-CHECK-FAILED (.*)', txt)
    if m: return m.group(1)
    m = re.search(r'(ERROR: AddressSanitizer: [^\n]*)', txt)
    if m: return m.group(1)
    m = re.search(r'(runtime error: [^\n]*)', txt)
    if m: return m.group(1)
    m = re.search(r'rc=(\S+)', txt)
    return 'native run ended with ' + (m.group(1) if m else '?')

def check_harness(h, pid, tier, replay_root, deadline):
    out = {'name': h['name'], 'violations': [], 'unconfirmed': [], 'undecided': None, 'covers': [], 'bounds': h['bounds'], 'replayed': 0}
    t0 = time.time()
    try:
        gb = build_sym(h)
    except BuildError as e:
        out['undecided'] = 'build failed: ' + str(e)[-3000:]
        return out
    scale = 1
    handled = set()
    while True:
        tmo = max(20, min(h.get('timeout', 600), deadline - time.time()))
        r = run_cbmc(h, gb, scale, tmo)
        out['cbmc'] = {k: r[k] for k in ('secs', 'solver_s', 'symex_s', 'steps', 'vccs', 'vars', 'clauses', 'queries')}
        out['scale'] = scale
        if r['props'] is None:
            out['undecided'] = r['err'] or 'no result'
            return out
        fails = [p for p in r['props'] if p['status'] == 'FAILURE']
        odd = [p for p in r['props'] if p['status'] not in ('SUCCESS', 'FAILURE')]
        # (the solver leaves the others open when an unwinding assertion fails)
        if odd and not [p for p in fails if classify(p) != 'cover']:
            out['undecided'] = 'solver gave no answer: %s (%s)' % (odd[0]['status'], r['err'])
            return out
        out['nprops'] = len(r['props'])
        out['functions'] = sorted(set(p.get('sourceLocation', {}).get('function', '') for p in r['props']
                                      if p.get('sourceLocation', {}).get('file', '').startswith(REPO)))
        bykind = {'cover': [], 'check': [], 'unwind': [], 'safety': []}
        for p in fails: bykind[classify(p)].append(p)
        allcov = [p for p in r['props'] if classify(p) == 'cover']
        out['covers'] = [p['description'][7:] for p in bykind['cover']]
        missing = [p['description'][7:] for p in allcov if p['status'] == 'SUCCESS']
        # a failed assertion first
        cands = bykind['check'] + bykind['safety']
        tried = 0
        for p in cands:
            if p['property'] in handled: continue
            if tried >= h.get('max_replays', 3): break
            if time.time() > deadline: break
            handled.add(p['property'])
            tried += 1
            vals = get_trace(h, gb, scale, p['property'], max(30, min(h.get('timeout', 600), deadline - time.time())))
            if vals is None:
                out['unconfirmed'].append((p['property'], p['description'], 'no trace'))
                continue
            ok, txt, d = do_replay(h, vals, p, classify(p), replay_root)
            if ok:
                out['violations'].append((p['property'], p['description'], json.dumps(p.get('sourceLocation', {})), d, summarize(txt)))
                return out
            out['unconfirmed'].append((p['property'], p['description'], txt[-1500:]))
        if bykind['unwind']:
            # either the loop really does not end (or runs beyond what the input allows), or the bound is too small for this tree
            p = bykind['unwind'][0]
            if p['property'] not in handled:
                handled.add(p['property'])
                vals = get_trace(h, gb, scale, p['property'], max(30, min(h.get('timeout', 600), deadline - time.time())))
                if vals is not None:
                    ok, txt, d = do_replay(h, vals, p, 'unwind', replay_root)
                    if ok:
                        out['violations'].append((p['property'], p['description'], json.dumps(p.get('sourceLocation', {})), d, summarize(txt)))
                        return out
            if scale >= 4 or time.time() > deadline:
                out['undecided'] = 'unwinding bound exceeded: ' + ', '.join(x['property'] for x in bykind['unwind'][:5])
                return out
            scale *= 2
            continue
        if missing:
            out['missing_covers'] = missing
        break
    # replay one witness natively: the encoding and the implementation agree on it
    if out['covers'] and h.get('validate', True) and not out['unconfirmed']:
        p = [p for p in fails if classify(p) == 'cover'][-1]
        vals = get_trace(h, gb, scale, p['property'], max(30, min(h.get('timeout', 600), deadline - time.time())))
        if vals is not None:
            try:
                ok, txt, d = do_replay(h, vals, p, 'cover', os.path.join(SCRATCH, 'wit'))
                out['witness'] = {'cover': p['description'][7:], 'inputs': {k: vals[k] for k in sorted(vals)[:24]}, 'replayed': ok}
                if ok: out['replayed'] = 1
                else: out['witness']['output'] = txt[-800:]
            except BuildError as e:
                out['witness'] = {'error': str(e)[-1500:]}
    out['wall'] = time.time() - t0
    return out

def main():
    global SCRATCH
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=None); ap.add_argument('--only'); ap.add_argument('--keep', action='store_true'); ap.add_argument('--strict', action='store_true')
    ap.add_argument('--budget', type=int); ap.add_argument('-j', type=int, default=8); ap.add_argument('--timeout', type=int)
    a = ap.parse_args()
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    pid = a.prop
    hs = registry.harnesses(pid, tier)
    if a.only: hs = [h for h in hs if re.search(a.only, h['name'])]
    if a.timeout:
        for h in hs: h['timeout'] = a.timeout
    t0 = time.time()
    budget = a.budget or (780 if tier == 'quick' else 4 * 3600)
    deadline = t0 + budget
    SCRATCH = tempfile.mkdtemp(prefix='vp-%s-' % pid)
    os.makedirs(os.path.join(SCRATCH, 'obj'))
    replay_root = os.path.join(VERIF, 'evidence', 'replay', pid)
    shutil.rmtree(replay_root, ignore_errors=True)
    os.makedirs(replay_root, exist_ok=True)
    known = known_findings(pid)
    results = []
    try:
        with ThreadPoolExecutor(a.j) as ex:
            seen, stop = set(), []
            for h in hs: # one witness per harness source is replayed; thorough: one per harness
                k = (h['src'][0],)
                if tier == 'quick' and k in seen: h.setdefault('validate', False)
                seen.add(k)
            def one(h):
                if stop and tier == 'quick': return {'name': h['name'], 'violations': [], 'unconfirmed': [], 'undecided': 'skipped: a violation was already found', 'covers': [], 'bounds': h['bounds'], 'replayed': 0}
                r = check_harness(h, pid, tier, replay_root, deadline)
                if any(not listed(known, r, v) for v in r['violations']): stop.append(1)
                return r
            futs = [ex.submit(one, h) for h in hs]
            for h, f in zip(hs, futs):
                try:
                    results.append(f.result())
                except BuildError as e:
                    results.append({'name': h['name'], 'violations': [], 'unconfirmed': [], 'undecided': 'build: ' + str(e)[-2000:], 'covers': [], 'bounds': h['bounds'], 'replayed': 0})
    finally:
        if not a.keep: shutil.rmtree(SCRATCH, ignore_errors=True)
        else: log('scratch', SCRATCH)
    viol = []
    for r in results:
        c = r.get('cbmc', {})
        log('%-28s props=%s covers=%d steps=%s vccs=%s solver=%.1fs total=%.1fs scale=%s%s%s%s' % (
            r['name'], r.get('nprops'), len(r['covers']), c.get('steps'), c.get('vccs'), c.get('solver_s', 0), c.get('secs', 0), r.get('scale'),
            ' WITNESS-REPLAYED' if r.get('replayed') else '',
            ' MISSING-COVERS %s' % r['missing_covers'] if r.get('missing_covers') else '',
            ' UNDECIDED %s' % r['undecided'][-700:] if r['undecided'] else ''))
        if r.get('witness') and not r['replayed']: log('   witness not replayed:', json.dumps(r['witness'])[:1500])
        for u in r['unconfirmed'][:3]: log('   unconfirmed counterexample (not reported):', u[0], '|', u[1], '|', u[2][:700])
        for v in r['violations']:
            k = listed(known, r, v)
            log('   counterexample: %s | %s | %s | %s' % (v[0], v[1], v[2], v[4]))
            if not k: viol.append((r, v))
    # listed findings are decided by harnesses of their own (see known_findings.json)
    for x in known:
        log('KNOWN-FINDING: property=%s %s' % (pid, x['what']))
    undec = [r for r in results if r['undecided'] or r.get('missing_covers')]
    wall = time.time() - t0
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '0') or 0), 'level': 'model_checking',
        'coverage': {
            'states': sum(r.get('cbmc', {}).get('steps', 0) for r in results),
            'transitions': sum(r.get('cbmc', {}).get('vccs', 0) for r in results),
            'traces_validated_against_impl': sum(r['replayed'] for r in results),
            'samples': [dict(harness=r['name'], **r['witness']) for r in results if r.get('witness')][:12],
            'meaning': 'states = symbolic execution steps (SSA) of the encodings, transitions = verification conditions generated; each condition is decided for all inputs within the bounds by the SAT/SMT solver',
            'functions_encoded': sorted(set(f for r in results for f in r.get('functions', []) if f)),
            'assertions_decided': sum(r.get('nprops') or 0 for r in results),
            'reachability_witnesses': sum(len(r['covers']) for r in results),
            'solver_queries': sum(r.get('cbmc', {}).get('queries', 0) for r in results),
            'solver_s': round(sum(r.get('cbmc', {}).get('solver_s', 0) for r in results), 2),
            'symex_s': round(sum(r.get('cbmc', {}).get('symex_s', 0) for r in results), 2),
            'harnesses': [{'name': r['name'], 'bounds': r['bounds'], 'cbmc': r.get('cbmc'), 'bound_scale': r.get('scale'), 'covers': r['covers'],
                           'undecided': r['undecided'], 'missing_covers': r.get('missing_covers'), 'unconfirmed': [u[:2] for u in r['unconfirmed']]} for r in results],
        },
        'assumptions': registry.assumptions(pid),
        'wall_s': round(wall, 1),
        'violations': [{'harness': r['name'], 'assertion': v[1], 'where': v[2], 'replay': v[3], 'observed': v[4]} for r, v in viol],
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    if viol:
        for r, v in viol:
            log('VIOLATION property=%s replay=%s' % (pid, v[3]))
        sys.exit(1)
    for r in undec: log('UNDECIDED %s: %s %s' % (r['name'], (r['undecided'] or '')[:120], r.get('missing_covers') or ''))
    # encodings that ran out of time on this tree were not explored: they are listed above and in the evidence
    open_ = [r for r in undec if a.strict or r.get('missing_covers') or not re.match('timeout|skipped', r['undecided'] or '')]
    if open_ or len(undec) * 2 > len(results): sys.exit(2)
    log('OK property=%s tier=%s harnesses=%d wall=%.1fs' % (pid, tier, len(results), wall))
    sys.exit(0)

def listed(known, r, v):
    return [x for x in known if x['harness'] == r['name'] and re.search(x['match'], v[1] + ' ' + v[4])]

def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    return [x for x in json.load(open(p)).get('open', []) if x['property'] == pid]

if __name__ == '__main__':
    main()
