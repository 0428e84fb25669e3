#!/usr/bin/env python3
"""Check driver:  run.py <PROPERTY>      (VERIF_TIER, VERIF_SEED from the environment)

For one property, against /repo's current working tree:
  1. extracts the functions under contract and runs Verus on them (unbounded deductive obligations);
  2. runs the property's Kani harnesses (complete where the input space is covered, bounded otherwise);
  3. runs the property's native search / complete enumerations and replays any counterexample on the real code.
Exit 0: held on everything explored.  Exit 1: VIOLATION line.  See DESIGN.md for the decision rules.
"""
import sys, os, re, json, time, shutil, subprocess, threading, hashlib
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'tools')); sys.path.insert(0, os.path.join(V, 'verus'))
import props
REPO = '/repo'
B = os.path.join(V, 'build')
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'): TIER = 'quick'
try: SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError: SEED = 1
T0 = time.time()
NPROC = os.cpu_count() or 8

def log(*a): print('[%6.1fs]' % (time.time() - T0), *a, flush=True)

def sh(cmd, timeout, cwd=None, env=None, mem=None):
    pre = []
    if mem: pre = ['prlimit', '--as=%d' % mem]
    try:
        p = subprocess.Popen(pre + cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                             errors='replace', start_new_session=True)
    except OSError as e:
        return 127, str(e)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        try: out, _ = p.communicate(timeout=10)
        except Exception: out = ''
        return -99, out or ''

def make_env(P, with_hooks=True):
    """hook directory holding only what this property needs, so an edit elsewhere cannot break this check's build"""
    d = os.path.join(B, P['id'], 'hooks')
    os.makedirs(d, exist_ok=True)
    src = os.path.join(V, 'hooks')
    root = open(os.path.join(src, 'root.rs')).read()
    need = set(P.get('hooks', []))
    head, *secs = re.split(r'(?m)^\s*// @section ', root)
    body = head
    for s in secs:
        name = s.split('\n', 1)[0].strip()
        if name == 'end': body += s.split('\n', 1)[1]
        elif name in P.get('sections', []): body += s.split('\n', 1)[1]
    def put(f, t):
        p = os.path.join(d, f)
        if not os.path.exists(p) or open(p).read() != t: open(p, 'w').write(t)
    put('root.rs', body)
    for f in os.listdir(src):
        if f == 'root.rs': continue
        put(f, open(os.path.join(src, f)).read() if f[:-3] in need else '// not needed\n')
    e = dict(os.environ)
    for k in ('CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET_DIR'): e.pop(k, None)
    e.update(CARGO_NET_OFFLINE='true', DIVANS_VERIF_HOOKS=d, RUSTFLAGS='--cfg divans_verif -Awarnings')
    return e

class Res: pass

def harness_dir(P):
    """a private copy of the harness crate (so nothing committed is ever rewritten)"""
    d = os.path.join(B, P['id'], 'crate')
    s = os.path.join(V, 'harness')
    os.makedirs(os.path.join(d, 'src'), exist_ok=True)
    for f in ['Cargo.toml', 'Cargo.lock'] + ['src/' + x for x in os.listdir(os.path.join(s, 'src'))]:
        t = open(os.path.join(s, f)).read()
        p = os.path.join(d, f)
        if not os.path.exists(p) or open(p).read() != t: open(p, 'w').write(t)
    return d

# ------------------------------------------------------------------------------------------------ native
def native_build(P, env, d):
    tgt = os.path.join(B, P['id'], 'target')
    rc, out = sh(['cargo', 'build', '--features', P['feature'], '--target-dir', tgt], 600, cwd=d, env=env)
    return rc == 0, out, os.path.join(tgt, 'debug', 'vh')

def native_search(P, vh, secs, seed, threads, body=None):
    out = os.path.join(B, P['id'], 'search')
    r = Res(); r.counts = {}; r.fail = None
    cmd = [vh, 'search', P['id'], '--seed', str(seed), '--secs', str(secs), '--threads', str(threads), '--out', out, '--hang', str(P.get('hang', 40))]
    if body: cmd += ['--body', body]
    shutil.rmtree(out, ignore_errors=True)
    rc, o = sh(cmd, secs + 120, mem=20 << 30)
    for l in o.splitlines():
        m = re.match(r'COUNT (\S+) (\d+) (\d+)', l)
        if m: r.counts[m.group(1)] = (int(m.group(2)), int(m.group(3)))
        m = re.match(r'FAIL body=(\S+) seed=(\d+) (.*)', l)
        if m: r.fail = (m.group(1), 'seed=%s' % m.group(2), m.group(3))
    if not r.fail and rc not in (0,):
        # the search process died (abort, stack overflow, out of memory): find the case that kills it
        for f in sorted(os.listdir(out)) if os.path.isdir(out) else []:
            t = open(os.path.join(out, f)).read().split()
            if len(t) == 2:
                ok, msg = replay(P, vh, t[0], 'seed=' + t[1])
                if ok is False: r.fail = (t[0], 'seed=' + t[1], msg); break
    r.rc = rc; r.out = o[-2000:]
    return r

def write_replay(P, name, body, what, extra=''):
    d = os.path.join(V, 'build', 'replay'); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s.txt' % (P['id'], name))
    t = 'property=%s\nbody=%s\n%s\n' % (P['id'], body, what)
    if 'lim=' not in what: t += 'lim=0\n'
    t += '# replay: cargo build the crate as run.py does (features %s), then: vh replay <this file>\n' % P['feature']
    if extra: t += '\n' + '\n'.join('# ' + l for l in extra.splitlines()) + '\n'
    open(p, 'w').write(t)
    return p

def replay(P, vh, body, what):
    p = write_replay(P, 'try', body, what)
    rc, o = sh([vh, 'replay', p], 90, mem=20 << 30)
    if rc == 0: return (True if 'REPLAY ok' in o else None), o.strip()
    return False, (o.strip() or ('killed (%d)' % rc if rc != -99 else 'does not terminate'))

# ------------------------------------------------------------------------------------------------ kani
def kani_parse(o):
    cur = {}; res = {}; fails = {}; active = None
    for l in o.splitlines():
        m = re.match(r'(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.', l)
        if m: cur[m.group(1)] = m.group(2).split('::')[-1]; active = m.group(1); continue
        m = re.match(r'Thread (\d+):\s*$', l)
        if m: active = m.group(1); continue
        h = cur.get(active)
        if h is None: continue
        m = re.search(r'\*\* (\d+) of (\d+) failed(.*)', l)
        if m: res.setdefault(h, {})['checks'] = (int(m.group(1)), int(m.group(2)), m.group(3))
        m = re.search(r'VERIFICATION:- (\w+)', l)
        if m: res.setdefault(h, {})['status'] = m.group(1)
        m = re.search(r'Failed Checks: (.*)', l)
        if m: fails.setdefault(h, []).append(m.group(1))
        m = re.search(r'Verification Time: ([\d.]+)s', l)
        if m: res.setdefault(h, {})['time'] = float(m.group(1))
        if 'timed out' in l: res.setdefault(h, {})['timeout'] = True
    for h in fails: res.setdefault(h, {})['fails'] = fails[h]
    return res

def kani_run(P, env, d, hs, tmo):
    tgt = os.path.join(B, P['id'], 'ktarget')
    cmd = ['cargo', 'kani', '--features', P['feature'], '--target-dir', tgt, '--output-format', 'terse', '-Z', 'unstable-options',
           '--harness-timeout', '%ds' % tmo, '-j', str(max(1, min(len(hs), NPROC - 2)))]
    for h in hs: cmd += ['--harness', 'kproofs::%s' % h, ]
    rc, o = sh(cmd + ['--exact'], tmo * (1 + len(hs) // 6) + 200, cwd=d, env=env)
    return rc, o, kani_parse(o), ' '.join(cmd)

def kani_playback(P, env, d, h, tmo):
    tgt = os.path.join(B, P['id'], 'ktarget')
    cmd = ['cargo', 'kani', '--features', P['feature'], '--target-dir', tgt, '-Z', 'concrete-playback', '--concrete-playback=print',
           '--exact', '--harness', 'kproofs::%s' % h]
    rc, o = sh(cmd, tmo + 120, cwd=d, env=env)
    sets = []
    for m in re.finditer(r'concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];', o, re.S):
        vals = [int.from_bytes(bytes(int(x) for x in v.split(',') if x.strip()), 'little') for v in re.findall(r'vec!\[([^\]]*)\]', m.group(1))]
        sets.append(vals)
    return sets, o

# ------------------------------------------------------------------------------------------------ verus
def verus_run(P, name, unit, tmo=400, vac=None):
    import vextract
    r = Res(); r.name = name; r.status = 'undecided'; r.log = []; r.fns = []; r.verified = 0; r.errors = 0; r.reason = ''; r.out = ''; r.time = 0
    d = os.path.join(B, P['id'], 'verus'); os.makedirs(d, exist_ok=True)
    f = os.path.join(d, name + '.rs')
    try:
        text, r.log, r.fns = vextract.build(unit, REPO)
    except vextract.Lost as e:
        r.reason = 'contract anchor lost: %s' % e; return r
    except Exception as e:
        r.reason = 'extraction failed: %r' % e; return r
    open(f, 'w').write(text)
    r.file = f
    cmd = ['verus', f, '--rlimit', '100', '--triggers-mode', 'silent', '--output-json', '--num-threads', '4', '--time']
    r.cmd = ' '.join(cmd)
    t = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=tmo, cwd=d, errors='replace')
    except subprocess.TimeoutExpired:
        r.reason = 'verifier ran out of time'; return r
    r.time = time.time() - t
    r.out = p.stderr
    try:
        j = json.loads(p.stdout)
        vr = j['verification-results']
    except Exception:
        r.reason = 'verifier gave no result: ' + p.stderr[-300:]; return r
    r.verified = vr.get('verified', 0); r.errors = vr.get('errors', 0)
    if vr.get('success') and r.errors == 0 and r.verified > 0: r.status = 'proved'
    elif r.errors > 0:
        bad = 'Resource limit (rlimit) exceeded' in p.stderr or 'while loop: ' in p.stderr
        heads = re.findall(r'(?m)^error: (.*)$', p.stderr)
        hard = [h for h in heads if 'rlimit' not in h and 'aborting' not in h]
        r.reason = '; '.join(sorted(set(hard))[:4])
        # which functions failed
        r.failed_fns = sorted(set(fn_at(text, int(m)) for m in re.findall(r'-->\s*\S+?:(\d+):\d+', p.stderr)))
        r.status = 'failed' if hard else 'undecided'
        if not hard: r.reason = 'resource limit'
    else:
        heads = re.findall(r'(?m)^error[^:]*: (.*)$', p.stderr)
        r.reason = 'not accepted by the verifier: ' + '; '.join(heads[:3])
    return r

def fn_at(text, line):
    ls = text.split('\n')[:line]
    for l in reversed(ls):
        m = re.search(r'\bfn\s+(\w+)', l)
        if m: return m.group(1)
    return '?'

# ------------------------------------------------------------------------------------------------ main
def known(pid):
    out = []
    p = os.path.join(V, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) match=/(.*)/ (.*)', l.strip())
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out

def main():
    if len(sys.argv) < 2: print('usage: run.py PROPERTY'); return 2
    P = props.PROPS[sys.argv[1]]
    pid = P['id']
    os.makedirs(os.path.join(B, pid), exist_ok=True)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    env = make_env(P)
    d = harness_dir(P)
    thorough = TIER == 'thorough'
    units = []
    try:
        import units as U
        units = U.UNITS.get(pid, [])
    except Exception as e:
        log('contract units could not be loaded: %r' % e)
    ks = P.get('kani', []) + (P.get('kani_thorough', []) if thorough else [])
    st = {}
    def w_native():
        ok, o, vh = native_build(P, env, d)
        st['build'] = ok; st['buildout'] = o; st['vh'] = vh
        if not ok:
            log('harness does not build'); return
        log('harness built')
        secs = P.get('secs', 40) * (6 if thorough else 1)
        st['native'] = native_search(P, vh, secs, SEED, 4 if (ks or units) else NPROC)
        log('native search done', st['native'].counts, 'FAIL' if st['native'].fail else 'clean')
    def w_kani():
        tmo = P.get('kani_tmo', 240) * (3 if thorough else 1)
        rc, o, res, cmd = kani_run(P, env, d, [k[0] for k in ks], min(tmo, 700))
        st['kani'] = res; st['kanicmd'] = cmd; st['kaniout'] = o
        log('kani done', {k: v.get('status') for k, v in res.items()})
    def w_verus(n, u):
        st['verus:' + n] = verus_run(P, n, u)
        r = st['verus:' + n]
        log('verus', n, r.status, '%d verified, %d errors' % (r.verified, r.errors), r.reason)
    ths = [threading.Thread(target=w_native)]
    if ks: ths.append(threading.Thread(target=w_kani))
    for n, u in units: ths.append(threading.Thread(target=w_verus, args=(n, u)))
    for t in ths: t.start()
    for t in ths: t.join()

    viol = None      # (replay path, message, noinput)
    notes = []; findings = []
    kn = known(pid)
    def is_known(text):
        for rx, what in kn:
            if re.search(rx, text): return what
        return None
    vh = st.get('vh') if st.get('build') else None
    nat = st.get('native')
    if nat and nat.fail:
        b, w, msg = nat.fail
        kf = is_known('%s %s' % (b, msg))
        if kf: findings.append(kf)
        else:
            viol = (write_replay(P, 'native', b, w, msg), 'native: %s: %s' % (b, msg), False)
    # known findings with their own fixed demonstration
    for kb in P.get('findings', []):
        if vh:
            ok, msg = replay(P, vh, kb['body'], kb['what'])
            if ok is False: findings.append(kb['text'])
    # kani
    kani_ev = []
    und = []
    for k in ks:
        h, body, lim, kind = k
        r = st.get('kani', {}).get(h, {})
        c = r.get('checks', (0, 0, ''))
        kani_ev.append({'harness': h, 'kind': kind, 'status': r.get('status', 'none'), 'checks': c[1], 'failed': c[0], 'seconds': r.get('time')})
        if r.get('status') == 'SUCCESSFUL' and c[1] > 0: continue
        fl = r.get('fails', [])
        hard = [x for x in fl if 'unwinding assertion' not in x and 'is not currently supported' not in x and 'unsupported' not in x.lower()]
        if r.get('status') != 'FAILED' or r.get('timeout') or not hard:
            und.append('kani %s: %s' % (h, 'timed out' if r.get('timeout') else (r.get('status') or 'no result'))); continue
        if viol: continue
        log('kani reports', h, hard[:3], '- extracting the counterexample')
        sets, o = kani_playback(P, env, d, h, 300)
        hit = None
        for vals in sets:
            if vh:
                what = 'lim=%s\nvalues=%s' % (lim, ' '.join(map(str, vals)))
                ok, msg = replay(P, vh, body, what)
                if ok is False: hit = (what, msg); break
        if hit:
            kf = is_known('%s %s' % (body, hit[1]))
            if kf: findings.append(kf)
            else: viol = (write_replay(P, 'kani', body, hit[0], hit[1] + '\n' + '\n'.join(hard)), 'kani %s: %s' % (h, hit[1]), False)
        else:
            # one more try: a longer native search on that body
            r2 = native_search(P, vh, 40, SEED + 77, NPROC, body) if vh else None
            if r2 and r2.fail and not is_known('%s %s' % (r2.fail[0], r2.fail[2])):
                viol = (write_replay(P, 'native', r2.fail[0], r2.fail[1], r2.fail[2]), r2.fail[2], False)
            else:
                viol = (write_replay(P, 'kani', body, 'lim=%s\nvalues=%s' % (lim, ' '.join(map(str, sets[0])) if sets else ''),
                                     'no failing input reproduced; failed checks:\n' + '\n'.join(hard) + '\n' + o[-3000:]), 'kani %s: %s' % (h, hard[:2]), True)
    # verus
    vres = [st['verus:' + n] for n, _ in units]
    failed = [r for r in vres if r.status == 'failed']
    for r in vres:
        if r.status == 'undecided': und.append('verus %s: %s' % (r.name, r.reason))
    if failed and not viol:
        log('undischarged obligations in', [(r.name, r.failed_fns, r.reason) for r in failed], '- searching for a failing input')
        r2 = native_search(P, vh, 90 if not thorough else 200, SEED + 1234567, NPROC) if vh else None
        if r2 and r2.fail and not is_known('%s %s' % (r2.fail[0], r2.fail[2])):
            viol = (write_replay(P, 'native', r2.fail[0], r2.fail[1], r2.fail[2]), r2.fail[2], False)
        else:
            r = failed[0]
            viol = (write_replay(P, 'verus', '-', 'lim=0', 'failed obligation in: %s\n%s\n%s' % (', '.join(r.failed_fns), r.reason, r.out[-6000:])),
                    'obligation failed: %s (%s)' % (', '.join(r.failed_fns), r.reason), True)
    if not vh and not viol:
        # private items the hooks name are gone: the harness cannot be built against this tree
        rc, o = sh(['cargo', 'check', '--lib', '--target-dir', os.path.join(B, pid, 'plain')], 300, cwd=REPO,
                   env={k: v for k, v in env.items() if k not in ('RUSTFLAGS', 'DIVANS_VERIF_HOOKS')})
        if rc != 0:
            print('ERROR: /repo does not compile'); print(o[-2000:]); return 3
        und.append('harness hooks do not compile against this tree: ' + ' | '.join(re.findall(r'(?m)^error.*$', st.get('buildout', ''))[:3]))
    # ---------------------------------------------------------------- evidence
    vob = sum(r.verified + r.errors for r in vres); vdis = sum(r.verified for r in vres)
    kc = [k for k in kani_ev if k['kind'].startswith('complete')]
    kb = [k for k in kani_ev if not k['kind'].startswith('complete')]
    kob = sum(k['checks'] for k in kc); kdis = sum(k['checks'] - k['failed'] for k in kc if k['status'] == 'SUCCESSFUL')
    tab = P.get('enumerations', [])
    eob = len(tab); edis = sum(1 for t in tab if nat and nat.counts.get(t, (0, 0))[0] > 0)
    cov = {'obligations': vob + kob + eob, 'discharged': vdis + kdis + edis,
           'checker_cmd': '; '.join([r.cmd for r in vres if hasattr(r, 'cmd')] + ([st['kanicmd']] if 'kanicmd' in st else [])) or 'vh search ' + pid,
           'trusted_base': P['trusted'],
           'by_backend': {'verus/z3': {'obligations': vob, 'discharged': vdis, 'seconds': round(sum(r.time for r in vres), 1)},
                          'kani/cbmc complete harnesses': {'obligations': kob, 'discharged': kdis},
                          'complete native enumerations': {'obligations': eob, 'discharged': edis, 'names': tab}},
           'functions_under_contract': sorted(set(sum([r.fns for r in vres], [])) | set(P.get('kani_fns', []))),
           'extraction_drops': sorted(set(sum([r.log for r in vres], []))),
           'kani_harnesses': kani_ev,
           'bounded_not_counted_as_proved': {'kani': [(k['harness'], k['kind'], k['checks'], k['status']) for k in kb],
                                             'native_search_cases': {k: v[0] for k, v in (nat.counts if nat else {}).items()},
                                             'native_rejected': {k: v[1] for k, v in (nat.counts if nat else {}).items()}},
           'undecided_this_run': und,
           'explanation': P['level_note'],
           'evaluations': sum(v[0] for v in (nat.counts if nat else {}).values())}
    ev = {'property': pid, 'tier': TIER, 'seed': SEED, 'level': P['level'], 'coverage': cov, 'assumptions': P['trusted'],
          'wall_s': round(time.time() - T0, 1), 'violations': 1 if viol else 0}
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    for u in und: log('undecided (bounded stand-in decides):', u)
    for f in sorted(set(findings)): print('KNOWN-FINDING: property=%s %s' % (pid, f))
    if viol:
        log(viol[1])
        print('VIOLATION property=%s replay=%s%s' % (pid, viol[0], ' no-failing-input-found' if viol[2] else ''), flush=True)
        return 1
    log('held: %d/%d obligations discharged' % (cov['discharged'], cov['obligations']))
    return 0

if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
