#!/usr/bin/env python3
"""Decide one property of /repo by symbolic execution of its compiled code (see DESIGN.md).

  check.py ID [--tier quick|thorough]     exit 0: held; 1: VIOLATION; 2: no answer
  check.py --setup                        build everything once
"""
import concurrent.futures as cf, fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
R = '/repo'
B = os.path.join(V, '.build')
sys.path.insert(0, V)
T0 = time.time()
TIER = 'quick'
ENV = dict(os.environ, HOME='/root', RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', RUSTC_WRAPPER='', CARGO_TERM_COLOR='never',
           PATH=os.environ.get('PATH', '') + ':/root/.cargo/bin:/usr/local/bin:/usr/bin')
for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WORKSPACE_WRAPPER', 'KSE_CEX'):
    ENV.pop(k, None)


def log(*a):
    print('[%6.1f]' % (time.time() - T0), *a, flush=True)


class NoAnswer(Exception):
    pass


def run(cmd, cwd=None, env=None, timeout=1500):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, errors='replace', text=True)
    return p.returncode, p.stdout


def tree_hash(*roots):
    h = hashlib.sha256()
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git', '.build', '__pycache__', 'node_modules'))
            for f in sorted(fs):
                if f.endswith(('.rs', '.toml', '.txt', '.lock')):
                    p = os.path.join(d, f)
                    if os.path.isfile(p):
                        h.update(p.encode() + b'\0')
                        h.update(open(p, 'rb').read())
    return h.hexdigest()


def build_engine():
    d = os.path.join(B, 'kse')
    st, want = os.path.join(d, 'stamp'), tree_hash(os.path.join(V, 'kse'))
    exe = os.path.join(d, 'release', 'kse')
    if os.path.exists(exe) and os.path.exists(st) and open(st).read() == want:
        return exe
    shutil.rmtree(os.path.join(d, 'release', '.fingerprint'), ignore_errors=True)
    rc, o = run(['cargo', 'build', '--release', '--offline'], cwd=os.path.join(V, 'kse'), env=dict(ENV, CARGO_TARGET_DIR=d))
    if rc:
        raise NoAnswer('the engine does not build:\n' + o[-3000:])
    open(st, 'w').write(want)
    return exe


def cargo_harness(kind, target, args, flags=''):
    """Build harness/<kind> into B/<target>; rebuild the code under test whenever its contents changed."""
    src = os.path.join(V, 'harness', kind)
    d = os.path.join(B, target)
    os.makedirs(d, exist_ok=True)
    want = tree_hash(R, os.path.join(V, 'harness'), os.path.join(V, 'models')) + flags
    st = os.path.join(d, 'stamp')
    if os.path.exists(st) and open(st).read() == want:
        return d
    if os.path.exists(st):
        os.remove(st)
    shutil.copy(os.path.join(R, 'Cargo.lock'), os.path.join(src, 'Cargo.lock'))
    # cargo compares time stamps, which a copied tree need not respect: forget what depends on the sources
    for prof in ('debug', 'sym'):
        f = os.path.join(d, prof, '.fingerprint')
        if os.path.isdir(f):
            for x in os.listdir(f):
                if re.match(r'(h|bip39|secp256k1_bip32|tesseract-keychain|keychain-c|keychain-c-rlib|vmodel|cryptoxide|libsecp256k1|ripemd160|rand_os)-[0-9a-f]+$', x):
                    shutil.rmtree(os.path.join(f, x))
        dd = os.path.join(d, prof, 'deps')
        if os.path.isdir(dd):
            for x in os.listdir(dd):
                if x.endswith('.bc') or x.startswith(('h.', 'libh')):
                    os.remove(os.path.join(dd, x))
    env = dict(ENV, CARGO_TARGET_DIR=d)
    if flags:
        env['RUSTFLAGS'] = flags
    rc, o = run(['cargo'] + args, cwd=src, env=env)
    if rc:
        raise NoAnswer('the harness (%s) does not build against /repo:\n%s' % (kind, o[-4000:]))
    open(st, 'w').write(want)
    return d


def build_sym(long):
    d = cargo_harness('sym', 'symlong' if long else 'sym', ['rustc', '--offline', '--profile', 'sym', '--lib', '--', '-C', 'save-temps'],
                      '--cfg kse_sym' + (' --cfg kse_long' if long else ''))
    dd = os.path.join(d, 'sym', 'deps')
    c = [os.path.join(dd, x) for x in os.listdir(dd) if re.match(r'h\.h\.[0-9a-f]+-cgu\.0\.rcgu\.bc$', x)]
    if len(c) != 1:
        raise NoAnswer('expected one linked bitcode module, found %d' % len(c))
    return c[0]


def build_native(kind, long=False):
    d = cargo_harness(kind, kind + ('long' if long else ''), ['build', '--offline', '--bin', 'replay'], '--cfg kse_long' if long else '')
    return os.path.join(d, 'debug', 'replay')


def llvm_bin():
    rc, o = run(['rustc', '--print', 'sysroot'])
    b = os.path.join(o.strip(), 'lib/rustlib/x86_64-unknown-linux-gnu/bin')
    return b


def extract(bc, entry, work, bin_):
    out = os.path.join(work, entry)
    rc, o = run([os.path.join(bin_, 'opt'), '-passes=internalize,globaldce', '-internalize-public-api-list=%s,__rust_alloc' % entry, bc, '-o', out + '.bc'])
    if rc:
        raise NoAnswer('opt: ' + o[-500:])
    rc, o = run([os.path.join(bin_, 'llvm-dis'), out + '.bc', '-o', out + '.ll'])
    os.remove(out + '.bc')
    if rc:
        raise NoAnswer('llvm-dis: ' + o[-500:])
    return out + '.ll'


def cex_text(v):
    l = ['in %s %s' % (n.replace(' ', '_'), h) for n, h in v['inputs']]
    l += ['choose %d' % c for c in v['choices']]
    l += ['uf %d %s %s' % (t, i, o) for t, i, o in v['ufs']]
    return '\n'.join(l) + '\n'


def native(exe, entry, cex, timeout=180):
    try:
        p = subprocess.run([exe, entry], env=dict(ENV, KSE_CEX=cex, RUST_BACKTRACE='0'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, errors='replace', text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or '')


def native_fails(rc, out):
    """A native run shows a failure: a failed check, a panic, an abort or a fatal signal."""
    fails = re.findall(r'^KSE-FAILED (.*)$', out, re.M)
    if fails:
        return fails
    if rc < 0 or rc in (134, 139):
        return ['signal %d' % (-rc if rc < 0 else rc - 128)]
    return []


def demangle(names):
    try:
        p = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True, timeout=60)
        return p.stdout.split('\n')[:len(names)]
    except Exception:
        return names


def engine(exe, ll, entry, seed, work, opts):
    out = os.path.join(work, '%s.%d.json' % (entry, seed))
    left = max(20, DEADLINE - (time.time() - T0) - 40)
    cmd = [exe, '--ll', ll, '--entry', entry, '--out', out, '--time', str(int(min(left, opts.get('time', left)))), '--hash-seed', str(seed),
           '--witness', str(opts['witness']), '--seed', str(SEED * 1000 + seed), '--audit', str(opts['audit']), '--audit-s', str(opts['audit_s'])]
    cmd += ['--grace', '20', '--mem', str(opts['mem'])] if opts['stop'] else ['--mem', str(opts['mem'])]
    err = os.path.join(work, '%s.%d.err' % (entry, seed))
    end = time.time() + left + opts['audit_s'] + 60
    with open(err, 'w') as f:
        p = subprocess.Popen(cmd, env=ENV, stdout=f, stderr=subprocess.STDOUT)
        while p.poll() is None:
            time.sleep(0.2)
            if time.time() > min(end, opts['until'][0]):
                p.kill()
                p.wait()
                raise NoAnswer('%s: %s' % (entry, 'stopped, another entry is violated' if time.time() > opts['until'][0] else 'the engine ran out of time'))
    rc, o = p.returncode, open(err, errors='replace').read()
    if rc or not os.path.exists(out):
        raise NoAnswer('%s: the engine failed (%d): %s' % (entry, rc, o[-1500:]))
    r = json.load(open(out))
    r['hash_seed'] = seed
    return r


def known_findings():
    p = os.path.join(V, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'open': [], 'fixed': []}


def check(pid):
    import properties as P
    prop = P.PROPS[pid]
    long = TIER == 'thorough'
    work = os.path.join(B, 'work', pid + '.' + TIER)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    exe = build_engine()
    bc = build_sym(long)
    log('built the engine and the code under test (%s)' % os.path.basename(bc))
    bin_ = llvm_bin()
    # where a violation would be no news (a listed finding) everything is explored; otherwise one is enough
    opts = dict(witness=40 if long else 12, audit=1000000, audit_s=120 if long else 15, mem=12000 if long else 5000,
                stop=not [x for x in known_findings()['open'] if x['property'] == pid], until=[float('inf')])
    entries = prop['entries'] if not long else prop['entries'] + prop.get('thorough_entries', [])
    lls = {}
    results, errors = [], []
    with cf.ThreadPoolExecutor(8) as ex:
        fm = ex.submit(build_native, 'model', long)

        def one(e, s):
            ll = lls.get(e)
            if ll is None:
                ll = lls[e] = extract(bc, e, work, bin_)
            return engine(exe, ll, e, s, work, opts)
        jobs = []
        for e in entries:
            seeds = (e.get('seeds') or [0]) + ((e.get('thorough_seeds') or []) if long else [])
            lls[e['name']] = None
            jobs += [(e, s) for s in seeds]
        # extraction once per entry, before its runs
        for n, f in [(n, ex.submit(extract, bc, n, work, bin_)) for n in list(lls)]:
            lls[n] = f.result()
        futs = {ex.submit(one, e['name'], s): (e, s) for e, s in sorted(jobs, key=lambda j: -j[0].get('cost', 1))}
        for f in cf.as_completed(futs):
            e, s = futs[f]
            try:
                r = f.result()
                r['spec'] = e
                results.append(r)
                if r['violations'] and opts['stop']:
                    opts['until'][0] = min(opts['until'][0], time.time() + 45)
                log('%-22s hash seed %d: %d paths, %d queries (%.1f s solver), %d violations%s' % (
                    e['name'], s, r['paths'], r['queries'], r['solver_s'], len(r['violations']), '' if r['complete'] else ' INCOMPLETE ' + json.dumps(r['incomplete'])[:600]))
            except NoAnswer as x:
                errors.append(str(x))
        try:
            model = fm.result()
        except NoAnswer as x:
            errors.append(str(x))
            model = None

    rdir = os.path.join(B, 'replays', pid)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir)
    kf = known_findings()
    violated, unconfirmed, known = [], [], []
    real = None
    n = 0
    for r in results:
        for v in r['violations']:
            n += 1
            cex = os.path.join(rdir, '%s.%d.cex' % (r['entry'], n))
            open(cex, 'w').write('# property %s entry %s label %s\n# %s\n# at %s\n' % (pid, r['entry'], v['label'], v['msg'], ' < '.join(v['stack'][:6])) + cex_text(v))
            if real is None:
                try:
                    real = build_native('real', long)
                except NoAnswer as x:
                    errors.append(str(x))
                    real = False
            how = None
            tries = 25 if r['spec'].get('seeds') else 1
            for name, b in (('real', real), ('model', model)):
                if not b or how:
                    continue
                for _ in range(tries if name == 'model' else min(tries, 6)):
                    rc, o = native(b, r['entry'], cex, 60 if name == 'real' else 30)
                    fl = native_fails(rc, o)
                    if rc == 124 and v['label'] == 'endless run':
                        fl = ['no end after %d s' % (60 if name == 'real' else 30)]
                    if fl:
                        how = (name, b, fl)
                        break
            if how is None and v['label'] in ('memory-safety', 'shared memory is written'):
                # an access outside its object need not be visible in a native run
                how = ('engine', None, [v['msg']])
            item = dict(entry=r['entry'], label=v['label'], msg=v['msg'], cex=cex, hash_seed=r['hash_seed'],
                        inputs=[[a, b if len(b) < 400 else b[:400] + '…'] for a, b in v['inputs']][:40], choices=v['choices'])
            if how is None:
                unconfirmed.append(item)
                log('NOT REPRODUCED natively: %s: %s: %s' % (r['entry'], v['label'], v['msg']))
                continue
            item['replayed_with'] = how[0]
            item['native_failures'] = how[2]
            sh = cex[:-4] + '.sh'
            with open(sh, 'w') as f:
                f.write('#!/bin/sh\n# %s violated: %s (%s)\n# replays the solver\'s counterexample natively against the code in /repo (%s build)\n' % (pid, v['label'], v['msg'].replace('\n', ' '), how[0]))
                f.write('KSE_CEX=%s exec %s %s\n' % (cex, how[1] or model, r['entry']))
            os.chmod(sh, 0o755)
            item['replay'] = sh
            k = [x for x in kf['open'] if x['property'] == pid and x['entry'] == r['entry'] and x['label'] == v['label'] and re.search(x.get('where', ''), ' '.join(v['stack']))]
            if k:
                known.append((k[0], item))
            else:
                violated.append(item)

    # every sampled path must behave the same natively
    traces, mismatched = 0, []
    if model:
        def wit(a):
            r, i, w = a
            cex = os.path.join(work, '%s.%d.w%d' % (r['entry'], r['hash_seed'], i))
            open(cex, 'w').write(cex_text(w))
            for _ in range(25 if r['spec'].get('seeds') else 1):
                rc, o = native(model, r['entry'], cex)
                cov = sorted(set(re.findall(r'^KSE-COVER (.*)$', o, re.M)))
                obs = re.findall(r'^KSE-OBSERVE (.*)=([0-9a-f]*)$', o, re.M)
                if rc == 0 and not native_fails(rc, o) and cov == sorted(w['covers']) and obs == [tuple(x) for x in w['observed']] and 'KSE-DONE' in o:
                    os.remove(cex)
                    return None
            return '%s path %d: native run differs (exit %d): covers %s, expected %s; %s' % (r['entry'], i, rc, cov, w['covers'], o[-300:])
        ws = [(r, i, w) for r in results if not r['violations'] for i, w in enumerate(r['witnesses'])]
        with cf.ThreadPoolExecutor(8) as ex:
            for m in ex.map(wit, ws):
                traces += 1
                if m:
                    mismatched.append(m)
    log('%d sampled paths replayed natively, %d differ' % (traces, len(mismatched)))

    ok = [r for r in results]
    for r in ok:
        if r['violations']:
            continue
        if not r['complete']:
            errors.append('%s: not decided: %s' % (r['entry'], json.dumps(r['incomplete'])[:1500]))
    exp = json.load(open(os.path.join(V, 'bounds', 'covers.json')))
    seen = {}
    for r in ok:
        for c, k in r['covers'].items():
            seen.setdefault(r['entry'], {}).setdefault(c, 0)
            seen[r['entry']][c] += k
    if RECORD:
        return seen
    bad_entries = {r['entry'] for r in ok if r['violations']}
    for e in entries:
        if e['name'] in bad_entries or any(x.startswith(e['name'] + ':') for x in errors):
            continue
        for c in exp.get(e['name'], []):
            if not seen.get(e['name'], {}).get(c):
                errors.append('%s: no execution reaches "%s": the check would be vacuous' % (e['name'], c))
    errors += mismatched
    errors += ['%s: counterexample for "%s" not reproduced natively: %s' % (u['entry'], u['label'], u['cex']) for u in unconfirmed]

    fun = {}
    for r in ok:
        for f in r['functions']:
            fun[f] = 1
    names = sorted(set(re.sub(r'::h[0-9a-f]{16}$', '', x) for x in demangle(sorted(fun))))
    own = [x for x in names if re.search(r'\b(bip39|secp256k1_bip32|keychain|rust_keychain)::', x) and not re.match(r'^(h::|<h::)', x)]
    tot = lambda k: sum(r[k] for r in ok)
    ck = {}
    for r in ok:
        for l, (a, b, c) in r['checks'].items():
            x = ck.setdefault('%s: %s' % (r['entry'], l), [0, 0, 0])
            for i, y in enumerate((a, b, c)):
                x[i] += y
    samples = []
    for r in ok:
        for w in r['witnesses'][:2]:
            samples.append(dict(entry=r['entry'], inputs=[[a, b if len(b) <= 160 else b[:160] + '…'] for a, b in w['inputs'] if a][:12], choices=w['choices'], reaches=w['covers']))
    ev = dict(
        property=pid, tier=TIER, seed=SEED, level='model_checking',
        coverage=dict(
            states=tot('paths') + tot('forks') + tot('infeasible'),
            transitions=tot('instructions'),
            traces_validated_against_impl=traces - len(mismatched),
            samples=samples[:24],
            meaning='states: symbolic states opened (path starts, forks, branches refuted); transitions: LLVM instructions of the compiled code executed symbolically, each for all values of the inputs; traces: sampled finished paths whose model was replayed natively and behaved as the engine said',
            paths=tot('paths'),
            decided_completely=all(r['complete'] for r in ok) and not errors,
            entries=[dict(entry=r['entry'], hash_seed=r['hash_seed'], paths=r['paths'], instructions=r['instructions'], queries=r['queries'], sat=r['sat'], unsat=r['unsat'], unknown=r['unknown'],
                          solver_s=r['solver_s'], max_query_s=r['max_query_s'], symbolic_bytes=r['sym_vars'], memory_accesses_checked=r['mem_checks'], wall_s=r['wall_s'],
                          complete=r['complete'], bounds=r['spec'].get('bounds', '')) for r in sorted(ok, key=lambda r: (r['entry'], r['hash_seed']))],
            queries=tot('queries'), unsat=tot('unsat'), sat=tot('sat'), solver_s=round(tot('solver_s'), 3), solver='Z3 ' + (ok[0]['solver'] if ok else '?'),
            assertions={k: dict(evaluated=v[0], folded_to_true_by_audited_rewriting=v[1], discharged_by_query=v[2]) for k, v in sorted(ck.items())},
            simplifier_audit={k: sum(r['audit'][k] for r in ok) for k in ('rewrites', 'proved', 'unanswered', 'wrong', 'beyond_cap')},
            reached={r['entry']: r['covers'] for r in ok},
            functions_encoded=own, functions_encoded_total=len(names),
            bounds=prop['bounds'], outside=prop.get('outside', ''),
            violations=violated, known_findings=[i for _, i in known], errors=errors),
        assumptions=P.ASSUMPTIONS + prop.get('assumptions', []),
        wall_s=round(time.time() - T0, 2), violations=len(violated))
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1, ensure_ascii=False)
    if not violated and not errors:
        shutil.rmtree(work, ignore_errors=True)
    for k, i in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for i in violated:
        print('VIOLATION property=%s replay=%s' % (pid, i['replay']))
        print('  %s: %s %s -- reproduced with the %s build: %s' % (i['entry'], i['label'], i['msg'], i['replayed_with'], '; '.join(i['native_failures'])[:300]))
    for x in errors:
        print('NO-ANSWER property=%s %s' % (pid, x))
    if violated:
        return 1
    if errors:
        return 2
    print('OK property=%s (%d paths, %d queries, %.1f s)' % (pid, tot('paths'), tot('queries'), time.time() - T0))
    return 0


def main():
    global TIER, SEED, DEADLINE, RECORD
    a = sys.argv[1:]
    SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
    TIER = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        TIER = a[a.index('--tier') + 1]
    RECORD = '--record' in a
    DEADLINE = 840 if TIER == 'quick' else 20000
    os.makedirs(B, exist_ok=True)
    lock = open(os.path.join(B, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if '--setup' in a:
            build_engine()
            build_sym(False)
            build_native('model')
            build_native('real')
            log('set up')
            return 0
        if RECORD:
            p = os.path.join(V, 'bounds', 'covers.json')
            for pid in a[:a.index('--record')]:
                seen = check(pid)
                d = json.load(open(p)) if os.path.exists(p) else {}
                d.update({k: sorted(v) for k, v in seen.items()})
                json.dump(d, open(p, 'w'), indent=1, sort_keys=True)
            return 0
        return check(a[0])
    except NoAnswer as x:
        print('NO-ANSWER property=%s %s' % (a[0], x))
        return 2


if __name__ == '__main__':
    sys.exit(main())
