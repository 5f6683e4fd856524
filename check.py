#!/usr/bin/env python3
"""Decide one property of /repo by static analysis of its current source.

  check.py <ID>          quick (or VERIF_TIER=thorough) check of property <ID>
  check.py --setup       build the MIR driver

The analysed program is the optimised-nothing MIR of the three crates as the
nightly compiler type-checks them from /repo's working tree; nothing of it is run.
"""
import sys, os, json, time, hashlib, subprocess, fcntl, importlib, glob, signal, threading, resource
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = '/repo'
CACHE = os.path.join(HERE, '.cache')

def sh(*a, **k): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def die(msg):
    print('ERROR: ' + msg); sys.exit(2)

def driver():
    src = os.path.join(HERE, 'driver', 'main.rs')
    ver = sh('rustc', '+nightly', '-V').stdout
    h = hashlib.sha256(open(src, 'rb').read() + ver.encode()).hexdigest()[:16]
    out = os.path.join(CACHE, 'driver-' + h)
    if not os.path.exists(out):
        r = sh('rustc', '+nightly', '-O', src, '-o', out + '.tmp%d' % os.getpid())
        if r.returncode: die('driver does not build:\n' + r.stdout[-3000:])
        os.rename(out + '.tmp%d' % os.getpid(), out)
    return out, h

def tree_hash(extra):
    h = hashlib.sha256(extra.encode())
    for root in ('svd-rs', 'svd-parser', 'svd-encoder'):
        for d, ds, fs in os.walk(os.path.join(REPO, root)):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git'))
            for f in sorted(fs):
                if f.endswith(('.rs', '.toml', '.lock')):
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(open(p, 'rb').read())
    for p in ('Cargo.toml', 'Cargo.lock'):
        q = os.path.join(REPO, p)
        if os.path.exists(q): h.update(open(q, 'rb').read())
    for p in sorted(glob.glob(os.path.join(HERE, 'client', '**', '*.*'), recursive=True)):
        if '/target/' not in p: h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]

FLAGS = '-Zalways-encode-mir -Zmir-opt-level=0 -Cdebug-assertions=on -Coverflow-checks=on -Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums -Awarnings'
def dump():
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv, dh = driver()
        key = tree_hash(dh + FLAGS)
        out = os.path.join(CACHE, 'dump-%s.jsonl' % key)
        if os.path.exists(out): return out, key
        sysroot = sh('rustc', '+nightly', '--print', 'sysroot').stdout.strip()
        env = dict(os.environ, SVD_DUMP=out + '.tmp', LD_LIBRARY_PATH=sysroot + '/lib', RUSTC_WORKSPACE_WRAPPER=drv,
                   RUSTFLAGS=FLAGS,
                   CARGO_TARGET_DIR=os.path.join(CACHE, 'target'), CARGO_NET_OFFLINE='true')
        for k in ('RUSTC', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET', 'CARGO_ENCODED_RUSTFLAGS'): env.pop(k, None)
        # the driver must see every project crate again: drop their fingerprints
        for p in glob.glob(os.path.join(CACHE, 'target', 'debug', '.fingerprint', 'svd*')) + \
                 glob.glob(os.path.join(CACHE, 'target', 'debug', '.fingerprint', 'client*')):
            subprocess.run(['rm', '-rf', p])
        if os.path.exists(out + '.tmp'): os.remove(out + '.tmp')
        cl = os.path.join(HERE, 'client')
        for fs in ('generic,serial', 'generic'):
            r = sh('cargo', '+nightly', 'check', '--offline', '--features', fs, cwd=cl, env=env)
            if not r.returncode: break
        if r.returncode: r = sh('cargo', '+nightly', 'check', '--offline', cwd=cl, env=env)
        if r.returncode or not os.path.exists(out + '.tmp'):
            die('the analysed program does not type-check:\n' + r.stdout[-4000:])
        old = sorted(glob.glob(os.path.join(CACHE, 'dump-*.jsonl')), key=os.path.getmtime)
        for p in old[:-3]: os.remove(p)
        os.rename(out + '.tmp', out)
        return out, key

def known():
    """known findings: property -> {key: text}"""
    r = {}
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            if l.startswith('finding: '):
                pid, key, text = l[len('finding: '):].split(' || ')
                r.setdefault(pid.split('=')[1], {})[key] = text
    return r

class Budget(BaseException): pass
def budget(secs):
    """raise Budget in the main thread after so many seconds (0: call it off)"""
    def fire(*a): raise Budget('out of time')
    signal.signal(signal.SIGUSR1, fire)
    if budget.timer: budget.timer.cancel(); budget.timer = None
    if secs:
        main = threading.main_thread().ident
        budget.timer = threading.Timer(max(1, secs), lambda: signal.pthread_kill(main, signal.SIGUSR1))
        budget.timer.daemon = True; budget.timer.start()
budget.timer = None

def run(pid):
    t0 = time.time()
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    tier = os.environ.get('VERIF_TIER', 'quick')
    from rules import registry
    if pid not in registry.CHECKS: die('no such check ' + pid)
    path, key = dump()
    from rules.spec import Ctx, Check
    ctx = Ctx(path)
    ctx.tier = tier
    ctx.repo = REPO
    ck = Check(ctx, pid)
    ck.tier = tier
    ent = registry.CHECKS[pid]
    budget(700 - (time.time() - t0))
    for mod, fn in ent['rules']:
        m = importlib.import_module('rules.' + mod)
        n0 = len(ck.rows)
        try: getattr(m, fn)(ck)
        except (Exception, Budget) as x:
            # what is left of this rule has no answer; what it found so far stands
            if os.environ.get('SVD_DEBUG'): raise
            ck.unk('(analysis)', '%s.%s' % (mod, fn), 'not finished: %s: %s' % (type(x).__name__, str(x)[:200]))
        for r in ck.rows[n0:]: r['rule'] = '%s.%s' % (mod, fn)
    budget(0)
    rows = ck.rows
    cnt = {}
    for r in rows: cnt[r['status']] = cnt.get(r['status'], 0) + 1
    kf = known().get(pid, {})
    viol = []
    seen = set()
    for r in rows:
        if r['status'] != 'violation': continue
        k = '%s | %s' % (r['fn'], r['what'])
        if k in kf:
            if k not in seen: print('KNOWN-FINDING: property=%s %s' % (pid, kf[k]))
            seen.add(k); continue
        viol.append(r)
    if cnt.get('ok', 0) < ent.get('floor', 1) and not viol and cnt.get('undecided', 0) == 0:
        viol.append(dict(fn='(analysis)', what='instance floor', sp='', detail='only %d obligations discharged, at least %d are expected' % (cnt.get('ok', 0), ent['floor'])))
    cov = dict(explanation=' '.join(ck.rules) or ent['title'], obligations=len(rows), discharged=cnt.get('ok', 0),
               undecided=cnt.get('undecided', 0), known_findings=len(seen),
               functions_analysed=len(ctx.analysed), mir_blocks_analysed=sum(ctx.analysed.values()),
               functions=sorted(ctx.analysed)[:400], rules=ck.rules, source_tree=key,
               undecided_list=[dict(fn=r['fn'], what=r['what'], why=r['detail'][:300]) for r in rows if r['status'] == 'undecided'][:60],
               samples=[dict(fn=r['fn'], at=r['sp'], obligation=r['what']) for r in rows if r['status'] == 'ok'][::max(1, cnt.get('ok', 1) // 25)][:30])
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other', coverage=cov,
              assumptions=registry.ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged, %d undecided, %d known; %d functions, %d MIR blocks; %.1fs' %
          (pid, len(rows), cnt.get('ok', 0), cnt.get('undecided', 0), len(seen), len(ctx.analysed), sum(ctx.analysed.values()), time.time() - t0))
    if viol:
        rp = os.path.join(HERE, 'evidence', pid + '.violations.txt')
        with open(rp, 'w') as f:
            for r in viol: f.write('%s (%s)\n  rule instance: %s\n  %s\n\n' % (r['fn'], r['sp'], r['what'], r['detail']))
        for r in viol[:12]: print('  %s (%s): %s: %s' % (r['fn'], r['sp'], r['what'], r['detail'][:500]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        sys.exit(1)
    sys.exit(0)

if __name__ == '__main__':
    if len(sys.argv) != 2: die('usage: check.py <ID> | --setup')
    if sys.argv[1] == '--setup':
        os.makedirs(CACHE, exist_ok=True); dump(); print('ready'); sys.exit(0)
    run(sys.argv[1])
