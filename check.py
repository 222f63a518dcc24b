#!/usr/bin/env python3
"""Decides one property of properties.jsonl by symbolic execution of the code in /repo.

usage: check.py <property id> [--tier quick|thorough]

See DESIGN.md.  Exit 0: held on everything explored; 1: VIOLATION line printed;
anything else: the check could not decide (build failure of the tree, solver
timeout, counterexample that does not reproduce, vacuous harness...).
"""
import hashlib, json, os, queue, re, shutil, subprocess, sys, threading, time, fcntl

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools'))
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
BUILD = os.path.join(VERIF, '.build')
T0 = time.time()
BUDGET = 860
NPROC = min(8, os.cpu_count() or 8)

import plan  # noqa: E402  (tools/plan.py: which entries decide which property)

ENV = dict(os.environ)
for k in list(ENV):
    if k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET', 'RUSTC', 'CARGO_TARGET_DIR', 'RUSTDOCFLAGS', 'TRYBUILD', 'MACROTEST') or k.startswith('CARGO_PROFILE_'):
        del ENV[k]
ENV.update(RUSTUP_TOOLCHAIN='1.87.0', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0',
           HOME='/root', CARGO_HOME='/root/.cargo', RUSTUP_HOME='/root/.rustup')
ENV['PATH'] = '/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'


def log(*a):
    print('[%6.1f]' % (time.time() - T0), *a, file=sys.stderr, flush=True)


class Undecided(Exception):
    pass


# ------------------------------------------------------------------ building

def tree_files(root, exts=('.rs', '.toml', '.lock', '.md', '.py')):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in ('target', '.git', '.build', 'seeded', 'evidence'))
        for f in sorted(fs):
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return out


def digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:16]


def repo_digest_files():
    r = []
    for sub in ('funcmap', 'funcmap_derive'):
        r += tree_files(os.path.join(REPO, sub))
    r.append(os.path.join(REPO, 'Cargo.toml'))
    return [p for p in r if os.path.exists(p) and '/tests/' not in p]


def fresh_dir(name, dg):
    """.build/<name>-<digest>, removing builds of other digests"""
    os.makedirs(BUILD, exist_ok=True)
    want = os.path.join(BUILD, '%s-%s' % (name, dg))
    for e in os.listdir(BUILD):
        p = os.path.join(BUILD, e)
        if re.fullmatch(re.escape(name) + r'-[0-9a-f]{16}', e) and p != want:
            shutil.rmtree(p, ignore_errors=True)
    os.makedirs(want, exist_ok=True)
    return want


def engine():
    d = os.path.join(VERIF, 'engine')
    out = fresh_dir('engine', digest(tree_files(d)))
    exe = os.path.join(out, 'release', 'llsym')
    if not os.path.exists(exe):
        log('building the engine')
        p = subprocess.run(['cargo', 'build', '--release', '--offline', '--locked'], cwd=d, env=dict(ENV, CARGO_TARGET_DIR=out), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0 or not os.path.exists(exe):
            raise Undecided('engine does not build:\n' + p.stdout[-3000:])
    return exe


class Crate:
    """a harness crate: IR in two profiles and a native replay binary"""

    def __init__(self, name, features=(), cfgs=(), flags=()):
        self.flags = list(flags)
        self.name, self.features, self.cfgs = name, tuple(features), tuple(cfgs)
        self.src = os.path.join(VERIF, 'harness', name)
        self.error = None

    def prepare(self):
        files = repo_digest_files() + tree_files(os.path.join(VERIF, 'harness', 'symrt')) + tree_files(self.src)
        self.gen = getattr(plan, 'generate_' + self.name, None)
        if self.gen:
            files += tree_files(os.path.join(VERIF, 'tools'))
        self.dir = fresh_dir(self.name + ''.join('+' + f for f in self.features + tuple(x.strip('-') for x in self.flags)), digest(files, ' '.join(self.cfgs)))
        if self.gen:
            # scratch crate assembled from /repo's current source (see plan.py)
            self.src = self.gen(self.dir, REPO, VERIF)

    def _cargo(self, tag, args, extra_rustflags=()):
        td = os.path.join(self.dir, tag)
        env = dict(ENV, CARGO_TARGET_DIR=td)
        fl = list(self.cfgs) + list(extra_rustflags)
        if fl:
            env['RUSTFLAGS'] = ' '.join(fl)
        ok = os.path.join(td, '.ok')
        if os.path.exists(ok):
            return None
        p = subprocess.run(['cargo'] + args, cwd=self.src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            return p.stdout
        open(ok, 'w').close()
        return None

    def _feat(self, *more):
        fs = list(self.features) + list(more)
        return self.flags + (['--features', ','.join(fs)] if fs else [])

    def build(self, natives=('nat',)):
        jobs = []
        base = ['rustc', '--offline', '--locked', '--lib', '--crate-type', 'cdylib']
        irf = ['--', '--emit=llvm-ir', '-Cno-vectorize-loops', '-Cno-vectorize-slp']
        jobs.append(('debug', base + self._feat() + irf))
        jobs.append(('release', base + ['--release'] + self._feat() + irf))
        for n in natives:
            jobs.append((n, ['build', '--offline', '--locked', '--bin', 'replay', '--profile', n if n != 'dev' else 'dev'] + self._feat('native')))
        errs = {}

        def run(j):
            e = self._cargo(*j)
            if e:
                errs[j[0]] = e
        ts = [threading.Thread(target=run, args=(j,)) for j in jobs]
        for t in ts: t.start()
        for t in ts: t.join()
        if errs:
            self.error = errs.get('debug') or next(iter(errs.values()))
            return False
        return True

    def ll(self, profile):
        return os.path.join(self.dir, profile, 'debug' if profile == 'debug' else 'release', 'deps', self.name + '.ll')

    def native(self, prof):
        return os.path.join(self.dir, prof, {'dev': 'debug'}.get(prof, prof), 'replay')


def repo_builds():
    td = fresh_dir('repocheck', digest(repo_digest_files()))
    env = dict(ENV, CARGO_TARGET_DIR=td)
    p = subprocess.run(['cargo', 'check', '--offline', '-p', 'funcmap'], cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode == 0, p.stdout


# ------------------------------------------------------------------ symbolic execution

class Worker(threading.Thread):
    def __init__(self, exe, q, out, opts):
        super().__init__(daemon=True)
        self.exe, self.q, self.out, self.opts = exe, q, out, opts
        self.proc, self.key = None, None

    def stop(self):
        if self.proc:
            try:
                self.proc.kill()
                self.proc.wait()
            except OSError:
                pass
        self.proc = None

    def run(self):
        while True:
            try:
                _, key, entry = self.q.get_nowait()
            except queue.Empty:
                break
            if time.time() - T0 > BUDGET:
                self.out.append((key, {'status': 'error', 'entry': entry, 'error': 'time budget of the check exhausted'}))
                continue
            ll, tags = key[2], key[3]
            if self.key != key or not self.proc or self.proc.poll() is not None:
                self.stop()
                cmd = [self.exe, '--ll', ll, '--serve', '--solver', self.opts['solver'], '--timeout', str(self.opts['timeout']), '--query-timeout-ms', str(self.opts['qto'])]
                if tags:
                    cmd += ['--tags', tags]
                self.proc = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, bufsize=1)
                self.key = key
            res = None
            killer = threading.Timer(self.opts['timeout'] + 60, self.proc.kill)
            killer.start()
            try:
                self.proc.stdin.write(entry + '\n')
                self.proc.stdin.flush()
                line = self.proc.stdout.readline()
                res = json.loads(line) if line.strip() else None
            except (OSError, ValueError) as e:
                res = {'status': 'error', 'error': 'engine: %r' % e}
            killer.cancel()
            if res is None:
                res = {'status': 'error', 'error': 'engine died (time or memory limit)'}
            res.setdefault('entry', entry)
            if res['status'] == 'error':
                self.stop()
            self.out.append((key, res))
        self.stop()


def explore(exe, tasks, opts):
    """tasks: list of (crate name, profile, ll, tags, entry)"""
    q = queue.PriorityQueue()
    for c, p, ll, tags, e in tasks:
        q.put((plan.weight(e), (c, p, ll, tags), e))
    out = []
    ws = [Worker(exe, q, out, opts) for _ in range(NPROC)]
    for w in ws: w.start()
    for w in ws: w.join()
    return out


def entries_of(exe, ll):
    p = subprocess.run([exe, '--ll', ll, '--list', ''], stdout=subprocess.PIPE, text=True)
    return [l for l in p.stdout.split() if re.fullmatch(r'[a-z][a-z0-9]*_[a-z0-9_]+', l)]


# ------------------------------------------------------------------ replay

def replay_native(exe, entry, inputs, tags, timeout=20):
    env = dict(ENV, SYM_INPUTS=','.join(str(v) for _, v in inputs))
    if tags:
        env['SYM_TAGS'] = tags
    try:
        p = subprocess.run([exe, entry], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 'timeout', ''
    return p.returncode, p.stdout.decode(errors='replace')


def confirm(crate, entry, v, tags):
    """does the counterexample reproduce on the really compiled code?"""
    tried = []
    for prof in ('nat', 'dev'):
        exe = crate.native(prof)
        if not os.path.exists(exe):
            crate.build(natives=(prof,))
        if not os.path.exists(exe):
            tried.append(prof + ': not built')
            continue
        rc, out = replay_native(exe, entry, v['inputs'], tags)
        tried.append('%s: exit %s %s' % (prof, rc, out.strip()[-200:]))
        if rc == 7 or (isinstance(rc, int) and rc < 0) or rc in (101, 134):
            return True, 'native/' + prof, tried
    if not v['msg'].startswith('['):
        env = dict(ENV, SYM_INPUTS=','.join(str(x) for _, x in v['inputs']))
        if tags:
            env['SYM_TAGS'] = tags
        for prof in ('dev', 'nat'):
            exe = crate.native(prof)
            if os.path.exists(exe) and shutil.which('valgrind'):
                try:
                    p = subprocess.run(['valgrind', '-q', '--error-exitcode=77', '--leak-check=no', exe, entry], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
                    tried.append('valgrind/%s: exit %d' % (prof, p.returncode))
                    if p.returncode in (77, 7) or p.returncode < 0:
                        return True, 'valgrind/' + prof, tried
                except subprocess.TimeoutExpired:
                    pass
        ok, how = miri(crate, entry, v, tags)
        tried.append('miri: ' + how[:300])
        if ok:
            return True, 'miri', tried
    return False, '', tried


def miri(crate, entry, v, tags):
    try:
        env = dict(ENV, RUSTUP_TOOLCHAIN='nightly', CARGO_TARGET_DIR=os.path.join(crate.dir, 'miri'), MIRIFLAGS='-Zmiri-disable-isolation -Zmiri-permissive-provenance',
                   SYM_INPUTS=','.join(str(x) for _, x in v['inputs']))
        if tags:
            env['SYM_TAGS'] = tags
        p = subprocess.run(['cargo', 'miri', 'run', '--offline', '--bin', 'replay'] + crate._feat('native') + ['--', entry], cwd=crate.src, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        return 'Undefined Behavior' in p.stdout, ('Undefined Behavior' if 'Undefined Behavior' in p.stdout else p.stdout[-300:])
    except (subprocess.TimeoutExpired, OSError) as e:
        return False, repr(e)


# ------------------------------------------------------------------ main

def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) entry=(\S+) msg=(.*?) :: (.*)', l.strip())
            if m and m.group(1) == prop:
                out.append(m.groups())
    return out


def main():
    if sys.argv[1] == '--setup':
        engine()
        for cname in plan.SETUP:
            c = Crate(plan.CRATES[cname].get('dir', cname), plan.CRATES[cname].get('features', ()), flags=plan.CRATES[cname].get('flags', ()))
            c.prepare()
            log('building', cname, c.build())
        return
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(evdir, 'replay'), exist_ok=True)
    ev_path = os.path.join(evdir, prop + '.json')
    if os.path.exists(ev_path):
        os.unlink(ev_path)
    try:
        code = decide(prop, tier, seed, evdir, ev_path)
    except Undecided as e:
        print('UNDECIDED property=%s %s' % (prop, e))
        code = 3
    sys.stdout.flush()
    os._exit(code)


def report(prop, evdir, n, rec):
    path = os.path.join(evdir, 'replay', '%s-%d.json' % (prop, n))
    with open(path, 'w') as f:
        json.dump(rec, f, indent=1)
    print('VIOLATION property=%s replay=%s' % (prop, path))


def write_evidence(prop, tier, seed, path, P, coverage, n):
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': P.get('level', 'model_checking'), 'coverage': coverage,
          'assumptions': P['assumptions'], 'wall_s': round(time.time() - T0, 1), 'violations': n}
    with open(path, 'w') as f:
        json.dump(ev, f, indent=1)


def differing(base, violations, exe, opts, undecided):
    """keep only what does not happen in the default configuration as well"""
    c = Crate(plan.CRATES[base].get('dir', base), plan.CRATES[base].get('features', ()))
    c.prepare()
    if not c.build():
        undecided.append('default configuration does not build')
        return []
    keep = []
    for v in violations:
        if not v.get('profile'):
            keep.append(v)
            continue
        prof = v['profile'] if v['profile'] in ('debug', 'release') else 'debug'
        r = explore(exe, [(base, prof, c.ll(prof), None, v['entry'])], opts)[0][1]
        if r['status'] in ('ok', 'violation') and not any(x['msg'] == v['msg'] for x in r['violations']):
            keep.append(v)
        else:
            log('not specific to the configuration:', v['entry'], v['msg'])
    return keep


def decide(prop, tier, seed, evdir, ev_path):
    global BUDGET
    if tier == 'thorough':
        BUDGET = 6 * 3600
    P = plan.PROPS[prop]
    opts = {'solver': 'z3 -in', 'timeout': 240 if tier == 'quick' else 3600, 'qto': 60000 if tier == 'quick' else 600000}
    exe = engine()
    crates = {}
    violations, undecided = [], []
    for cname in P['crates']:
        feats = list(plan.CRATES[cname].get('features', ()))
        if tier == 'thorough' and plan.CRATES[cname].get('deep'):
            feats.append('deep')
        c = Crate(plan.CRATES[cname].get('dir', cname), feats, plan.CRATES[cname].get('cfgs', ()), plan.CRATES[cname].get('flags', ()))
        try:
            c.prepare()
        except plan.Prepare as e:
            raise Undecided('cannot assemble %s: %s' % (cname, e))
        log('building', cname)
        if not c.build():
            ok, txt = repo_builds()
            if not ok:
                raise Undecided('/repo does not build:\n' + txt[-2000:])
            # the tree builds, but code that uses its documented interface does not
            if cname in P.get('compile', ()):
                b = P.get('baseline')
                if b:
                    d = Crate(plan.CRATES[b].get('dir', b), plan.CRATES[b].get('features', ()))
                    d.prepare()
                    if not d.build():
                        raise Undecided('default configuration does not build either:\n' + d.error[-3000:])
                rec = {'crate': cname, 'entry': 'compile', 'msg': 'code using the documented interface does not compile', 'log': c.error[-6000:]}
                write_evidence(prop, tier, seed, ev_path, P, {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': [], 'explanation': 'the harness did not compile'}, 1)
                print(c.error[-1500:])
                report(prop, evdir, 0, rec)
                return 1
            raise Undecided('harness %s does not build against /repo:\n%s' % (cname, c.error[-4000:]))
        crates[cname] = c
    log('built')

    tasks, negs = [], []
    for cname, sel in P['crates'].items():
        c = crates[cname]
        for prof in plan.CRATES[cname].get('profiles', ('debug', 'release')):
            ll = c.ll(prof)
            names = entries_of(exe, ll)
            for e in names:
                if re.search(sel, e) and not e.startswith('neg_'):
                    tasks.append((cname, prof, ll, P['tags'], e))
                elif e.startswith('neg_') and re.search(P.get('neg', r'^$'), e):
                    negs.append((cname, prof, ll, P['tags'], e))
    if not tasks:
        raise Undecided('no harness entries selected')
    log('exploring %d entries (+%d negative controls)' % (len(tasks), len(negs)))
    results = explore(exe, tasks + negs, opts)
    tot = {k: 0 for k in ('paths', 'infeasible', 'forks', 'steps', 'unwinds', 'checks', 'checks_solver', 'checks_concrete', 'queries', 'sat', 'unsat')}
    solver_s = 0.0
    funcs = set()
    samples, neg_ok, validated, unvalidated = [], 0, 0, 0
    per_entry = []
    replay_jobs = []
    known = known_findings(prop)
    pend = []
    for (cname, prof, ll, tags), r in sorted(results, key=lambda x: (x[0][0], x[0][1], x[1]['entry'])):
        e = r['entry']
        for k in tot:
            tot[k] += r.get(k, 0)
        solver_s += r.get('solver_s', 0)
        funcs.update(r.get('functions_funcmap', ()))
        if e.startswith('neg_'):
            if r['status'] == 'violation':
                neg_ok += 1
            else:
                undecided.append('negative control %s (%s) was not detected: %s' % (e, prof, r.get('error')))
            continue
        per_entry.append([cname, prof, e, r.get('paths', 0), r.get('queries', 0), r.get('steps', 0)])
        if r['status'] == 'violation':
            for v in r['violations']:
                pend.append((cname, prof, e, v, tags))
        elif r['status'] != 'ok':
            undecided.append('%s/%s/%s: %s %s' % (cname, prof, e, r['status'], r.get('error')))
        for s in r.get('samples', [])[:2]:
            replay_jobs.append((cname, e, s, tags))
            if len(samples) < 6 and s:
                samples.append({'entry': e, 'profile': prof, 'inputs': s})
    log('%d engine results, %d counterexamples, %d undecided' % (len(results), len(pend), len(undecided)))

    # replay what the solver produced against the really compiled code
    lock = threading.Lock()
    rq = queue.Queue()
    for j in replay_jobs:
        rq.put(j)
    bad_samples = []

    def rep():
        nonlocal validated, unvalidated
        while True:
            try:
                cname, e, s, tags = rq.get_nowait()
            except queue.Empty:
                return
            rc, out = replay_native(crates[cname].native('nat'), e, s, tags)
            with lock:
                if rc == 0 and 'REPLAY-DONE' in out:
                    validated += 1
                elif rc == 7 or (isinstance(rc, int) and rc < 0):
                    bad_samples.append((cname, e, s, tags, rc, out))
                else:
                    unvalidated += 1
    ts = [threading.Thread(target=rep) for _ in range(NPROC)]
    for t in ts: t.start()
    for t in ts: t.join()
    for cname, e, s, tags, rc, out in bad_samples:
        pend.append((cname, 'nat', e, {'msg': 'replay of a solver model fails natively: exit %s %s' % (rc, out.strip()[-200:]), 'inputs': s, 'trace': []}, tags))

    confirmed, seen, tries = [], set(), 0
    for cname, prof, e, v, tags in pend:
        if (e, v['msg']) in seen:
            continue
        seen.add((e, v['msg']))
        if len(confirmed) >= 3 or (confirmed and time.time() - T0 > BUDGET - 120):
            continue
        if tries >= 12:
            undecided.append('more counterexamples than were tried')
            continue
        tries += 1
        ok, how, tried = confirm(crates[cname], e, v, tags)
        log('counterexample', prof, e, v['msg'], 'confirmed by ' + how if ok else 'NOT CONFIRMED %s' % tried)
        if ok:
            confirmed.append({'crate': cname, 'profile': prof, 'entry': e, 'msg': v['msg'], 'inputs': v['inputs'], 'trace': v['trace'], 'confirmed_by': how,
                              'rerun': 'SYM_TAGS=%s SYM_INPUTS=%s %s %s' % (tags or '', ','.join(str(x) for _, x in v['inputs']), crates[cname].native('nat'), e)})
        else:
            undecided.append('counterexample for %s (%s) does not reproduce: %s' % (e, v['msg'], tried))
    violations += confirmed

    if violations and P.get('baseline'):
        violations = differing(P['baseline'], violations, exe, opts, undecided)
    listed, new = [], []
    for v in violations:
        for k in known:
            if re.fullmatch(k[1], v['entry']) and v['msg'].startswith(k[2]):
                listed.append(k[3])
                break
        else:
            new.append(v)
    coverage = {
        'states': tot['paths'], 'transitions': tot['steps'], 'traces_validated_against_impl': validated, 'samples': samples,
        'exhaustive': False,
        'entries_explored': len(tasks), 'entries': sorted({e for _, _, _, _, e in tasks}),
        'profiles': sorted({p for _, p, _, _, _ in tasks}),
        'paths': tot['paths'], 'infeasible_paths': tot['infeasible'], 'forks': tot['forks'], 'instructions_executed': tot['steps'], 'unwindings': tot['unwinds'],
        'assertions_evaluated': tot['checks'], 'assertions_put_to_solver': tot['checks_solver'], 'assertions_concrete_on_their_path': tot['checks_concrete'],
        'queries': tot['queries'], 'queries_sat': tot['sat'], 'queries_unsat': tot['unsat'], 'solver': opts['solver'], 'solver_s': round(solver_s, 2),
        'functions_encoded': sorted(funcs)[:400], 'functions_encoded_count': len(funcs),
        'sample_models_not_replayable': unvalidated,
        'negative_controls_detected': neg_ok, 'negative_controls': len(negs),
        'bounds': P['bounds'](tier) if callable(P['bounds']) else P['bounds'],
        'undecided': undecided[:20],
        'explanation': 'states = completed symbolic paths (each stands for every input satisfying its path condition), transitions = LLVM IR instructions executed symbolically.',
    }
    write_evidence(prop, tier, seed, ev_path, P, coverage, len(new))
    for k in sorted(set(listed)):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    if new:
        for n, v in enumerate(new[:5]):
            print('  %s: %s' % (v['entry'], v['msg']))
            report(prop, evdir, n, v)
        return 1
    if undecided:
        for u in undecided[:10]:
            print('UNDECIDED property=%s %s' % (prop, u))
        return 3
    print('OK property=%s tier=%s entries=%d paths=%d queries=%d (unsat %d) solver_s=%.1f wall_s=%.1f' % (prop, tier, len(tasks), tot['paths'], tot['queries'], tot['unsat'], solver_s, time.time() - T0))
    return 0


if __name__ == '__main__':
    main()
