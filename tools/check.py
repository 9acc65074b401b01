#!/usr/bin/env python3
"""Runs the checks: check.py run ID [--tier quick|thorough] | check.py setup | check.py replay PATH | check.py all [--tier T]

run: exit 0 the property held on everything explored; exit 1 and "VIOLATION property=ID replay=PATH" it is broken;
exit 3 no verdict (build failure, harness fault, time or memory trouble outside of zssz).
"""
import argparse, glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, 'harness')
sys.path.insert(0, os.path.join(VERIF, 'tools'))
from checks import CHECKS  # noqa: E402

SHARDS = 8
GUEST = dict(GOOS='linux', CGO_ENABLED='0', GOMIPS='softfloat', GOMIPS64='softfloat')
TYPES = 140


def goenv():
    e = dict(os.environ)
    e.update(HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', GOPATH='/root/go',
             GOCACHE='/root/.cache/go-build', GOSUMDB='off', GONOSUMCHECK='1')
    e['PATH'] = '/opt/veriftools/go1.27.3/bin:' + e.get('PATH', '')
    for k in ('GOARCH', 'GOOS', 'GODEBUG', 'GOMAXPROCS', 'GOGC', 'GOMEMLIMIT', 'GORACE', 'GOMIPS', 'GOMIPS64', 'GO386', 'GOAMD64'):
        e.pop(k, None)
    return e


def derive(*parts):
    h = hashlib.sha256('/'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:7], 'little') | 1


class Fuzz:
    """Coverage-guided fuzzing with Go's fuzzer, for properties over byte strings. A failing input is run again by itself."""

    def __init__(self, prop, v, seed, tmp, seconds):
        self.v, self.shard, self.name, self.round_seed, self.seed = dict(v, name='fuzz'), 0, 'fuzz-0', seed, seed
        self.dir = os.path.join(tmp, 'fuzz')
        os.makedirs(self.dir)
        self.stats, self.log = os.path.join(self.dir, 'stats.json'), os.path.join(self.dir, 'log')
        b = build(self.dir, prop, seed, [v], fuzz=True)[(None, False)]
        self.args = ['-test.run=^$', '-test.fuzz=^FuzzBytes$', '-test.fuzztime=%ds' % seconds, '-test.parallel=%d' % SHARDS,
                     '-test.fuzzcachedir=' + os.path.join(self.dir, 'cache')]
        env = goenv()
        env.update(ZV_STATS=self.stats, ZV_FUZZ='1', GOTRACEBACK='all')
        again = [b, '-test.run=^FuzzBytes$', '-test.timeout=300s']
        self.rc, self.out = self.exec([b] + self.args, env, seconds + 300)
        if self.rc not in (0, 'timeout') and os.path.isdir(os.path.join(self.dir, 'testdata')):
            self.rc, self.out = self.exec(again, env, 320)
            self.args = again[1:]
            if self.rc == 0:
                self.rc, self.out = 1, 'a failure of the fuzzer does not repeat'
        self.merge()

    def exec(self, cmd, env, timeout):
        with open(self.log, 'wb') as f:
            p = subprocess.Popen(cmd, cwd=self.dir, env=env, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                                 preexec_fn=limits(dict(self.v, mem=12)), start_new_session=True)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = 'timeout'
        with open(self.log, 'rb') as f:
            return rc, f.read()[-(2 << 20):].decode('utf-8', 'replace')

    def merge(self):
        ev, hashes, non = {}, set(), 0
        for f in glob.glob(self.stats + '.*'):
            d = json.load(open(f))
            for k, n in d['evals'].items():
                ev[k] = ev.get(k, 0) + n
            hashes.update(d['hashes'] or [])
            non += d['nontrivial']
        new = re.findall(r'execs: (\d+) .*total: (\d+)', self.out)
        if new:
            ev['FuzzBytes'] = max(int(new[-1][0]), ev.get('FuzzBytes', 0))
        labels = {'inputs with new coverage': int(new[-1][1])} if new else {}
        json.dump(dict(evals=ev, labels=labels, nontrivial=non, hashes=sorted(hashes), samples=[], known=[], cut=False), open(self.stats, 'w'))


class NoVerdict(Exception):
    pass


def build(tmp, prop, seed, variants, fuzz=False):
    """Builds the test binaries of the property's variants against /repo; the registry holds types made from the seed."""
    gen = os.path.join(tmp, 'zz_gen.go')
    subprocess.run([sys.executable, os.path.join(VERIF, 'tools', 'typegen.py'), str(seed), str(TYPES), gen], check=True)
    ov = os.path.join(tmp, 'overlay.json')
    with open(ov, 'w') as f:
        json.dump({'Replace': {os.path.join(HARNESS, 'reg', 'gen_stub.go'): gen}}, f)
    bins = {}
    for a in sorted({a for v in variants for a in v.get('guests', ())}):
        # the guest program for other platforms; checks find it by the environment
        r = subprocess.run(['go', 'build', '-overlay', ov, '-o', os.path.join(tmp, 'guest-' + a), './guest'], cwd=HARNESS, capture_output=True, text=True,
                           env=dict(goenv(), GOARCH=a, **GUEST))
        if r.returncode != 0:
            raise NoVerdict('build failed:\n' + (r.stdout + r.stderr)[-6000:])
    for v in variants:
        key = (v.get('arch'), bool(v.get('race')))
        if key in bins:
            continue
        out = os.path.join(tmp, '%s-%s-%s.test' % (prop, key[0] or 'native', 'race' if key[1] else 'plain'))
        cmd = ['go', 'test', '-c', '-vet=off', '-overlay', ov, '-o', out]
        env = goenv()
        if fuzz:
            cmd.append('-fuzz=FuzzBytes')
        if key[0]:
            env['GOARCH'] = key[0]
            env['CGO_ENABLED'] = '0'
        if key[1]:
            cmd.append('-race')
            env['CGO_ENABLED'] = '1'
        r = subprocess.run(cmd + ['./checks/' + prop.lower()], cwd=HARNESS, env=env, capture_output=True, text=True)
        if r.returncode != 0:
            raise NoVerdict('build failed:\n' + (r.stdout + r.stderr)[-6000:])
        bins[key] = out
    return bins


def limits(v):
    def fn():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if not v.get('race'):
            m = v.get('mem', 6) << 30
            resource.setrlimit(resource.RLIMIT_AS, (m, m))
    return fn


class Job:
    def __init__(self, prop, v, binary, shard, shards, checks, seed, tmp, seconds, extra=()):
        self.v, self.shard, self.name = v, shard, '%s-%d' % (v['name'], shard)
        self.dir = os.path.join(tmp, 'run-' + self.name + ('-r' if extra else ''))
        os.makedirs(self.dir, exist_ok=True)
        self.stats = os.path.join(self.dir, 'stats.json')
        self.log = os.path.join(self.dir, 'log')
        self.round_seed, self.seed = seed, derive(prop, seed, v['name'], shard)
        self.args = ['-rapid.seed=%d' % self.seed, '-rapid.checks=%d' % checks, '-rapid.shrinktime=15s',
                     '-test.timeout=%ds' % (seconds * 2 + 240)]
        if v.get('run'):
            self.args.append('-test.run=' + v['run'])
        if v.get('skip'):
            self.args.append('-test.skip=' + v['skip'])
        self.args += list(extra)
        env = goenv()
        env.update(ZV_STATS=self.stats, ZV_SECONDS=str(seconds), ZV_SHARD=str(shard), ZV_SHARDS=str(shards),
                   GOMAXPROCS=str(v.get('procs', 2)), GOTRACEBACK='all', ZV_VARIANT=v['name'])
        if v.get('race'):
            env['GORACE'] = 'halt_on_error=0 history_size=3'
        env.update(v.get('env', {}))
        for a in v.get('guests', ()):
            env['ZV_GUEST_' + a] = os.path.join(os.path.dirname(binary), 'guest-' + a)
        if extra:
            env['ZV_REPLAY'] = '1'
        self.env, self.cmd = env, [binary] + self.args
        self.timeout = seconds * 2 + 300

    def start(self):
        self.f = open(self.log, 'wb')
        self.p = subprocess.Popen(self.cmd, cwd=self.dir, env=self.env, stdout=self.f, stderr=subprocess.STDOUT,
                                  stdin=subprocess.DEVNULL, preexec_fn=limits(self.v), start_new_session=True)
        self.t0 = time.time()
        return self

    def wait(self):
        try:
            self.rc = self.p.wait(max(1, self.timeout - (time.time() - self.t0)))
        except subprocess.TimeoutExpired:
            os.killpg(self.p.pid, signal.SIGKILL)
            self.p.wait()
            self.rc = 'timeout'
        self.f.close()
        with open(self.log, 'rb') as f:
            b = f.read()
        if len(b) > 4 << 20:
            b = b[:2 << 20] + b'\n...\n' + b[-(2 << 20):]
        self.out = b.decode('utf-8', 'replace')
        return self


ZSSZ = re.compile(r'github\.com/protolambda/zssz[./]|/repo/[a-z]+')


def judge(job):
    """ok | violation (a check says so) | race | crash (runtime failure inside zssz, to be confirmed) | trouble"""
    o = job.out
    if job.rc == 0:
        return 'ok' if os.path.exists(job.stats) else 'trouble'
    if 'HARNESS:' in o:
        return 'trouble'
    if 'VIOLATED-HANG' in o:
        return 'crash' if ZSSZ.search(o) else 'trouble'
    if 'VIOLATED:' in o:
        return 'violation'
    if 'WARNING: DATA RACE' in o:
        blocks = o.split('WARNING: DATA RACE')[1:]
        return 'race' if any(ZSSZ.search(b.split('==================')[0]) for b in blocks) else 'trouble'
    if job.rc == 'timeout' or 'test timed out' in o or job.rc == -9:
        return 'trouble'
    # a panic in the code under test that no wrapper of the harness caught
    for m in re.finditer(r'panic', o):
        f = re.search(r'^\s*(?:\S+:\d+ in )?(zverif/\S|github\.com/protolambda/zssz[\w/]*\.)', o[m.start():], re.M)
        if f and f.group(1).startswith('github'):
            return 'crash'
    if re.search(r'fatal error: |unexpected fault address|SIGSEGV|SIGBUS|out of memory|checkptr', o) and ZSSZ.search(o):
        return 'crash'
    return 'trouble'


def excerpt(o, n=40):
    lines = [l for l in o.splitlines() if '[rapid] draw ' not in l]
    for i, l in enumerate(lines):
        if re.search(r'VIOLATED|DATA RACE|fatal error|SIGSEGV|checkptr|HARNESS:|panic:|\[rapid\] panic', l):
            return '\n'.join(x[:600] for x in lines[i:i + n])
    return '\n'.join(x[:600] for x in lines[-n:])


def failing_test(o):
    m = re.search(r'--- FAIL: ((?:Test|Fuzz)\w+)', o)
    return m.group(1) if m else None


def known_findings():
    p = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN-FINDING: property=(\S+) (.*)', l.strip())
            if m:
                out.append((m.group(1), m.group(2)))
    return out


def save_replay(prop, seed, tier, job, bins_key, kind):
    d = os.path.join(VERIF, 'replays', prop, '%s-%s-%d' % (tier, job.name, seed))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    test = failing_test(job.out)
    meta = dict(property=prop, seed=seed, tier=tier, variant=job.v['name'], shard=job.shard, kind=kind, test=test,
                args=job.args, excerpt=excerpt(job.out, 60))
    fails = []
    root = os.path.join(job.dir, 'testdata')
    for r, _, fs in os.walk(root):
        for f in fs:
            if f.endswith('.fail'):
                fails.append(os.path.join(r, f))
    if isinstance(job, Fuzz) and os.path.isdir(root):
        shutil.copytree(root, os.path.join(d, 'testdata'))
    fails.sort(key=lambda p: (os.path.basename(os.path.dirname(p)) != (test or ''), p))
    if fails and kind == 'violation':
        meta['test'] = os.path.basename(os.path.dirname(fails[0]))
        meta['failfile'] = 'case.fail'
        shutil.copy(fails[0], os.path.join(d, 'case.fail'))
    with open(os.path.join(d, 'replay.json'), 'w') as f:
        json.dump(meta, f, indent=1)
    with open(os.path.join(d, 'log.txt'), 'w') as f:
        f.write(job.out[-200000:])
    return os.path.join(d, 'replay.json')


def run(prop, tier, seed):
    cfg = CHECKS[prop]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='zv-%s-' % prop)
    try:
        return run_in(prop, tier, seed, cfg, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def plan(cfg, tier):
    vs = []
    for v in cfg.get('variants', [{'name': 'main'}]):
        v = dict(v)
        v['checks'] = v.get(tier, cfg.get(tier))
        v['shards'] = v.get('shards', SHARDS)
        v['mem'] = v.get('mem', cfg.get('mem', 6))
        if cfg.get('huge'):
            v['skip'] = '^TestHuge'
        vs.append(v)
    if cfg.get('huge'):
        # much reserved address space, but not much memory
        vs.append(dict(name='huge', run='^TestHuge', checks=cfg['huge'][tier != 'quick'], shards=4, mem=140))
    return vs


def run_in(prop, tier, seed, cfg, t0, tmp):
    variants = plan(cfg, tier)
    seconds = cfg.get('seconds_' + tier, 200 if tier == 'quick' else 400)
    rounds = 1 if tier == 'quick' else cfg.get('rounds', 8)
    done, master = [], seed
    for r in range(rounds):
        # each round has its own generated types, binaries and processes
        seed = master if r == 0 else derive('round', master, r) >> 8
        sub = os.path.join(tmp, 'round%d' % r)
        os.makedirs(sub)
        bins = build(sub, prop, seed, variants)
        for v in variants:
            b = bins[(v.get('arch'), bool(v.get('race')))]
            jobs = [Job(prop, v, b, i, v['shards'], v['checks'], seed, sub, seconds).start() for i in range(v['shards'])]
            for j in jobs:
                j.wait()
                j.verdict = judge(j)
            done += jobs
            if any(j.verdict != 'ok' for j in jobs):
                break
        if any(j.verdict != 'ok' for j in done):
            break
        if r + 1 < rounds:
            for b in set(bins.values()) | set(glob.glob(os.path.join(sub, 'guest-*'))):
                os.unlink(b)
    if tier == 'thorough' and cfg.get('fuzz') and all(j.verdict == 'ok' for j in done):
        j = Fuzz(prop, variants[0], master, tmp, cfg['fuzz'])
        j.verdict = judge(j)
        done.append(j)
    bad = [j for j in done if j.verdict in ('violation', 'race')]
    crashed = [j for j in done if j.verdict == 'crash']
    trouble = [j for j in done if j.verdict == 'trouble']
    if not bad and crashed and isinstance(crashed[0], Fuzz):
        bad = crashed[:1]  # it has been run again by itself
    if not bad and crashed:
        # confirm: the same shard again
        c = crashed[0]
        b = bins[(c.v.get('arch'), bool(c.v.get('race')))]
        again = Job(prop, c.v, b, c.shard, c.v['shards'], c.v['checks'], seed, tempfile.mkdtemp(dir=tmp), seconds).start().wait()
        if judge(again) in ('crash', 'violation'):
            bad = [c]
        else:
            trouble.append(c)
    known = known_findings()
    kf = sorted({k for j in done if os.path.exists(j.stats) for k in (json.load(open(j.stats)).get('known') or [])})
    unlisted = []
    for k in kf:
        pid, what = k.split(': ', 1)
        if (pid, what) in known:
            print('KNOWN-FINDING: property=%s %s' % (pid, what))
        else:
            unlisted.append(k)
    write_evidence(prop, tier, master, cfg, done, time.time() - t0, len(bad))
    if bad:
        j = bad[0]
        path = save_replay(prop, seed, tier, j, None, j.verdict)
        print(excerpt(j.out))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if trouble or unlisted:
        for k in unlisted:
            print('unlisted finding:', k)
        for j in trouble[:2]:
            print('no verdict from %s (exit %s):\n%s' % (j.name, j.rc, excerpt(j.out)))
        return 3
    print('%s held: %s' % (prop, summary_line(prop)))
    return 0


def summary_line(prop):
    e = json.load(open(os.path.join(VERIF, 'evidence', prop + '.json')))
    c = e['coverage']
    return '%d cases, %d distinct non-trivial, %.1f s' % (c['evaluations'], c['distinct_nontrivial'], e['wall_s'])


def write_evidence(prop, tier, seed, cfg, jobs, wall, violations):
    ev, labels, distinct, samples, non, cut, per = {}, {}, set(), [], 0, 0, {}
    for j in jobs:
        if not os.path.exists(j.stats):
            continue
        s = json.load(open(j.stats))
        for k, n in (s.get('evals') or {}).items():
            per[j.v['name'] + '/' + k] = per.get(j.v['name'] + '/' + k, 0) + n
        for k, n in (s.get('labels') or {}).items():
            labels[k] = labels.get(k, 0) + n
        distinct.update((s.get('hashes') or []))
        non += s.get('nontrivial', 0)
        cut += 1 if s.get('cut') else 0
        if len(samples) < 6:
            samples += (s.get('samples') or [])[:2]
    top = dict(sorted(labels.items(), key=lambda kv: -kv[1])[:80])
    e = dict(property=prop, tier=tier, seed=seed, level=cfg.get('level', 'exploration'),
             coverage=dict(evaluations=sum(per.values()), distinct_nontrivial=len(distinct), nontrivial=non, rule=cfg['rule'],
                           samples=samples[:6], per_test=per, classes=top, processes=len(jobs), cut_short_by_time=cut,
                           generated_types_seeds=sorted({j.round_seed for j in jobs})),
             assumptions=cfg.get('assumptions', []), wall_s=round(wall, 2), violations=violations)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    p = os.path.join(VERIF, 'evidence', prop + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(e, f, indent=1)
    os.replace(p + '.tmp', p)


def replay(path):
    if os.path.isdir(path):
        path = os.path.join(path, 'replay.json')
    m = json.load(open(path))
    prop, cfg = m['property'], CHECKS[m['property']]
    tmp = tempfile.mkdtemp(prefix='zv-replay-')
    try:
        if m['variant'] == 'fuzz':
            return replay_fuzz(path, prop, m, plan(cfg, 'thorough')[0], tmp)
        v = [x for x in plan(cfg, m['tier']) if x['name'] == m['variant']][0]
        bins = build(tmp, prop, m['seed'], [v])
        b = bins[(v.get('arch'), bool(v.get('race')))]
        checks, extra = v['checks'], []
        if m.get('test'):
            v = dict(v, run='^%s$' % m['test'], skip=None)
        if m.get('failfile'):
            extra = ['-rapid.failfile=' + os.path.join(os.path.dirname(os.path.abspath(path)), m['failfile'])]
            checks = 1
        j = Job(prop, v, b, m['shard'], v['shards'], checks, m['seed'], tmp, 600, extra or ['-test.v=false']).start().wait()
        print(excerpt(j.out, 80))
        verdict = judge(j)
        print('replay:', verdict)
        return 1 if verdict in ('violation', 'race', 'crash') else 0 if verdict == 'ok' else 3
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay_fuzz(path, prop, m, v, tmp):
    b = build(tmp, prop, m['seed'], [v])[(None, False)]
    data = os.path.join(os.path.dirname(os.path.abspath(path)), 'testdata')
    if os.path.isdir(data):  # otherwise one of the initial inputs failed
        shutil.copytree(data, os.path.join(tmp, 'testdata'))
    r = subprocess.run([b, '-test.run=^FuzzBytes$'], cwd=tmp, env=dict(goenv(), ZV_FUZZ='1'), capture_output=True, text=True, errors='replace')
    print(excerpt(r.stdout + r.stderr, 80))
    print('replay:', 'ok' if r.returncode == 0 else 'violation')
    return 1 if r.returncode else 0


def setup():
    """Warms the build cache: all packages of the harness, plain and with the race detector."""
    for extra, env in (([], {}), (['-race'], {'CGO_ENABLED': '1'}), ([], {'GOARCH': '386', 'CGO_ENABLED': '0'})):
        e = goenv()
        e.update(env)
        r = subprocess.run(['go', 'test', '-vet=off', '-run', 'XXX_NONE', '-count=1'] + extra + ['./checks/c01'],
                           cwd=HARNESS, env=e, capture_output=True, text=True)
        if r.returncode != 0:
            print((r.stdout + r.stderr)[-4000:])
            return 3
    for a in ('mips', 'mips64', '386'):
        r = subprocess.run(['go', 'build', '-o', '/dev/null', './guest'], cwd=HARNESS, env=dict(goenv(), GOARCH=a, **GUEST), capture_output=True, text=True)
        if r.returncode != 0:
            print((r.stdout + r.stderr)[-4000:])
            return 3
    print('ready')
    return 0


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest='cmd', required=True)
    p = sub.add_parser('run')
    p.add_argument('id')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    p = sub.add_parser('all')
    p.add_argument('--tier', default='quick', choices=['quick', 'thorough'])
    p.add_argument('ids', nargs='*')
    sub.add_parser('setup')
    p = sub.add_parser('replay')
    p.add_argument('path')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    try:
        if a.cmd == 'run':
            rc = run(a.id, a.tier, seed)
        elif a.cmd == 'all':
            rc = 0
            for i in a.ids or sorted(CHECKS):
                try:
                    x = run(i, a.tier, seed)
                except NoVerdict as e:
                    print(i, 'no verdict:', e)
                    x = 3
                rc = max(rc, x)
                sys.stdout.flush()
        elif a.cmd == 'setup':
            rc = setup()
        else:
            rc = replay(a.path)
    except NoVerdict as e:
        print('no verdict:', e)
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == '__main__':
    main()
