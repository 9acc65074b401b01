"""Developer tool: runs checks against planted bugs in scratch copies. seedtest.py [-p PROP,..|all] [ID ...]"""
import glob, json, os, shutil, subprocess, sys, time
args = sys.argv[1:]
props = None
if args and args[0] == '-p':
    props, args = args[1], args[2:]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = args or sorted(os.listdir(V + '/seeded'))
base = '/tmp/seedtest-%d' % os.getpid()
os.makedirs(base)
shutil.copytree(V, base + '/verif', ignore=shutil.ignore_patterns('.git', 'seeded', 'replays', 'evidence'))
repo = base + '/repo'
m = base + '/verif/harness/go.mod'
s = open(m).read().replace('=> /repo', '=> ' + repo)
open(m, 'w').write(s)
missed = []
for i in ids:
    d = V + '/seeded/' + i
    meta = json.load(open(d + '/meta.json'))
    shutil.rmtree(repo, ignore_errors=True)
    shutil.copytree('/repo', repo)
    subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=repo, check=True)
    own = meta['property']
    todo = [own] if not props else ['C%02d' % k for k in range(1, 28)] if props == 'all' else props.split(',')
    out = []
    for p in todo:
        t = time.time()
        r = subprocess.run([sys.executable, 'tools/check.py', 'run', p], cwd=base + '/verif', capture_output=True, text=True,
                           env=dict(os.environ, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick'))
        w = {0: 'missed', 1: 'CAUGHT'}.get(r.returncode, 'NOANSWER')
        out.append('%s %s %.0fs' % (p, w, time.time() - t))
        if p == own and w != 'CAUGHT':
            missed.append(i)
            open('/tmp/seedtest-%s.log' % i, 'w').write(r.stdout + r.stderr)
    print('%-24s %s' % (i, '; '.join(out)), flush=True)
print('missed by their own check:', missed)
shutil.rmtree(base)
