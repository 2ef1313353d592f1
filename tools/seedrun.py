"""seedrun.py [-a] [-j N] [ids] : run the check of each planted bug's property (-a: every check) against a patched copy."""
import json, os, subprocess, sys, shutil, glob
from concurrent.futures import ThreadPoolExecutor
args = [a for a in sys.argv[1:] if not a.startswith('-')]
allp = '-a' in sys.argv
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']] if allp else None
def one(d):
    i = os.path.basename(d)
    m = json.load(open(d + '/meta.json'))
    D = '/tmp/w/sr/' + i
    shutil.rmtree(D, ignore_errors=True)
    shutil.copytree('/repo', D, ignore=shutil.ignore_patterns('target', '.git'))
    subprocess.run(['git', 'apply', '--directory=' + D.lstrip('/'), '--unsafe-paths', d + '/patch.diff'], cwd='/', check=True, capture_output=True)
    res = []
    for p in (PROPS or [m['property']]):
        r = subprocess.run([V + '/bin/check', p, 'quick'], env=dict(os.environ, RL_REPO=D, RL_EVIDENCE='/tmp/w/sr/ev'), capture_output=True, text=True)
        out = r.stdout.splitlines()
        why = [l.strip() for l in out if l.startswith('  ') and 'undecided' not in l][:1]
        und = sum('undecided' in l for l in out)
        if not allp or r.returncode: res.append('%s exit %d und %d %s' % (p, r.returncode, und, ' | '.join(why)[:200]))
    shutil.rmtree(D, ignore_errors=True)
    print('%-20s %s %s' % (i, m['property'], ' ;; '.join(res))); sys.stdout.flush()
ds = sorted(d for d in glob.glob(V + '/seeded/*') if not args or os.path.basename(d) in args)
with ThreadPoolExecutor(1) as ex: list(ex.map(one, ds))
