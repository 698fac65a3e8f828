"""Runs the check of each planted bug's property against a scratch copy of /repo with the bug applied.
usage: sweep_seeded.py [ids...] [--all-checks]   (scratch copies live under /tmp and are removed)"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(V + '/seeded'))
for i in ids:
    d = V + '/seeded/' + i
    meta = json.load(open(d + '/meta.json'))
    tmp = tempfile.mkdtemp(prefix='seed-')
    try:
        subprocess.run(['cp', '-a', '/repo', tmp + '/repo'], check=True)
        r = subprocess.run(['git', '-C', tmp + '/repo', 'apply', d + '/patch.diff'])
        if r.returncode:
            print(i, 'PATCH DOES NOT APPLY')
            continue
        props = [meta['property']] if '--all-checks' not in sys.argv else ['C%02d' % n for n in range(1, 31)]
        for p in props:
            env = dict(os.environ, BFMON_REPO=tmp + '/repo', BFMON_EVIDENCE=tmp + '/ev')
            o = subprocess.run([V + '/check', p, '--tier', 'quick'], env=env, capture_output=True, text=True)
            tail = [l for l in (o.stdout + o.stderr).splitlines() if 'KNOWN' not in l]
            print(i, p, {0: 'MISSED', 1: 'caught'}.get(o.returncode, 'INCONCLUSIVE'), (tail or [''])[0].strip()[:150], flush=True)
    finally:
        shutil.rmtree(tmp)
