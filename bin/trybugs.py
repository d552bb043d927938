#!/usr/bin/env python3
"""trybugs.py [ids]: applies each planted bug to a copy of the repository and
runs the check of its property; prints which are caught."""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, 'seeded')))


def one(i):
    d = os.path.join(HERE, 'seeded', i)
    if not os.path.isdir(d):
        d = os.path.join(HERE, 'extra_bugs', i)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    w = tempfile.mkdtemp(prefix='try-')
    try:
        subprocess.run('git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git apply %s/patch.diff' % (w, w, d), shell=True, check=True)
        e = dict(os.environ, VERIF_REPO=w, VERIF_EVIDENCE=w)
        p = subprocess.run([sys.executable, os.path.join(HERE, 'bin', 'check.py'), prop], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e)
        v = [l for l in p.stdout.splitlines() if l.startswith('  ')]
        return i, prop, p.returncode, (v[0][:150] if v else p.stdout.strip()[-200:])
    finally:
        shutil.rmtree(w)


with cf.ThreadPoolExecutor(2) as ex:
    n = 0
    for i, prop, rc, t in ex.map(one, ids):
        n += rc == 1
        print('%-28s %s %s %s' % (i, prop, 'caught' if rc == 1 else 'MISSED' if rc == 0 else 'ERROR', t), flush=True)
    print('%d of %d caught' % (n, len(ids)))
