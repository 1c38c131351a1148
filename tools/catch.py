"""Run the checks against the seeded bugs: each in its own copy of /repo (VERIF_REPO).  catch.py [ID...] [--all]: --all runs every check on each, else only the check of the property."""
import json, os, shutil, subprocess, sys, tempfile
args = [a for a in sys.argv[1:] if not a.startswith('--')]
root = '/verif/seeded'
for i in args or sorted(os.listdir(root)):
    prop = json.load(open('%s/%s/meta.json' % (root, i)))['property']
    top = tempfile.mkdtemp(prefix='catch', dir='/tmp')
    try:
        shutil.copytree('/repo', top + '/repo', symlinks=True)
        a = subprocess.run(['git', 'apply', '%s/%s/patch.diff' % (root, i)], cwd=top + '/repo', capture_output=True, text=True)
        if a.returncode:
            print(i, 'does not apply', a.stderr)
            continue
        props = [prop]
        if '--all' in sys.argv:
            props += [os.path.basename(f)[:-3].upper() for f in sorted(os.listdir('/verif/checks')) if f.startswith('p') and f[1:3].isdigit() and f[:3].upper() != prop]
        hit = []
        for p in props:
            if not os.path.exists('/verif/checks/%s.py' % p.lower()):
                hit.append(p + ':no check')
                continue
            env = dict(os.environ, VERIF_REPO=top + '/repo', VERIF_EVIDENCE=top + '/ev')
            r = subprocess.run(['python3-vt', 'run.py', p], cwd='/verif', capture_output=True, text=True, env=env)
            n = r.stdout.count('VIOLATION property=' + p)
            if r.returncode != 0 or p == prop:
                hit.append('%s:%s' % (p, 'caught(%d)' % n if r.returncode == 1 and n else 'MISSED' if r.returncode == 0 else 'rc%d' % r.returncode))
        print(i, ' '.join(hit), flush=True)
    finally:
        shutil.rmtree(top, True)
