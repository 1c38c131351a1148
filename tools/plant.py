"""Plant a bug: build the patch in a scratch copy of /repo, confirm that the stable tests pass and that the demonstration separates the two trees, and keep it under seeded/.

A specification is a Python file with ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new[, count])] and DEMO (Python source; uses pyuff, np, tmp (scratch directory))."""
import json, os, re, shutil, subprocess, sys, tempfile, runpy

PY = '/opt/venv/bin/python'
HEAD = '''import os, sys, tempfile, shutil, atexit
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
import numpy as np
import pyuff
tmp = tempfile.mkdtemp(prefix='demo')
atexit.register(shutil.rmtree, tmp, True)
name = os.path.join(tmp, 'a.uff')


def rt(d, **kw):
    """Write d, read everything back with a fresh object."""
    pyuff.UFF(name).write_sets(d, **kw)
    return pyuff.UFF(name).read_sets()


'''
SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec %s "$(dirname "$0")/demo.py"\n' % PY
BASE = 'abb499d'


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def plant(spec):
    s = runpy.run_path(spec)
    top = tempfile.mkdtemp(prefix='plant', dir='/tmp')
    try:
        repo = top + '/repo'
        shutil.copytree('/repo', repo, symlinks=True)
        for e in s['EDITS']:
            p = os.path.join(repo, e[0])
            t = open(p, encoding='utf-8', newline='').read()
            n = t.count(e[1])
            want = e[3] if len(e) > 3 else 1
            if n != want:
                return 'edit of %s matches %d times' % (e[0], n)
            open(p, 'w', encoding='utf-8', newline='').write(t.replace(e[1], e[2]))
        diff = sh('git diff', repo).stdout
        if not diff:
            return 'empty patch'
        # every removed line must be one of the original repository
        f, old = None, 0
        for line in diff.splitlines():
            m = re.match(r'--- a/(.*)', line)
            if m:
                f = m.group(1)
            m = re.match(r'@@ -(\d+)', line)
            if m:
                old = int(m.group(1))
                continue
            if line.startswith('-') and not line.startswith('---'):
                b = sh(['git', 'blame', '-l', '-s', '-L', '%d,%d' % (old, old), 'HEAD', '--', f], repo).stdout
                c = b.split()[0].lstrip('^')
                if sh(['git', 'merge-base', '--is-ancestor', c, BASE], repo).returncode != 0:
                    return 'line of a fix commit changed: ' + line
                old += 1
            elif line.startswith(' '):
                old += 1
        d = top + '/demo'
        os.mkdir(d)
        open(d + '/demo.py', 'w').write(HEAD + s['DEMO'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write(SH)
        bad = sh('bash %s/demo.sh' % d, repo)
        good = sh('bash %s/demo.sh' % d, '/repo')
        if good.returncode != 0:
            return 'demo fails on the unchanged tree: ' + good.stdout[-500:] + good.stderr[-1500:]
        if bad.returncode == 0:
            return 'demo passes with the patch'
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
        t = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--continue-on-collection-errors', '-rA', 'tests'], cwd=repo, capture_output=True, text=True, env=env).stdout
        passed = set(re.findall(r'^PASSED (\S+)', t, re.M))
        want = baseline(repo)
        miss = [w for w in want if w not in {norm(p) for p in passed}]
        if miss:
            return 'stable tests fail: %s' % miss[:3]
        out = '/verif/seeded/' + s['ID']
        shutil.rmtree(out, True)
        os.makedirs(out)
        open(out + '/patch.diff', 'w').write(diff)
        shutil.copy(d + '/demo.py', out)
        shutil.copy(d + '/demo.sh', out)
        json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
        open(out + '/meta.json', 'a').write('\n')
        return 'ok (%s)' % (bad.stderr.strip().splitlines() or ['exit %d' % bad.returncode])[-1][:150]
    finally:
        shutil.rmtree(top, True)


def norm(p):
    return re.sub(r'\[.*', '', p.split('::')[-1]) + '@' + os.path.basename(p.split('::')[0])


def baseline(repo):
    t = json.load(open('/opt/vp/BASELINE.json'))
    names = t.get('stable') or t.get('passed') or t.get('tests') or t
    return [n2(x) for x in names]


def n2(x):
    x = x if isinstance(x, str) else x.get('name')
    m = re.match(r'(.*?)(?:::|\.)(test_\w+)$', x)
    return m.group(2) + '@' + re.sub(r'.*[./](test_\w+)(\.py)?$', r'\1.py', m.group(1).replace('.py', ''))


if __name__ == '__main__':
    for spec in sys.argv[1:]:
        print(os.path.basename(spec), plant(spec), flush=True)
