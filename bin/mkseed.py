#!/usr/bin/env python3
"""mkseed.py DIR   (re)make DIR/patch.diff from DIR/edits.json and confirm the
planted bug: builds, passes the stable tests, demo passes without and fails with it.
Works in a scratch copy of /repo only."""
import json, os, shutil, subprocess, sys, tempfile
def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
d = os.path.abspath(sys.argv[1])
work = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
try:
    r = os.path.join(work, 'repo')
    shutil.copytree('/repo', r, symlinks=True)
    sh(['git', '-C', r, 'checkout', '-q', '--', '.'])
    if os.path.exists(d + '/edits.json'):
        for f, old, new in json.load(open(d + '/edits.json')):
            p = os.path.join(r, f); s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', r, 'diff'], stdout=subprocess.PIPE, text=True).stdout
        open(d + '/patch.diff', 'w').write(diff)
        sh(['git', '-C', r, 'checkout', '-q', '--', '.'])
    # which of the lines it removes are the original repository's
    own = orig = 0
    f = n = None
    for l in open(d + '/patch.diff'):
        if l.startswith('--- a/'): f = l[6:].strip()
        elif l.startswith('@@'): n = int(l.split()[1][1:].split(',')[0])
        elif l.startswith('-') and not l.startswith('---'):
            b = sh(['git', '-C', r, 'blame', '-s', '-L', '%d,%d' % (n, n), 'HEAD', '--', f]).stdout
            if b.startswith('^'): orig += 1
            else: own += 1
            n += 1
        elif l.startswith(' '): n += 1
    demo = ['bash', d + '/demo.sh']
    a = sh(demo, cwd=r, timeout=300)
    ap = sh(['git', '-C', r, 'apply', d + '/patch.diff'])
    if ap.returncode: print('APPLY', ap.stdout)
    b = sh(['go', 'build', './...'], cwd=r, env=dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off'))
    c = sh(demo, cwd=r, timeout=300)
    t = None
    if '-notest' not in sys.argv:
        env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', HOME=work, GOPATH='/root/go', GOCACHE='/root/.cache/go-build')
        t = sh(['flock', '/tmp/mkseed.lock', 'go', 'test', '-count=1', '-p', '1', './...'], cwd=r, env=env)
    print(os.path.basename(d), 'unchanged rc', a.returncode, '| removes', orig, 'original,', own, 'own | build', b.returncode, '| patched rc', c.returncode,
          '| tests', [l for l in (t.stdout.split('\n') if t else []) if l.startswith(('FAIL', '--- FAIL'))][:6])
    if a.returncode or not c.returncode or '-v' in sys.argv:
        print('UNCHANGED:', a.stdout[-1500:]); print('PATCHED:', c.stdout[-1500:])
    if b.returncode: print(b.stdout[-1000:])
finally:
    shutil.rmtree(work)
