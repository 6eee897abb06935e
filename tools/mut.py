"""Development aid: apply textual mutations (one per block of a file) to a copy of the repository and run a check on it.
block:  ## name | checks   then  --- path / old / === / new"""
import os, shutil, subprocess, sys, tempfile
def blocks(t):
    for b in t.split('\n## ')[1:] if not t.startswith('## ') else ('\n' + t).split('\n## ')[1:]:
        head, rest = b.split('\n', 1)
        name, checks = [x.strip() for x in head.split('|')]
        eds = []
        for e in rest.split('--- ')[1:]:
            path, body = e.split('\n', 1)
            old, new = body.split('\n===\n', 1)
            eds.append((path.strip(), old, new.rstrip('\n')))
        yield name, checks.split(','), eds
t = open(sys.argv[1]).read()
only = sys.argv[2].split(',') if len(sys.argv) > 2 else None
for name, checks, eds in blocks(t):
    if only and name not in only:
        continue
    d = tempfile.mkdtemp(prefix='mut')
    try:
        r = d + '/repo'
        shutil.copytree('/repo', r, ignore=shutil.ignore_patterns('.git', 'build', '*.so'))
        ok = True
        for p, old, new in eds:
            s = open(r + '/' + p).read()
            if s.count(old) != 1:
                print(name, 'BAD EDIT', p, s.count(old)); ok = False; break
            open(r + '/' + p, 'w').write(s.replace(old, new))
        if not ok:
            continue
        for c in checks:
            q = subprocess.run([sys.executable, '/verif/checks/run.py', c] + sys.argv[3:], env=dict(os.environ, VERIF_REPO=r), capture_output=True, text=True)
            lines = q.stdout.strip().split('\n')
            print('%-22s %s exit %d  %s' % (name, c, q.returncode, next((l for l in lines if not l.startswith("KNOWN")), "")[:230]), flush=True)
            if q.returncode == 2: print(q.stdout[-1500:], q.stderr[-1500:])
    finally:
        shutil.rmtree(d)
