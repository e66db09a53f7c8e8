#!/usr/bin/env python3
"""Plants and confirms a bug: seed.py ID PKG PROPERTY NEEDS BREAKS FILE... < edits
Edits come on stdin as blocks:  path\n<<<<\nold\n====\nnew\n>>>>
The named FILEs (demo test files) are copied beside demo.sh.  Everything is confirmed in a scratch copy of /repo."""
import sys, os, re, shutil, subprocess, json
sid, pkg, prop, needs, breaks, files = *sys.argv[1:6], sys.argv[6:]
edits = re.findall(r'^(\S+)\n<<<<\n(.*?)====\n(.*?)>>>>\n', sys.stdin.read(), re.S | re.M)
assert edits
scratch = '/tmp/seedrepo'
shutil.rmtree(scratch, ignore_errors=True)
subprocess.check_call(['cp', '-a', '/repo', scratch])
def sh(cmd, cwd=scratch):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True)
d = '/verif/seeded/' + sid
os.makedirs(d, exist_ok=True)
for f in files:
    shutil.copy(f, d)
demo = open('/tmp/seedwork/demo.sh').read().replace('PKG', pkg)
open(d + '/demo.sh', 'w').write(demo)
os.chmod(d + '/demo.sh', 0o755)
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
tmp = '/tmp/seeddemo'
shutil.rmtree(tmp, ignore_errors=True); shutil.copytree(d, tmp)
r = sh('bash %s/demo.sh' % tmp)
print('clean demo', r.returncode); 
ok = r.returncode == 0
if not ok: print(r.stdout[-3000:], r.stderr[-3000:])
for p, old, new in edits:
    s = open(scratch + '/' + p).read()
    assert s.count(old) == 1, (p, s.count(old), old)
    open(scratch + '/' + p, 'w').write(s.replace(old, new))
diff = sh('git diff').stdout
open(d + '/patch.diff', 'w').write(diff)
r = sh('. /opt/vp/env.sh; gofmt -l internal cmd; go build ./... && go vet ./internal/... 2>&1 | head -5; go test -count=1 ./internal/... 2>&1 | tail -15')
print('tests', r.returncode, r.stdout[-900:] if r.returncode or 'FAIL' in r.stdout else '', r.stderr[-1500:])
ok = ok and r.returncode == 0 and 'FAIL' not in r.stdout
r = sh('bash %s/demo.sh' % tmp)
print('patched demo', r.returncode, (r.stdout + r.stderr)[-1200:])
ok = ok and r.returncode != 0
shutil.rmtree(scratch); shutil.rmtree(tmp)
print('KEPT' if ok else 'NOT OK')
