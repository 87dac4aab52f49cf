#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes seeded/<id>/ from a spec defining id, property, needs, what, edits=[(file, old, new)], pkg, demo (Go test source with TestDemo)."""
import sys, os, json, subprocess, tempfile, shutil
spec = {}
exec(open(sys.argv[1]).read(), spec)
only = sys.argv[2:]
for s in spec['SEEDS']:
    if only and s['id'] not in only: continue
    d = '/verif/seeded/' + s['id']
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', w + '/r', 'HEAD'])
    try:
        for f, old, new in s['edits']:
            p = w + '/r/' + f
            t = open(p).read()
            assert t.count(old) == 1, (s['id'], f, old, t.count(old))
            open(p, 'w').write(t.replace(old, new))
        subprocess.call(['gofmt', '-l', w + '/r/' + s['edits'][0][0]])
        diff = subprocess.check_output(['git', '-C', w + '/r', 'diff']).decode()
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'worktree', 'remove', '--force', w + '/r'])
        shutil.rmtree(w)
    open(d + '/patch.diff', 'w').write(diff)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what']), open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo_test.go.txt', 'w').write(s['demo'].lstrip())
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# Runs the demonstration as an external test of /repo (cwd) through a build overlay.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off GOSUMDB=off
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
export TMPDIR=$T
cp /opt/vp/mods/root.mod "$T/go.mod" && cp /opt/vp/mods/root.sum "$T/go.sum" || exit 2
cp "$here/demo_test.go.txt" "$T/demo_test.go"
echo "{\\"Replace\\": {\\"$PWD/zzdemo/zz_demo_test.go\\": \\"$T/demo_test.go\\"}}" > "$T/overlay.json"
export GOFLAGS="-mod=mod -modfile=$T/go.mod"
timeout 200 go test -vet=off %s-overlay "$T/overlay.json" -c -o "$T/demo.test" ./zzdemo || exit 3
cd "$T" && timeout 90 ./demo.test -test.count=1 -test.run TestDemo
''' % (s.get('flags', '')))
    os.chmod(d + '/demo.sh', 0o755)
    print('wrote', d)
