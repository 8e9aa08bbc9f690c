#!/usr/bin/env python3
"""mkseed.py SPEC.py [id...]: makes seeded/<id> from a spec and confirms it.

A spec calls S(id, property, edits, needs, breaks, go=... or sh=...), where
edits is [(file, old, new), ...]; go is the body of a demonstration program
(package main), sh a script that finds a cljfmt binary in $bin and a scratch
directory in $tmp. Both exit non-zero when the property is broken."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
specs = []
def S(id, prop, edits, needs, breaks, go=None, sh=None):
    specs.append((id, prop, edits, needs, breaks, go, sh))
exec(open(sys.argv[1]).read())
only = sys.argv[2:]

GO = '''#!/bin/bash
# Run with the repository as working directory: builds main.go.txt against it.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
repo="$PWD"
tmp="$(mktemp -d)" || exit 1
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/m" && cp "$here/main.go.txt" "$tmp/m/main.go" && cd "$tmp/m" || exit 1
printf 'module demo\\n\\ngo 1.21\\n\\nrequire github.com/cespare/goclj v0.0.0\\n\\nreplace github.com/cespare/goclj => %s\\n' "$repo" > go.mod
GOFLAGS=-mod=mod GOPROXY=off GOWORK=off go build -o "$tmp/demo" . || exit 1
cd "$tmp" && exec timeout 60 ./demo
'''
SH = '''#!/bin/bash
# Run with the repository as working directory: builds cljfmt from it.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp="$(mktemp -d)" || exit 1
trap 'rm -rf "$tmp"' EXIT
bin="$tmp/cljfmt.bin"
go build -o "$bin" ./cljfmt || exit 1
mkdir "$tmp/w" && cd "$tmp/w" || exit 1
export HOME="$tmp/home"; mkdir "$HOME"; unset CLJFMT_CONFIG_PATH
fail() { echo "FAIL: $*"; exit 1; }
'''

def sh_run(cmd, cwd):
    return subprocess.run(['bash', '-c', '. /opt/vp/env.sh; ' + cmd], cwd=cwd, capture_output=True, text=True)

bad = 0
for id, prop, edits, needs, breaks, go, sh in specs:
    if only and id not in only: continue
    d = os.path.join(HERE, 'seeded', id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    if go:
        open(d + '/main.go.txt', 'w').write(go.lstrip('\n'))
        open(d + '/demo.sh', 'w').write(GO)
    else:
        open(d + '/demo.sh', 'w').write(SH + sh.lstrip('\n') + '\nexit 0\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    tmp = tempfile.mkdtemp(prefix='seed')
    try:
        r = tmp + '/repo'
        subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
        ok = []
        b = sh_run('bash %s/demo.sh' % d, r)
        if b.returncode: ok.append('DEMO FAILS ON BASE: ' + b.stdout[-500:] + b.stderr[-500:])
        for f, o, n in edits:
            p = r + '/' + f; s = open(p).read()
            if s.count(o) != 1: ok.append('OLD TEXT FOUND %d TIMES in %s: %s' % (s.count(o), f, o))
            open(p, 'w').write(s.replace(o, n, 1))
        df = subprocess.run(['git', 'diff'], cwd=r, capture_output=True, text=True).stdout
        open(d + '/patch.diff', 'w').write(df)
        b = sh_run('gofmt -l . ; go build ./... && go vet ./... && go test ./... 2>&1 | grep -v "no test files"; exit ${PIPESTATUS[0]}', r)
        if b.returncode or 'FAIL' in b.stdout: ok.append('BUILD/TEST: ' + b.stdout[-600:] + b.stderr[-600:])
        b = sh_run('bash %s/demo.sh' % d, r)
        if b.returncode == 0: ok.append('DEMO PASSES WITH THE CHANGE')
        out = (b.stdout + b.stderr).strip().split('\n')[-1][:150]
        print(id, prop, 'OK' if not ok else ok, '|', out, flush=True)
        bad += bool(ok)
    finally:
        shutil.rmtree(tmp)
sys.exit(bad > 0)
