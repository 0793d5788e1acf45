#!/usr/bin/env python3
"""mkbug.py [ID...]: (re)creates /verif/seeded/<id> from tools/bugs/*.py.

Each bug is applied to a scratch copy of /repo, which must build and pass its
tests; its demonstration must pass without it and fail with it."""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = {}
for f in sorted(glob.glob(VERIF + '/tools/bugs/*.py')):
    spec = importlib.util.spec_from_file_location('b', f)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for b in m.BUGS:
        assert b['id'] not in BUGS, b['id']
        BUGS[b['id']] = b

HEAD = '''#!/bin/bash
. /opt/vp/env.sh 2>/dev/null
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
go build -o "$work/cljfmt" ./cljfmt || exit 3
export HOME=$work
unset CLJFMT_CONFIG_PATH
# fmt FLAGS... : formats standard input
fmt() { "$work/cljfmt" "$@"; }
# check SOURCE WANT FLAGS... : SOURCE and WANT as printf formats
check() {
    local src=$1 want=$2 got
    shift 2
    got=$(printf "$src" | fmt "$@" 2>&1; echo .)
    [ "$got" = "$(printf "$want"; echo .)" ] && return
    printf 'source:\\n'"$src"'\\nformatted:\\n%s\\nwant:\\n'"$want"'\\n' "$got"
    exit 1
}
# accepts SOURCE, rejects SOURCE
accepts() { printf "$1" | fmt >/dev/null 2>&1 || { echo "rejected: $1"; exit 1; }; }
rejects() { printf "$1" | fmt >/dev/null 2>&1 && { echo "accepted: $1"; exit 1; }; true; }
# gorun: runs the Go program on standard input against this tree
gorun() {
    mkdir -p "$work/prog"
    cat >"$work/prog/main.go"
    printf 'module demo\\ngo 1.18\\nrequire github.com/cespare/goclj v0.0.0\\nreplace github.com/cespare/goclj => %s\\n' "$PWD" >"$work/prog/go.mod"
    (cd "$work/prog" && GOFLAGS=-mod=mod go build -o ../demo $RACE .) || exit 3
    (cd "$work" && timeout ${LIMIT:-60} ./demo) || exit 1
}
'''

def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

ENV = '. /opt/vp/env.sh; '

def make(b, work):
    src = work + '/repo'
    run('git checkout -q -- . && git clean -fdq', src)
    for path, old, new in b['edits']:
        p = src + '/' + path
        s = open(p).read()
        n = s.count(old)
        if n != b.get('count', 1):
            return 'edit of %s: %d matches' % (path, n)
        open(p, 'w').write(s.replace(old, new))
    r = run(ENV + 'gofmt -l cljfmt parse goclj.go; go vet ./... && go test -count=1 ./...', src)
    if r.returncode:
        return 'build or tests: ' + r.stdout[-1500:]
    diff = run('git diff', src).stdout
    d = VERIF + '/seeded/' + b['id']
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(HEAD + b['demo'].strip('\n') + '\nexit 0\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    bad = run([d + '/demo.sh'], src)
    run('git checkout -q -- .', src)
    good = run([d + '/demo.sh'], src)
    if good.returncode != 0 or bad.returncode == 0:
        shutil.rmtree(d)
        return 'demo: unchanged %d, changed %d\n%s\n--- with the change:\n%s' % (good.returncode, bad.returncode, good.stdout[-1500:], bad.stdout[-1500:])
    # lines removed or changed must be the original repository's
    base = run('git rev-list --max-parents=0 HEAD', src).stdout.strip()
    mine = [l for l in diff.splitlines() if l.startswith('-') and not l.startswith('---') and l[1:].strip()]
    orig = set()
    for path, _, _ in b['edits']:
        orig |= {l.strip() for l in run('git show %s:%s' % (base, path), src).stdout.splitlines()}
    new = [l for l in mine if l[1:].strip() not in orig]
    note = ''
    if new:
        note = ' (touches lines of fixes: %s)' % new[:3]
    return 'ok' + note

def main():
    ids = sys.argv[1:] or list(BUGS)
    work = tempfile.mkdtemp(prefix='mkbug-')
    try:
        run('cp -a /repo %s/repo' % work, '/')
        for i in ids:
            print(i, make(BUGS[i], work), flush=True)
    finally:
        shutil.rmtree(work)
main()
