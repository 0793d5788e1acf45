#!/usr/bin/env python3
"""mutants.py: finds small changes that pass the tests of /repo and no check
notices. Development tool; everything happens in scratch copies.
  mutants.py survivors OUT.jsonl        changes that build and pass the tests
  mutants.py check IN OUT STEP C..      runs checks on them (every STEP-th case
                                        of large spaces), until one notices
"""
import json, os, subprocess, sys, tempfile, shutil, glob
from concurrent.futures import ThreadPoolExecutor
import queue
ENV = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod -buildvcs=false', GOWORK='off', HOME='/root')
def run(cmd, cwd, timeout, env=ENV):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait()
        return 124, ''
def apply(repo, m):
    path = os.path.join(repo, m['File'])
    src = open(os.path.join('/repo', m['File']), 'rb').read()
    open(path, 'wb').write(src[:m['Start']] + m['Repl'].encode() + src[m['End']:])
def restore(repo, m):
    shutil.copy(os.path.join('/repo', m['File']), os.path.join(repo, m['File']))
def each(ms, f, workers, out, setup):
    root = tempfile.mkdtemp(prefix='mut'); q = queue.Queue()
    for i in range(workers):
        d = f'{root}/{i}'; os.mkdir(d); shutil.copytree('/repo', d + '/repo', ignore=shutil.ignore_patterns('.git')); setup(d); q.put(d)
    o = open(out, 'a')
    def one(m):
        d = q.get()
        try:
            apply(d + '/repo', m)
            r = f(d, m)
            if r is not None:
                o.write(json.dumps(dict(m, **r)) + '\n'); o.flush()
        finally:
            restore(d + '/repo', m); q.put(d)
    with ThreadPoolExecutor(workers) as ex: list(ex.map(one, ms))
    shutil.rmtree(root)
if sys.argv[1] == 'survivors':
    files = [f for f in ['goclj.go'] + sorted(os.path.relpath(x, '/repo') for x in glob.glob('/repo/*/*.go')) if not f.endswith('_test.go')]
    bindir = tempfile.mkdtemp()
    rc, out = run(['go', 'build', '-o', bindir + '/mutate', 'mutate.go'], '/verif/tools/mutate', 100); assert rc == 0, out
    rc, out = run([bindir + '/mutate'] + files, '/repo', 100)
    shutil.rmtree(bindir)
    ms = [json.loads(l) for l in out.splitlines()]
    print(len(ms), 'mutants')
    def f(d, m):
        rc, out = run(['go', 'vet', '-composites=false', './...'] if False else ['go', 'build', './...'], d + '/repo', 120)
        if rc: return None
        rc, out = run(['go', 'test', '-vet=off', '-timeout', '20s', './...'], d + '/repo', 60)
        return {} if rc == 0 else None
    each(ms, f, 8, sys.argv[2], lambda d: None)
else:
    _, _, inp, out, step = sys.argv[:5]; checks = sys.argv[5:]
    ms = [json.loads(l) for l in open(inp)]
    ms = [m for m in ms if not m.get('killed')]
    done = set(json.loads(l)['Desc'] for l in open(out)) if os.path.exists(out) else set()
    ms = [m for m in ms if m['Desc'] not in done]
    def setup(d):
        os.mkdir(d + '/verif')
        for x in ['run.sh', 'known_findings.txt', 'MANIFEST.json', 'properties.jsonl']: shutil.copy('/verif/' + x, d + '/verif')
        shutil.copytree('/verif/harness', d + '/verif/harness'); os.mkdir(d + '/verif/evidence'); os.mkdir(d + '/verif/replays')
        g = d + '/verif/harness/go.mod'; s = open(g).read(); s = s.replace('=> /repo\n', f'=> {d}/repo\n'); open(g, 'w').write(s)
        mc = d + '/verif/harness/mc/mc.go'; s = open(mc).read()
        if step != '1':
            a = 'for i := lo; i < hi; i++ {\n'; assert s.count(a) == 1
            s = s.replace(a, a + f'\t\t\t\t\tif n > 600 && (i*2654435761>>7)%{step} != 0 {{ continue }}\n')
        open(mc, 'w').write(s)
    def f(d, m):
        for c in checks:
            rc, o = run([d + '/verif/run.sh', c, 'quick'], d + '/verif', 900)
            if rc == 1 and 'VIOLATION property=' + c in o:
                return {'killed': c}
            if rc not in (0, 2): m['note'] = f'{c} rc {rc}'
        return {'killed': ''}
    each(ms, f, int(os.environ.get('WORKERS', '4')), out, setup)
