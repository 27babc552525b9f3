"""Plant a bug: seed(id, prop, edits, demo, needs, breaks).  edits: [(file, old, new)], demo: Go statements of a test body."""
import subprocess, os, shutil, json, tempfile, sys

SEEDED = os.environ.get('SEEDED', '/verif/seeded')
DEMO_SH = '''#!/bin/bash
# exit 0: the library behaves; nonzero: it does not
d="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
trap 'rm -r -- "$t"' EXIT
printf '{"Replace": {"%s/PKGzz_seeded_demo_test.go": "%s/demo_test.go.txt"}}' "$PWD" "$d" > "$t/overlay.json"
go test -vet=off -count=1 -timeout 120s -overlay "$t/overlay.json" -run '^TestSeededDemo$' ./PKG
'''

def sh(cmd, cwd, timeout=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)

def seed(id, prop, edits, demo, needs, breaks, imports=(), extra='', pkg=''):
    d = f'{SEEDED}/{id}'
    w = tempfile.mkdtemp(prefix='seed')
    try:
        r = f'{w}/repo'
        subprocess.run(['cp', '-a', '/repo', r], check=True)
        for f, old, new in edits:
            p = f'{r}/{f}'
            s = open(p).read()
            if s.count(old) != 1:
                print(id, 'REJECTED: pattern count', s.count(old), f); return False
            open(p, 'w').write(s.replace(old, new))
        os.makedirs(d, exist_ok=True)
        imps = ''.join(f'\t"{i}"\n' for i in ['testing'] + list(imports))
        open(f'{d}/demo_test.go.txt', 'w').write(f'package {pkg or "jsonvalue"}\n\nimport (\n{imps})\n\n{extra}\nfunc TestSeededDemo(t *testing.T) {{\n{demo}\n}}\n')
        open(f'{d}/demo.sh', 'w').write(DEMO_SH.replace('PKG', pkg + '/' if pkg else ''))
        os.chmod(f'{d}/demo.sh', 0o755)
        open(f'{d}/meta.json', 'w').write(json.dumps({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, indent=1) + '\n')
        diff = sh('git diff', r).stdout
        open(f'{d}/patch.diff', 'w').write(diff)
        b = sh('go build ./...', r)
        t = sh('go test ./... 2>&1 | tail -40', r)
        ok_tests = b.returncode == 0 and 'FAIL' not in t.stdout
        with_patch = sh(f'bash {d}/demo.sh', r)
        sh('git checkout -- .', r)
        without = sh(f'bash {d}/demo.sh', r)
        good = ok_tests and with_patch.returncode != 0 and without.returncode == 0 and '[no tests' not in without.stdout and '[build failed]' not in with_patch.stdout
        if not good:
            print(id, 'REJECTED', 'build', b.returncode, b.stderr[-300:], 'tests', ok_tests, '' if ok_tests else t.stdout[-800:], 'demo with', with_patch.returncode, with_patch.stdout[-500:], 'demo without', without.returncode, (without.stdout+without.stderr)[-500:] if without.returncode else '')
            shutil.rmtree(d)
            return False
        print(id, 'ok:', (with_patch.stdout.strip().split('\n') or [''])[1:2])
        return True
    finally:
        shutil.rmtree(w)
