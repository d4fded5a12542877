#!/usr/bin/env python3
"""Plant bugs: seed.py make SPEC.py [ID..]   build seeded/<id> from a spec and confirm it (builds, tests pass, demo separates)
               seed.py run [ID..] [-p PROP..] run checks against the planted changes (facts of a patched scratch copy)
SPEC.py calls bug(id, property, edits=[(file, old, new)], demo=RUST_MAIN | cli=BASH, needs=..., what=...)"""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get('SEED_W', '/tmp/w')
RUST = '''#!/bin/bash
# builds a small program against the tree in the current directory and runs it
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
w="$(mktemp -d)"; trap 'rm -rf "$w"' EXIT
mkdir "$w/src"; cp "$here/main.rs" "$w/src/main.rs"; cp "$repo/Cargo.lock" "$w/"
printf '[package]\\nname="demo"\\nversion="0.1.0"\\nedition="2021"\\n[dependencies]\\nmarkdown-fmt={path="%s"}\\n[workspace]\\n' "$repo" > "$w/Cargo.toml"
cd "$w" && CARGO_TARGET_DIR="$w/t" cargo build -q --offline 2>"$w/log" || { cat "$w/log"; exit 3; }
timeout 60 "$w/t/debug/demo"
'''
CLI = '''#!/bin/bash
# builds the command line tool of the tree in the current directory and exercises it in a scratch directory
repo="$PWD"
w="$(mktemp -d)"; trap 'rm -rf "$w"' EXIT
CARGO_TARGET_DIR="$w/t" cargo build -q --offline --locked --features build-binary --bin markdown-fmt 2>"$w/log" || { cat "$w/log"; exit 3; }
bin="$w/t/debug/markdown-fmt"; mkdir "$w/s"; cd "$w/s"
'''
B = {}


def bug(id, property, edits, needs, what, demo=None, cli=None):
    B[id] = dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=demo, cli=cli)


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def make(b):
    c = os.path.join(W, 'mk')
    if not os.path.isdir(c):
        os.makedirs(W, exist_ok=True)
        sh(f'cp -a /repo {c}')
    sh(f'git -C {c} fetch -q /repo HEAD && git -C {c} checkout -q -f FETCH_HEAD && git -C {c} clean -fdq -e target')
    d = os.path.join(V, 'seeded', b['id'])
    os.makedirs(d, exist_ok=True)
    for f, old, new in b['edits']:
        p = os.path.join(c, f)
        s = open(p).read()
        if s.count(old) != 1:
            return f'edit of {f}: old text occurs {s.count(old)} times'
        open(p, 'w').write(s.replace(old, new))
    with open(os.path.join(d, 'patch.diff'), 'w') as fh:
        fh.write(sh(f'git -C {c} diff').stdout)
    if b['demo']:
        open(os.path.join(d, 'main.rs'), 'w').write(b['demo'].lstrip('\n'))
        open(os.path.join(d, 'demo.sh'), 'w').write(RUST)
    else:
        open(os.path.join(d, 'demo.sh'), 'w').write(CLI + b['cli'].lstrip('\n'))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    r = sh(f'cd {c} && cargo test --workspace --features build-binary --no-fail-fast --locked --offline 2>&1 | tail -400')
    bad = [l for l in r.stdout.splitlines() if l.startswith('test ') and 'FAILED' in l or l.startswith('error')]
    if bad or 'test result' not in r.stdout:
        return 'tests: ' + '; '.join(bad[:8]) + r.stdout[-1500:] * (not bad)
    g = sh(f'cd /repo && {d}/demo.sh')
    if g.returncode:
        return f'demo fails on the unchanged tree: {g.stdout[-800:]} {g.stderr[-800:]}'
    g = sh(f'cd {c} && {d}/demo.sh')
    if g.returncode in (0, 3):
        return f'demo does not fail with the change ({g.returncode}) {g.stdout[-500:]}'
    return None


def run(i, props):
    c = os.path.join(W, 'run-' + i)
    out = os.path.join(W, 'facts-' + i)
    d = os.path.join(V, 'seeded', i)
    if not props:
        props = [json.load(open(os.path.join(d, 'meta.json')))['property']]
    sh(f'rm -rf {c} {out}; mkdir -p {c} && cp -a /repo/Cargo.* /repo/src /repo/README.md {c}/ ; cp -a /repo/build.rs {c}/ 2>/dev/null; mkdir -p {out}')
    r = sh(f'cd {c} && git init -q . && git apply --unsafe-paths {d}/patch.diff')
    if r.returncode:
        return f'{i}: patch does not apply {r.stderr[-300:]}'
    r = sh(f'REPO={c} MFV_CACHE={W}/cache {V}/facts.sh {out}')
    if r.returncode:
        return f'{i}: facts failed {r.stderr[-800:]}'
    res = []
    for p in props:
        r = sh(f'cd {V} && MFV_FACTS={out} python3 check.py {p}')
        res.append(f"{p}={'CAUGHT' if r.returncode == 1 else 'missed' if r.returncode == 0 else 'ERR'}  " + ' | '.join(x.strip()[:230] for x in r.stdout.splitlines() if x.startswith('  '))[:700])
    shutil.rmtree(c, ignore_errors=True)
    shutil.rmtree(out, ignore_errors=True)
    return f'{i}: ' + '\n     '.join(res)


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'make':
        exec(open(a[1]).read())
        for i in (a[2:] or B):
            e = make(B[i])
            print(i, 'OK' if e is None else 'REJECTED: ' + e, flush=True)
            if e:
                shutil.rmtree(os.path.join(V, 'seeded', i), ignore_errors=True)
    else:
        props = a[a.index('-p') + 1:] if '-p' in a else []
        ids = [x for x in a[1:] if x not in props and x != '-p'] or sorted(os.listdir(os.path.join(V, 'seeded')))
        for i in ids:
            print(run(i, props), flush=True)
