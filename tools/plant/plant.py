#!/usr/bin/env python3
"""Plants the bugs of bugs.py: confirms each in a scratch copy of /repo and writes
/verif/seeded/<id>/, then (with --catch) runs the checks against it.

    plant.py make [ID...]     build, test and demonstrate; write seeded/<id>/
    plant.py catch [ID...]    apply to /repo, run the check of its property, undo
"""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import bugs, bugs2, bugs3, bugs4, bugs5, bugs6, bugs7, bugs8, bugs9, bugs10, bugs11
from bugs import BUGS
SEEDED = '/verif/seeded'
WORK = '/tmp/plant'
BASE = '3cf576a'

DEMO_CLI = r'''#!/bin/bash
# Runs the cases beside this file with the program built from /repo and compares
# what it prints (and its exit status) with what it should print.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "${SEAM_REPO:-/repo}" || exit 2
cargo build --offline -q --bin seam >&2 || exit 2
seam=$PWD/target/debug/seam
export TZ=UTC NO_COLOR=1
status=0
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
for case in "$here"/cases/*/; do
    name=$(basename "$case")
    cp -a "$case" "$scratch/$name"
    cd "$scratch/$name" || exit 2
    [ -f setup ] && . ./setup
    mapfile -t args < args
    "$seam" "${args[@]}" < /dev/null > actual.out 2> actual.err
    code=$?
    if [ "$code" != "$(cat code)" ]; then echo "$name: exit status $code, not $(cat code)"; status=1; fi
    if ! cmp -s actual.out out; then echo "$name: output differs"; diff out actual.out; status=1; fi
    if [ -f err ] && ! cmp -s actual.err err; then echo "$name: error differs"; diff err actual.err; status=1; fi
done
exit $status
'''
DEMO_LIB = r'''#!/bin/bash
# Builds main.rs beside this file against the library in /repo and runs it.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
repo=${SEAM_REPO:-/repo}
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
mkdir "$scratch/src" && cp "$here/main.rs" "$scratch/src/main.rs" && cp "$repo/Cargo.lock" "$scratch/" || exit 2
cat > "$scratch/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
seam = { path = "$repo/crates/seam" }
seam_argparse_proc_macro = { path = "$repo/crates/seam_argparse_proc_macro" }
regex = "1"
[workspace]
END
cd "$scratch" || exit 2
CARGO_TARGET_DIR=$repo/target/demo cargo build --offline -q >&2 || exit 2
TZ=UTC NO_COLOR=1 timeout 100 "$repo/target/demo/debug/demo"
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, errors='replace', **kw)

def run_case(seam, cdir, scratch):
    shutil.rmtree(scratch, ignore_errors=True)
    shutil.copytree(cdir, scratch, symlinks=True)
    pre = '. ./setup;' if os.path.exists(scratch + '/setup') else ''
    return subprocess.run(['bash', '-c', pre + 'mapfile -t args < args; exec "$0" "${args[@]}" < /dev/null', seam],
        cwd=scratch, capture_output=True, env={**os.environ, 'TZ': 'UTC', 'NO_COLOR': '1'})

def make(bug, repo, base_seam):
    out = f"{SEEDED}/{bug['id']}"
    sh(f'git -C {repo} checkout -q -- .')
    problems = []
    for file, old, new in bug['edits']:
        path = f'{repo}/crates/seam/src/{file}'
        text = open(path).read()
        if text.count(old) != 1:
            return [f'{file}: {text.count(old)} matches for {old[:50]!r}']
        open(path, 'w').write(text.replace(old, new))
    diff = sh(f'git -C {repo} diff').stdout
    # Which removed lines are not original ones?
    original = 0
    blame = {}
    for line in diff.splitlines():
        m = re.match(r'--- a/(.*)', line)
        if m:
            file = m.group(1)
            blame = {}
            for b in sh(f'git -C {repo} blame -s HEAD -- {file}').stdout.splitlines():
                mm = re.match(r'(\^?\w+)\s+(?:\S+\s+)?(\d+)\)', b)
                blame[int(mm.group(2))] = mm.group(1).startswith('^')
            continue
        m = re.match(r'@@ -(\d+)', line)
        if m:
            n = int(m.group(1)) - 1
            continue
        if line.startswith('-') or line.startswith(' '):
            n += 1
        if line.startswith('-'):
            if blame[n]: original += 1
            else: problems.append(f'removes line {n} of {file}, which is not original')
    if not original:
        problems.append('removes no original line')
    if problems:
        return problems
    env = '. /opt/vp/env.sh; cd ' + repo + '; '
    r = sh(env + 'cargo build --offline -q --bin seam 2>&1')
    if r.returncode: return ['build: ' + r.stdout[-1500:]]
    r = sh(env + 'cargo test --workspace --no-fail-fast --offline -- --test-threads 8 2>&1')
    if len(re.findall(r'^test .* \.\.\. ok$', r.stdout, re.M)) < 6:
        return ['tests: ' + r.stdout[-800:]]
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    if 'lib' in bug:
        open(out + '/main.rs', 'w').write(bug['lib'])
        open(out + '/demo.sh', 'w').write(DEMO_LIB)
    else:
        open(out + '/demo.sh', 'w').write(DEMO_CLI)
        for i, case in enumerate(bug['cases']):
            cdir = f'{out}/cases/{i}'
            os.makedirs(cdir)
            files = dict(case.get('files', {}))
            args = case['args']
            if 'src' in case:
                files['in.sex'] = case['src']
                args = args + ['in.sex']
            for name, text in files.items():
                p = f'{cdir}/{name}'
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, 'w', newline='').write(text)
            open(cdir + '/args', 'w').write('\n'.join(args) + '\n')
            if 'setup' in case: open(cdir + '/setup', 'w').write(case['setup'])
            r = run_case(base_seam, cdir, f'{WORK}/case-{bug["id"]}')
            open(cdir + '/out', 'wb').write(r.stdout)
            open(cdir + '/code', 'w').write(str(r.returncode))
            if case.get('err'): open(cdir + '/err', 'wb').write(r.stderr)
            bug.setdefault('shown', []).append((r.returncode, r.stdout.decode(errors='replace')[-200:], r.stderr.decode(errors='replace')[-300:] if r.returncode or case.get('err') else ''))
            r = run_case(f'{repo}/target/debug/seam', cdir, f'{WORK}/case-{bug["id"]}')
            bug['shown'].append(('patched', r.returncode, r.stdout.decode(errors='replace')[-200:], r.stderr.decode(errors='replace')[-300:] if r.returncode or case.get('err') else ''))
            shutil.rmtree(f'{WORK}/case-{bug["id"]}', ignore_errors=True)
    os.chmod(out + '/demo.sh', 0o755)
    open(out + '/patch.diff', 'w').write(diff)
    json.dump({'property': bug['property'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']},
              open(out + '/meta.json', 'w'), indent=1)
    d = sh(f'SEAM_REPO={repo} bash {out}/demo.sh')
    if d.returncode == 0:
        problems.append('demo passes with the bug')
    sh(f'git -C {repo} checkout -q -- .')
    d = sh(f'SEAM_REPO={repo} bash {out}/demo.sh')
    if d.returncode != 0:
        problems.append(f'demo fails without the bug: {d.stdout[-500:]} {d.stderr[-800:]}')
    if problems: shutil.rmtree(out, ignore_errors=True)
    return problems

def main():
    mode, ids = sys.argv[1], sys.argv[2:]
    verbose = '-v' in ids
    ids = [i for i in ids if i != '-v']
    bugs = [b for b in BUGS if not ids or b['id'] in ids]
    if mode == 'make':
        if not ids: bugs = [b for b in bugs if not os.path.exists(f"{SEEDED}/{b['id']}/patch.diff")]
        n = min(4, max(1, len(bugs)))
        repos = []
        for i in range(n):
            r = f'{WORK}/repo{i}'
            if not os.path.exists(r): shutil.copytree('/repo', r, symlinks=True)
            sh(f'git -C {r} fetch -q /repo HEAD; git -C {r} checkout -q -f FETCH_HEAD')
            repos.append(r)
        r = sh(f'. /opt/vp/env.sh; cd {repos[0]} && cargo build --offline -q --bin seam && cp target/debug/seam {WORK}/seam')
        assert r.returncode == 0, r.stderr
        def work(i):
            for b in bugs[i::n]:
                try: p = make(b, repos[i], WORK + '/seam')
                except Exception as e: p = [repr(e)]
                print(b['id'], b['property'], 'OK' if not p else p, flush=True)
                if verbose:
                    for s in b.get('shown', []): print('   ', s, flush=True)
        with ThreadPoolExecutor(n) as ex: list(ex.map(work, range(n)))
    elif mode == 'catch':
        # In mount namespaces with copies of /repo and /verif in their places, so that several can run at once and
        # nothing real is touched.
        bugs = [b for b in bugs if os.path.exists(f"{SEEDED}/{b['id']}/patch.diff")]
        n = min(3, max(1, len(bugs)))
        def slot(i):
            for name in ('repo', 'verif'):
                d = f'{WORK}/ns{i}/{name}'
                os.makedirs(d, exist_ok=True)
                sh(f"rsync -a --delete {'--exclude=/seeded --exclude=/.git' if name == 'verif' else ''} /{name}/ {d}/")
            for b in bugs[i::n]:
                patch = f"{SEEDED}/{b['id']}/patch.diff"
                script = f"mount --bind {WORK}/ns{i}/repo /repo && mount --bind {WORK}/ns{i}/verif /verif && cd /verif && VERIF_SEED=1 bash check.sh {b['property']} quick"
                sh(f'git -C {WORK}/ns{i}/repo checkout -q -- .')
                r = sh(f'git -C {WORK}/ns{i}/repo apply {patch}')
                if r.returncode: print(b['id'], 'does not apply', r.stderr, flush=True); continue
                r = subprocess.run(['unshare', '-Urm', 'bash', '-c', script], capture_output=True, text=True, errors='replace')
                v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
                caught = r.returncode == 1 and any(f"property={b['property']} " in l + ' ' for l in v)
                print(b['id'], b['property'], 'CAUGHT' if caught else f'MISSED rc={r.returncode} {r.stdout[-300:]} {r.stderr[-300:]}', flush=True)
        with ThreadPoolExecutor(n) as ex: list(ex.map(slot, range(n)))
main()
