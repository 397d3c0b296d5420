#!/usr/bin/env python3
"""Makes small random changes to /repo's sources (in copies, bind-mounted in place of the real ones) and lists those
that none of the checks notices: each is either harmless or shows what the checks do not look at.

    mutate.py COUNT [--seed N] [--slots N] [--scale X] [--files REGEX] [--log FILE] [--only REGEX]
"""
import argparse, json, os, random, re, subprocess, sys, threading, queue, time
WORK = '/tmp/mut'
FILES = ['crates/seam/src/' + f for f in ['lib.rs', 'bin.rs', 'parse/lexer.rs', 'parse/parser.rs', 'parse/tokens.rs', 'parse/macros.rs', 'parse/expander.rs',
    'assemble/mod.rs', 'assemble/html.rs', 'assemble/xml.rs', 'assemble/css.rs', 'assemble/sexp.rs', 'assemble/text.rs']] + ['crates/seam_argparse_proc_macro/src/lib.rs']
SWAPS = [(r' == ', ' != '), (r' != ', ' == '), (r' < ', ' <= '), (r' > ', ' >= '), (r' <= ', ' < '), (r' >= ', ' > '), (r' && ', ' || '), (r' \|\| ', ' && '),
    (r' \+ 1\b', ''), (r' - 1\b', ''), (r' \+ 1\b', ' + 2'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r'\b2\b', '1'), (r'\b3\b', '2'),
    (r'if !', 'if '), (r'if (?!let|!)', 'if !'), (r' !', ' '), (r'\.rev\(\)', ''), (r'\.trim\(\)', ''), (r'\.trim_start\(\)', ''), (r'\.trim_end\(\)', ''), (r'\.first\(\)', '.last()'), (r'\.last\(\)', '.first()'),
    (r'\.first_mut\(\)', '.last_mut()'), (r'\.starts_with\(', '.ends_with('), (r'\.ends_with\(', '.starts_with('), (r'\.contains\(', '.starts_with('), (r'\.to_lowercase\(\)', '.to_string()'), (r'\.skip\(1\)', ''), (r'\.is_some\(\)', '.is_none()'), (r'\.is_none\(\)', '.is_some()'),
    (r'\.is_ok\(\)', '.is_err()'), (r'\bcontinue\b', 'break'), (r'\bbreak\b', 'continue'), (r'\.iter\(\)', '.iter().rev()'), (r'\.iter\(\)', '.iter().skip(1)'), (r'\.iter\(\)', '.iter().take(1)'), (r'\.extend\(', '.clone_from(&'), (r'\.any\(', '.all('), (r'\.all\(', '.any('), (r'\.find\(', '.rfind('), (r'\.rfind\(', '.find('),
    (r'\bself\.expand_nodes\(params\)\?', 'params'), (r'\.leading_whitespace\(\)\.to_owned\(\)', '.leading_whitespace().trim().to_owned()'), (r'leading_whitespace\.(clone|to_owned)\(\)', 'leading_whitespace.trim().to_owned()'), (r'\.min\(', '.max('), (r'\.max\(', '.min('),
    (r"'([^'\\])'", "'\x01'"), (r'"([^"\\{}]{1,40})"', '"\\1\x01"'), (r'\.ok_or', '.ok_or'), (r'\.filter\(', '.skip_while('), (r'\bSome\(([a-z_.]+)\)$', 'None'), (r'\.is_empty\(\)', '.is_empty() == false'), (r'\.=', '..'), (r'\.\.=', '..'), (r'\.clone\(\)\)\?', '.clone()).or(self.expand_nodes(Default::default()))?'),
    (r'\bascending\b', 'descending'), (r'\.chain\(', '.chain('), (r'\.dedup\(\)', ''), (r'\.sort\(\)', '.reverse()'), (r'_ => ', '_ if false => ')]

def mutants(path):
    text = open('/repo/' + path).read()
    lines = text.split('\n')
    stop = len(lines)
    for i, l in enumerate(lines):
        if l.strip().startswith('#[cfg(test)]'): stop = i
    out = []
    for i, l in enumerate(lines[:stop]):
        code = re.sub(r'(?<!:)//.*', '', l)
        t = code.strip()
        if not t or t.startswith(('use ', '#', 'pub mod', 'fn ', 'pub fn', 'impl', '///', '*', 'pub struct', 'struct', 'pub enum', 'type', '!')): continue
        if 'panic!' in t or 'expect(' in t or 'assert' in t: continue
        for a, b in SWAPS:
            for m in re.finditer(a, code):
                new = code[:m.start()] + m.expand(b.replace('\x01', 'q')) + code[m.end():]
                if b.endswith('\x01"') and (m[1].count(' ') > 1 or 'eprintln' in code): continue
                if new != code: out.append((path, i, l, new))
        if re.match(r'^[a-z_*(][\w.:*]*(\(|!\(|\[| = | \+= | -= |\.).*;$', t) and t.count('(') == t.count(')') and t.count('{') == t.count('}') and not t.startswith(('return', 'let ')):
            out.append((path, i, l, ''))                                  # Statement dropped.
            out.append((path, i, l, code + ' ' + t))                        # Statement twice.
        if re.match(r'^return .*;$', t): out.append((path, i, l, ''))
        if '=>' in t and t.endswith(',') and t.count('(') == t.count(')') and t.count('{') == t.count('}') and not t.startswith('_'):
            out.append((path, i, l, ''))                                  # Arm dropped.
        if i + 1 < stop and t.endswith(';') and lines[i + 1].strip().endswith(';') and t.count('(') == t.count(')') and lines[i + 1].count('(') == lines[i + 1].count(')'):
            out.append((path, i, l, lines[i + 1] + '\x02'))             # The next one first.
    return [(p, i, a, b) for p, i, a, b in out]

def apply(repo, m):
    path, i, old, new = m
    p = f'{repo}/{path}'
    lines = open('/repo/' + path).read().split('\n')
    assert lines[i] == old
    if new.endswith('\x02'):
        lines[i], lines[i + 1] = lines[i + 1], lines[i]
    else: lines[i] = new
    open(p, 'w').write('\n'.join(lines))

ORDER = {
    'lexer': 'C35 C04 C29', 'parser': 'C04 C30 C32 C29 C05', 'tokens': 'C32 C29 C04', 'macros': 'C33 C28 C32', 'expander': 'C36 C17 C28 C14 C29 C24 C26 C20 C23 C21 C25 C18 C19', 'html': 'C06 C09 C29 C10 C07',
    'xml': 'C06 C08 C29 C11', 'css': 'C12 C13 C29', 'sexp': 'C06 C05', 'text': 'C06 C07', 'mod': 'C07 C29 C06', 'bin': 'C27 C03', 'lib': 'C34', 'proc_macro': 'C33 C28'}
ALL = [f'C{n:02}' for n in range(1, 37) if n != 2]
SCRIPT = r'''
mount --bind {d}/repo /repo && mount --bind {d}/verif /verif || exit 9
. /opt/vp/env.sh; export RUSTUP_TOOLCHAIN=nightly-2026-08-21 RUSTFLAGS=-Awarnings
cd /verif/harness; cargo build --offline --release --bin seam-verif-api --features api --target-dir /verif/build/fn > /tmp/mut/build{k}.log 2>&1 || exit 7
cd /repo && CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only cargo build --manifest-path /repo/crates/seam/Cargo.toml --bin seam --offline --target-dir /verif/build/cli > /tmp/mut/build{k}.log 2>&1 || exit 7
export SEAM_BIN=/verif/build/cli/debug/seam VERIF_ROOT={d}/vr; mkdir -p {d}/vr; cp /verif/KNOWN_FINDINGS.txt {d}/vr/
ulimit -c 0
for p in {order}; do
  timeout 300 /verif/build/fn/release/seam-verif-api check $p --scale {scale} > {d}/out 2>&1; c=$?
  if [ $c -ne 0 ]; then echo "BY $p $c"; grep -a -m1 -A12 VIOLATION {d}/out | tail -c 500; tail -c 300 {d}/out; exit 0; fi
done
echo SURVIVED
cd /repo; unset RUSTFLAGS; . /opt/vp/env.sh; cargo test --workspace --no-fail-fast --offline -- --test-threads 8 2>/dev/null | grep -c '^test .* ok$'
'''
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('count', type=int); ap.add_argument('--seed', type=int, default=1); ap.add_argument('--slots', type=int, default=3); ap.add_argument('--scale', default='0.2')
    ap.add_argument('--files', default='.'); ap.add_argument('--log', default=WORK + '/log.jsonl'); ap.add_argument('--only', default='.'); ap.add_argument('--list', action='store_true')
    a = ap.parse_args()
    os.makedirs(WORK, exist_ok=True)
    all_ = [m for f in FILES if re.search(a.files, f) for m in mutants(f) if re.search(a.only, m[2])]
    done = set()
    if os.path.exists(a.log):
        for l in open(a.log):
            r = json.loads(l); done.add((r['file'], r['old'], r['new']))
    rnd = random.Random(a.seed)
    rnd.shuffle(all_)
    todo = [m for m in all_ if (m[0], m[2], m[3]) not in done]
    print(len(all_), 'mutants,', len(todo), 'to do', flush=True)
    if a.list:
        return
    q = queue.Queue()
    for m in todo[:a.count]: q.put(m)
    lock = threading.Lock()
    def slot(k):
        d = f'{WORK}/ns{k}'
        for name in ('repo', 'verif'):
            os.makedirs(f'{d}/{name}', exist_ok=True)
            subprocess.run(f"rsync -a --delete {'--exclude=/seeded --exclude=/.git --exclude=/build/asan' if name == 'verif' else ''} /{name}/ {d}/{name}/", shell=True, check=True)
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            t0 = time.time()
            subprocess.run(f'git -C {d}/repo checkout -q -- .', shell=True)
            apply(f'{d}/repo', m)
            key = next((k2 for k2 in ORDER if k2 in m[0].replace('src/lib.rs', 'src/lib.rs') and (k2 != 'lib' or 'seam/src/lib' in m[0]) and (k2 != 'mod' or 'assemble/mod' in m[0])), 'lib')
            if 'proc_macro' in m[0]: key = 'proc_macro'
            first = ORDER[key].split()
            order = ' '.join(first + [p for p in ALL if p not in first])
            r = subprocess.run(['unshare', '-Urm', 'bash', '-c', SCRIPT.format(d=d, k=k, order=order, scale=a.scale)], capture_output=True, text=True, errors='replace')
            if r.returncode == 7: res = 'nobuild'
            elif 'SURVIVED' in r.stdout: res = 'SURVIVED tests=' + r.stdout.strip().split()[-1]
            else: res = (re.search(r'BY \S+ \d+', r.stdout) or ['?' + r.stdout[-200:] + r.stderr[-200:]])[0]
            with lock:
                with open(a.log, 'a') as f: f.write(json.dumps({'file': m[0], 'line': m[1] + 1, 'old': m[2], 'new': m[3], 'res': res, 'out': r.stdout[-600:] if 'BY' in res else ''}) + '\n')
                if res != 'nobuild': print(f'{time.time() - t0:.0f}s', res, m[0].split('/')[-1], m[1] + 1, '\n   -', m[2].strip(), '\n   +', m[3].strip(), flush=True)
    ts = [threading.Thread(target=slot, args=(k,)) for k in range(a.slots)]
    for t in ts: t.start()
    for t in ts: t.join()
main()
