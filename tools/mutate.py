#!/usr/bin/env python3
"""Mutation campaign (development tool, no check uses it).

usage: mutate.py MUTANTS.py OUT.jsonl [workers] [id-prefix ...]
MUTANTS.py defines M = [(id, property, file, old, new), ...] or [(id, property, [(file, old, new), ...])]; `old` must occur once in the file's
non-test part (or pass (old, n) for the n-th occurrence).  Each mutant is applied to a private copy
of /repo under /tmp/mw/N, the harness copy is rebuilt, the property's check is run and the
repository's own tests are run.
"""
import sys, os, subprocess, json, threading, queue, importlib.util, time, shutil
spec = importlib.util.spec_from_file_location('m', sys.argv[1]); mod = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
out = sys.argv[2]; nw = int(sys.argv[3]) if len(sys.argv) > 3 else 3
pre = sys.argv[4:]
done = set()
if os.path.exists(out):
    done = {json.loads(l)['id'] for l in open(out)}
q = queue.Queue()
for m in mod.M:
    if m[0] not in done and (not pre or any(m[0].startswith(p) for p in pre)): q.put(m)
lock = threading.Lock()
FAM = {'C': [f'C{i:02}' for i in range(1, 17)], 'A': [f'A{i:02}' for i in range(1, 7)] + ['C15'], 'P': [f'P{i:02}' for i in range(1, 6)], 'M': ['M01', 'M02', 'M03', 'P04', 'P05']}

def setup(n):
    d = f'/tmp/mw/{n}'
    if not os.path.exists(d + '/ok'):
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
        os.makedirs(d + '/verif')
        subprocess.run(['cp', '-a', '/verif/target', d + '/verif/target'], check=True)
        open(d + '/ok', 'w')
    subprocess.run(f'''cd {d}; rm -rf {d}/verif/harness; cp -a /verif/harness /verif/build.sh /verif/check.sh /verif/known_findings.txt verif/
      sed -i 's#/repo#{d}/repo#g; s#/verif#{d}/verif#g' verif/build.sh verif/check.sh
      sed -i 's#"/repo#"{d}/repo#g' verif/harness/Cargo.toml
      git -C repo checkout -q -- . ; git -C repo fetch -q /repo HEAD && git -C repo reset -q --hard FETCH_HEAD''', shell=True, check=True)
    env = dict(os.environ, VERIF_HOME=d + '/verif', MC_THREADS='4', VERIF_TIER=os.environ.get('MUT_TIER', 'quick'))
    r = subprocess.run(['bash', d + '/verif/build.sh'], env=env, capture_output=True, text=True)
    if r.returncode: print(n, 'setup build failed', r.stderr[-500:])
    return d, env

TESTENV = dict(RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', RUSTC_WRAPPER='', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never')

def check(d, env, p):
    t = time.time()
    try:
        r = subprocess.run([d + '/verif/target/build/release/mc', 'check', p], env=env, capture_output=False, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, pass_fds=(), timeout=900) if False else subprocess.run(['bash', '-c', f'exec {d}/verif/target/build/release/mc check {p} 3>&1 1>/dev/null'], env=env, capture_output=True, text=True, timeout=900)
        return r.returncode, r.stdout, time.time() - t
    except subprocess.TimeoutExpired:
        return 99, 'timeout', time.time() - t

def worker(n):
    d, env = setup(n)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        id, prop = m[:2]
        # one edit (file, old, new), or a list of them
        edits = m[2] if isinstance(m[2], list) else [m[2:]]
        saved, bad = {}, False
        for f, old, new in edits:
            nth = 0
            if isinstance(old, tuple): old, nth = old
            p = f'{d}/repo/{f}'
            src = open(p).read(); saved.setdefault(p, src)
            k = src.split('#[cfg(test)]')[0].count(old)
            if k == 0 or (k > 1 and not nth):
                print(id, 'BAD PATTERN occurrences', k, old[:60], flush=True); bad = True; break
            i = -1
            for _ in range(max(nth, 1)): i = src.index(old, i + 1)
            open(p, 'w').write(src[:i] + new + src[i + len(old):])
        if bad:
            for p, src in saved.items(): open(p, 'w').write(src)
            continue
        res = {'id': id, 'property': prop, 'file': f}
        r = subprocess.run(['bash', d + '/verif/build.sh'], env=env, capture_output=True, text=True)
        if r.returncode:
            res['build'] = r.stderr[-600:]
        else:
            rc, so, t = check(d, env, prop)
            res['rc'] = rc; res['t'] = round(t, 1); res['msg'] = so[:300]
            if rc == 0:
                res['family'] = [x for x in FAM[prop[0]] if x != prop and check(d, env, x)[0] == 1]
            tr = subprocess.run('cargo test --workspace --exclude ibcx-pool --exclude ibcx-tests --lib --bins --tests --no-fail-fast --locked --offline -- --test-threads 8 2>&1 | grep -E "^test .*FAILED|error(\\[|:)" | head -5', shell=True, cwd=d + '/repo', env={**env, **TESTENV}, capture_output=True, text=True)
            res['tests'] = tr.stdout.strip()
        for p, src in saved.items(): open(p, 'w').write(src)
        with lock:
            open(out, 'a').write(json.dumps(res) + '\n')
            print(id, prop, 'BUILD' if 'build' in res else ('CAUGHT' if res['rc'] == 1 else f"MISS rc={res['rc']} fam={res.get('family')}"), 'TESTS-FAIL' if res.get('tests') else 'tests-pass', res.get('t'), flush=True)
            if 'build' in res: print(res['build'][-300:], flush=True)
ts = [threading.Thread(target=worker, args=(i,)) for i in range(nw)]
[t.start() for t in ts]; [t.join() for t in ts]
