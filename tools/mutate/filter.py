"""filter.py STREAM NSTREAMS: which mutants compile and pass the stable tests. Runs in its own mount namespace with its copy over /repo."""
import json, os, subprocess, sys, time
k, n = int(sys.argv[1]), int(sys.argv[2])
W = '/tmp/mut/s%d' % (k + 1)
if 'IN_NS' not in os.environ:
    if not os.path.isdir(W + '/repo'):
        subprocess.run(['cp', '-a', '/tmp/plant/repo', W + '/repo'], check=True)
        subprocess.run(['git', '-C', W + '/repo', 'checkout', '-q', '--', '.'], check=True)
    os.execvpe('unshare', ['unshare', '-m', 'python3', sys.argv[0]] + sys.argv[1:], dict(os.environ, IN_NS='1'))
subprocess.run(['mount', '--bind', W + '/repo', '/repo'], check=True)
os.chdir('/repo')
cands = json.load(open('/tmp/mut/cands.json'))
stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
CONF = [("all-features", "--workspace --features sync,async,serde,send_guard"), ("default", "--workspace"), ("minimal", "-p fieldx")]
done = '/tmp/mut/done%d.jsonl' % k
have = set()
if os.path.exists(done):
    have = {json.loads(l)['i'] for l in open(done)}
env = ". /opt/vp/env.sh; cd /repo; export CARGO_TARGET_X86_64_UNKNOWN_LINUX_GNU_RUNNER=/opt/vp/runner.sh; export FX_ERR=%s; : > $FX_ERR; "
def try_(i, c):
    f, ln, new, what = c
    p = '/repo/' + f
    src = open(p).read()
    L = src.split('\n')
    L[ln:ln + 1] = new
    open(p, 'w').write('\n'.join(L))
    try:
        for name, args in CONF:
            logs = W + '/logs'
            os.makedirs(logs, exist_ok=True)
            for x in os.listdir(logs): os.unlink(logs + '/' + x)
            sh = env % (logs + '/%s.err' % name)
            if name == 'all-features':
                b = subprocess.run(['bash', '-c', sh + 'timeout 200 cargo test %s --no-run --offline' % args], capture_output=True)
                if b.returncode: return 'nobuild'
            try:
                subprocess.run(['bash', '-c', sh + 'timeout 120 cargo test %s --no-fail-fast --offline -- --test-threads 8 > %s/%s.log 2>&1' % (args, logs, name)])
            except Exception: return 'timeout'
            subprocess.run(['python3', '/opt/vp/results.py', '%s/%s.json' % (logs, name), 'cargo:%s/%s.log' % (logs, name)], capture_output=True)
            subprocess.run(['python3', '/opt/vp/merge.py', logs + '/out.json', logs], capture_output=True)
            ok = set(json.load(open(logs + '/out.json'))['passed'])
            if any(t not in ok for t in stable if t.startswith(name + '/')): return 'killed'
        d = subprocess.run(['git', 'diff'], capture_output=True, text=True).stdout
        open('/tmp/mut/surv/m%d.diff' % i, 'w').write(d)
        return 'survived'
    finally:
        open(p, 'w').write(src)
for i, c in enumerate(cands):
    if i % n != k or i in have: continue
    t = time.time()
    r = try_(i, c)
    open(done, 'a').write(json.dumps({'i': i, 'r': r, 't': round(time.time() - t), 'f': c[0], 'l': c[1] + 1, 'w': c[3]}) + '\n')
