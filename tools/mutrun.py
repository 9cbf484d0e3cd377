#!/usr/bin/env python3
"""mutrun.py STREAM NSTREAMS MUTANTS.jsonl OUT.tsv: run the checks against mutants, in a private mount namespace
(started by itself with unshare), stopping at the first check that reports a violation."""
import glob, json, os, subprocess, sys, time
k, n, muts, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], sys.argv[4]
w = f'/tmp/mut/w{k}'
if not os.environ.get('IN_NS'):
    os.makedirs(w + '/v/evidence', exist_ok=True)
    subprocess.run(f'rm -rf {w}/repo; git clone -q /repo {w}/repo; cp -p /repo/Cargo.lock {w}/repo/ 2>/dev/null; cp /verif/known-findings.txt {w}/v/', shell=True, check=True)
    os.environ['IN_NS'] = '1'
    os.execvp('unshare', ['unshare', '-m', 'nice', '-n', '10', 'bash', '-c', f'mount --bind {w}/repo /repo && mkdir -p {w}/vt && exec python3 {" ".join(sys.argv)}'])
ORDER = os.environ.get('ORDER', 'C01 C08 C11 C20 C14 C26 C05 C06 C10 C13 C03 C04 C25 C28 C24 C15 C16 C29 C21 C07 C22 C18 C23 C09 C12 C02 C17 C27 C19').split()
done = set()
if os.path.exists(out):
    done = {int(l.split('\t')[0]) for l in open(out) if l.strip()}
bd = f'/verif/build/mu{k}'
for l in open(muts):
    m = json.loads(l)
    if m['id'] % n != k or m['id'] in done:
        continue
    p = '/repo/' + m['file']
    subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    L = open(p).read().split('\n')
    i = m['line'] - 1
    assert L[i:i + len(m['old'])] == m['old'], m
    L[i:i + len(m['old'])] = m['new']
    open(p, 'w').write('\n'.join(L))
    t0 = time.time()
    res = 'SURVIVED'
    feats = {'': bd, 'flush_aggregation': bd + 'fa'}
    built = {}
    # the checks that killed the nearest mutants come first
    near = {}
    for o in glob.glob(os.path.dirname(out) + '/out*.tsv'):
        for x in open(o):
            x = x.split('\t')
            if x[1].startswith('killed ') and x[3].split(':')[0] == m['file']:
                c = x[1][7:]
                near[c] = min(near.get(c, 10**9), abs(int(x[3].split(':')[1]) - m['line']))
    for c in sorted(ORDER, key=lambda c: (near.get(c, 10**9), ORDER.index(c))):
        f = 'flush_aggregation' if c == 'C19' else ''
        if f not in built:
            r = subprocess.run(['bash', '/verif/mc/build.sh', feats[f], f] if f else ['bash', '/verif/mc/build.sh', feats[f]], capture_output=True, text=True)
            built[f] = r.returncode == 0
            if not built[f]:
                res = 'NOCOMPILE'
                break
        env = dict(os.environ, VERIF_DIR=w + '/v', MC_BUDGET=os.environ.get('BUDGET', '150'))
        try:
            r = subprocess.run([feats[f] + '/release/mc', 'check', c, 'quick'], capture_output=True, text=True, env=env, timeout=500)
        except subprocess.TimeoutExpired:
            res = 'TIMEOUT ' + c
            break
        if r.returncode == 1 and 'VIOLATION' in r.stdout:
            res = 'killed ' + c
            break
        if r.returncode != 0:
            res = f'ODD{r.returncode} {c} ' + r.stdout[-200:].replace('\n', ' ').replace('\t', ' ')
            break
    with open(out, 'a') as o:
        o.write(f"{m['id']}\t{res}\t{time.time()-t0:.0f}\t{m['file']}:{m['line']}\t{m['op']}\t{' '.join(x.strip() for x in m['old'])[:120]}\t=>\t{' '.join(x.strip() for x in m['new'])[:120]}\n")
