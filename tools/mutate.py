#!/usr/bin/env python3
"""Looks for one-edit changes that compile, pass the tests and leave the proofs
silent. usage: mutate.py MUTS.jsonl OUT.jsonl [-j N] [-n MAX] [--only REGEX] [--seed S]
MUTS comes from tools/mutate; results are appended to OUT (done ones are skipped)."""
import argparse, json, os, random, re, shutil, subprocess, sys, tempfile, threading, queue
ap = argparse.ArgumentParser()
ap.add_argument('muts'); ap.add_argument('out'); ap.add_argument('-j', type=int, default=6)
ap.add_argument('-n', type=int, default=10**9); ap.add_argument('--only', default='.'); ap.add_argument('--seed', type=int, default=1)
ap.add_argument('--govc', default='/tmp/govc')
a = ap.parse_args()
MAP = {'header.go': ['hdr:', 'msg:'], 'message.go': ['msg:'], 'property.go': ['prop:', 'msg:'], 'params.go': ['param:', 'T808_0x8103', 'T808_0x0104'],
       'bufio.go': ['prim:', 'T808_0x0200', 'T808_0x8300', 'T808_0x8304', 'T808_0x0702', 'T808_0x8105', 'T808_0x0107'],
       'helpers.go': ['prim:', 'T808_0x0200', 'T808_0x8300', 'T808_0x0702', 'T808_0x8600', 'msg:', 'oaep:'],
       'bit.go': ['flag:', 'T808_0x0200', 'T808_0x0100', 'T808_0x8600', 'prim:'], 'register.go': ['reg:'],
       'session.go': ['sess:', 'send:'], 'server.go': ['table:', 'serve:', 'sess:'], 'protocol.go': ['recv:', 'send:'],
       'session_handler.go': ['serve:', 'table:'], 'multipart.go': ['parts:'], 'timer.go': ['timer:']}
def filt(f):
    b = os.path.basename(f)
    m = re.match(r't808_(0x\w+)\.go', b)
    if m: return ['T808_0x' + m.group(1)[2:].upper(), 'T808_0x' + m.group(1)[2:], 'flag:']
    if '/extra/' in f: return ['extra:']
    return MAP.get(b)
done = set()
if os.path.exists(a.out):
    for l in open(a.out):
        r = json.loads(l); done.add((r['file'], r['from'], r['to'], r['new']))
todo = []
for l in open(a.muts):
    m = json.loads(l)
    if m['file'].startswith('example') or filt(m['file']) is None or not re.search(a.only, m['file']): continue
    if (m['file'], m['from'], m['to'], m['new']) in done: continue
    src = open('/repo/' + m['file'], 'rb').read()
    m['old'] = src[m['from']:m['to']].decode()
    if m['op'] == 'binop' and re.fullmatch(r'err [!=]= nil', m['old']): continue
    todo.append(m)
random.Random(a.seed).shuffle(todo)
todo = todo[:a.n]
q = queue.Queue(); [q.put(m) for m in todo]
lock = threading.Lock(); out = open(a.out, 'a'); cnt = {}
env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOVC_J='1')
def sh(cmd, cwd, t, e=env):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=t)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired: return 124, 'timeout'
def worker(i):
    d = tempfile.mkdtemp(prefix='mut')
    subprocess.run(['cp', '-a', '/repo/.', d]); 
    e = dict(env, TMPDIR=d + '/.tmp', GOVC_REPO=d); os.makedirs(d + '/.tmp', exist_ok=True)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        p = d + '/' + m['file']; src = open(p, 'rb').read()
        open(p, 'wb').write(src[:m['from']] + m['new'].encode() + src[m['to']:])
        try:
            rc, o = sh(['go', 'build', './...'], d, 120, e); r = 'nobuild'
            if rc == 0:
                shutil.rmtree(d + '/.tmp', True); os.makedirs(d + '/.tmp')
                rc, o = sh(['go', 'test', '-vet=off', '-count=1', '-timeout', '60s', './...'], d, 120, e); r = 'tests'
                if rc == 0:
                    rc, o = sh([a.govc, 'roots'] + filt(m['file']), d, 400, e)
                    bad = [l for l in o.split('\n') if 'FAIL' in l and 'lemma:' not in l]
                    r = 'caught' if bad or rc not in (0, 1) else 'MISS'
                    m['why'] = (bad or [''])[0][:200]
        finally: open(p, 'wb').write(src)
        m['res'] = r
        with lock:
            cnt[r] = cnt.get(r, 0) + 1; out.write(json.dumps(m) + '\n'); out.flush()
            if sum(cnt.values()) % 50 == 0: print(cnt, flush=True)
    shutil.rmtree(d, True)
ts = [threading.Thread(target=worker, args=(i,)) for i in range(a.j)]
[t.start() for t in ts]; [t.join() for t in ts]; print(cnt)
