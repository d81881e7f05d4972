#!/usr/bin/env python3
"""Of the one-edit changes the proofs catch (results of tools/mutate.py), which ones does the
harness alone find a failing input for? usage: mutharness.py RES.jsonl OUT -n N -j J [--only RE]"""
import argparse, json, os, random, re, shutil, subprocess, tempfile, threading, queue
ap = argparse.ArgumentParser(); ap.add_argument('res'); ap.add_argument('out'); ap.add_argument('-n', type=int, default=100); ap.add_argument('-j', type=int, default=3); ap.add_argument('--only', default='.'); ap.add_argument('--seed', type=int, default=1)
a = ap.parse_args()
P = {'header.go': 'C07 C05', 'message.go': 'C05 C06 C09 C14', 'property.go': 'C07', 'params.go': 'C13', 'bufio.go': 'C01 C04 C12 C02 C03', 'helpers.go': 'C12 C14 C11 C04 C01', 'bit.go': 'C11', 'register.go': 'C09',
     'session.go': 'C16 C15 C19', 'server.go': 'C20 C19', 'protocol.go': 'C08 C05 C14', 'session_handler.go': 'C19 C20', 'multipart.go': 'C18', 'timer.go': 'C17'}
def props(f):
    b = os.path.basename(f)
    if b.startswith('t808'): return 'C01 C02 C04'
    if '/extra/' in f: return 'C10'
    return P.get(b, '')
ms = [json.loads(l) for l in open(a.res)]
ms = [m for m in ms if m['res'] == 'caught' and re.search(a.only, m['file'])]
random.Random(a.seed).shuffle(ms); ms = ms[:a.n]
q = queue.Queue(); [q.put(m) for m in ms]; lock = threading.Lock(); out = open(a.out, 'a'); cnt = {}
def worker():
    d = tempfile.mkdtemp(prefix='mut'); subprocess.run(['cp', '-a', '/repo/.', d])
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        p = d + '/' + m['file']; src = open(p, 'rb').read()
        open(p, 'wb').write(src[:m['from']] + m['new'].encode() + src[m['to']:])
        r = 'NONE'
        for pr in props(m['file']).split():
            e = dict(os.environ, GOVC_NOPROOF='1', GOVC_REPO=d, GOVC_EVID=d + '/.ev', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOMAXPROCS='3')
            try: o = subprocess.run(['/tmp/govc-np', 'check', pr, 'quick'], env=e, capture_output=True, text=True, timeout=500).stdout
            except subprocess.TimeoutExpired: o = 'timeout no-failing-input-found VIOLATION'
            v = [l for l in o.split('\n') if l.startswith('VIOLATION')]
            if v and 'no-failing' not in v[0]: r = pr; break
        open(p, 'wb').write(src)
        with lock:
            cnt[r] = cnt.get(r, 0) + 1
            out.write('%s %s:%d %s %r -> %r | %s\n' % (r, m['file'], m['line'], m['op'], m['old'][:150], m['new'][:150], m.get('why', '')[:100])); out.flush()
    shutil.rmtree(d, True)
ts = [threading.Thread(target=worker) for _ in range(a.j)]; [t.start() for t in ts]; [t.join() for t in ts]; print(cnt)
