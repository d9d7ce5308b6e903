#!/usr/bin/env python3
# usage: automut.py OUT [JOBS [FILE...]]   mechanical changes of /repo, each tried with every check
# (few runs); appends one line per change to OUT.  Run it from a copy of /verif.
import sys, os, json, subprocess, shutil, tempfile, re
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = sys.argv[1]; jobs = int(sys.argv[2]) if len(sys.argv) > 2 else 6; files = sys.argv[3:]
env = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'], GO111MODULE='on', GOTOOLCHAIN='local', GOWORK='off', GOPROXY='off', GOFLAGS='-mod=mod', GOMAXPROCS='3')
def sh(cmd, cwd=None, env=env, t=600):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=t)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 99, 'timeout'
RUNS = dict(C01=4000, C02=4000, C03=2500, C04=6000, C05=4000, C06=5000, C07=6000, C08=4000, C09=2500, C10=3000, C11=6000, C12=2500, C13=9000, C14=1500, C15=8000, C16=6000, C17=6000, C18=15000, C19=1500, C20=15000, C21=700, C22=6000, C26=900, C27=400)
first = {'connector.go': 'C01 C02 C03 C04 C06 C07 C08', 'listener.go': 'C09 C10 C11 C13 C12', 'transport.go': 'C09 C01 C12', 'message.go': 'C16 C15 C17 C18', 'message-immutable.go': 'C12 C09',
  'channel.go': 'C15 C16', 'syslog.go': 'C15 C16', 'connector-tcp.go': 'C19 C21', 'connector-local.go': 'C26', 'connector-local_unix.go': 'C26', 'listener-tcp.go': 'C10 C13 C11', 'listener-unix.go': 'C20', 'listener-unixdgram.go': 'C20 C10 C11', 'dialer.go': 'C08 C21'}
done = set()
if os.path.exists(out):
    done = {l.split('\t')[1] for l in open(out)}
rc, o = sh('go run . /repo', here+'/tools/automut')
if rc: sys.exit(o)
base = json.load(open('/opt/vp/BASELINE.json')); want = base.get('passed') or base.get('tests') or base.get('stable')
def one(k, e):
    key = '%s:%d:%d %s' % (e['File'], e['Line'], e['Off'], e['What'])
    key = key.replace('\t', ' ')
    if key in done: return
    w = tempfile.mkdtemp(prefix='am.', dir='/tmp')
    try:
        shutil.copytree('/repo', w+'/repo', ignore=shutil.ignore_patterns('.git'))
        p = w+'/repo/'+e['File']; b = open(p, 'rb').read()
        b = b[:e['Off']] + e['New'].encode() + b[e['Off']+e['Len']:]
        open(p, 'wb').write(b)
        rc, o = sh('go build ./...', w+'/repo')
        if rc: return rep('nobuild', key, '')
        rc, o = sh('%s/check.sh --build %s/simrun' % (here, w), env=dict(env, SIM_REPO=w+'/repo'))
        if rc: return rep('noinstr', key, o[-300:])
        f = first.get(e['File'], 'C15 C12 C22 C16').split()
        for p in f + [x for x in sorted(RUNS) if x not in f]:
            rc, o = sh('%s/simrun check -prop %s -tier quick -seed 1 -workers 1 -runs %d -budget 60s -evidence %s/e.json -replays %s -known %s/known_findings.jsonl' % (w, p, RUNS[p], w, w, here), t=300)
            if rc: 
                v = [l for l in o.splitlines() if l.startswith(p+':')]
                return rep('caught' if rc == 1 else 'rc%d' % rc, key, p + ' ' + (v[0] if v else o[-200:])[:160])
        s = open('/opt/vp/test.sh').read().replace('/repo', w+'/repo'); open(w+'/test.sh', 'w').write(s)
        sh('bash %s/test.sh %s/t.json' % (w, w), t=300)
        r = json.load(open(w+'/t.json'))
        miss = [x for x in want if x not in r['passed']]
        rep('SURVIVED' if not miss else 'tests', key, ' '.join(miss)[:100])
    except Exception as x:
        rep('error', key, repr(x))
    finally:
        shutil.rmtree(w, ignore_errors=True)
def rep(what, key, txt):
    with open(out, 'a') as f: f.write('%s\t%s\t%s\n' % (what, key, txt.replace('\n', ' | ').replace('\t', ' ')))
with ThreadPoolExecutor(jobs) as ex:
    for k, l in enumerate(o.splitlines()):
        e = json.loads(l)
        if files and e['File'] not in files: continue
        ex.submit(one, k, e)
