#!/usr/bin/env python3
"""usage: run.py OUT.jsonl FRACTION FILE...   (files relative to /repo)
Systematic mutation campaign: every mutant is built in a scratch copy and given to the checks of its file, which stop
at the first violation. Mutants no check catches are run through the stable tests; what survives both is what to look at.
The checks run the code as an unprivileged user with a scratch directory only."""
import sys, os, subprocess, shutil, json, random, threading, queue, hashlib
here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
out, frac, files = sys.argv[1], float(sys.argv[2]), sys.argv[3:]
PROPS = {
 'slicer/': 'C01 C02 C18 C21', 'optimizer/': 'C13 C21 C01 C18', 'reader/': 'C14 C15 C21 C18', 'writer/': 'C15', 'cmd/': 'C15 C17',
 'goslice.go': 'C23 C18 C15 C10 C09 C11', 'clip/clip.go': 'C19 C08 C01 C04 C12 C11 C09 C18', 'clip/linear.go': 'C10 C09 C11 C18',
 'data/option.go': 'C24 C17 C06', 'data/micrometer.go': 'C25 C13 C24 C10', 'data/2d.go': 'C25 C20 C01', 'data/layer.go': 'C25 C20 C23 C01 C21 C10', 'data/': 'C25 C23 C13',
 'gcode/builder.go': 'C03 C04 C05 C02 C20 C06', 'gcode/generator.go': 'C23 C02', 'gcode/renderer/layer.go': 'C06 C07 C05 C03 C02', 'gcode/renderer/perimeter.go': 'C08 C05 C04',
 'gcode/renderer/infill.go': 'C09 C10 C11 C04', 'gcode/renderer/': 'C12 C18', 'modifier/perimeter.go': 'C08 C09 C18', 'modifier/infill.go': 'C09 C18', 'modifier/internal_infill.go': 'C09 C10 C18',
 'modifier/brim.go': 'C12 C11 C18', 'modifier/support.go': 'C11 C18', 'modifier/': 'C23', 'handler/': 'C23',
}
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
env = dict(os.environ, GOFLAGS='-mod=readonly', GOPROXY='off', GOTOOLCHAIN='local', VERIF_TIER='quick', VERIF_SEED='1', VMON_STOP='1')
subprocess.run(['go', 'build', '-o', '/tmp/automut.bin', '.'], cwd=here + '/tools/automut', env=dict(env, GO111MODULE='off', GOFLAGS=''), check=True)
ms = [json.loads(l) for l in subprocess.run(['/tmp/automut.bin'] + files, cwd='/repo', capture_output=True, text=True, check=True).stdout.splitlines()]
ms = [m for m in ms if m['desc'] != 'noop']
done = set()
if os.path.exists(out):
    for l in open(out):
        d = json.loads(l); done.add((d['file'], d['start'], d['end'], d['new']))
def h(m): return int(hashlib.sha1(json.dumps([m['file'], m['start'], m['new']]).encode()).hexdigest()[:8], 16) / 2**32
ms = [m for m in ms if h(m) < frac and (m['file'], m['start'], m['end'], m['new']) not in done]
print(len(ms), 'mutants', flush=True)
random.Random(1).shuffle(ms)
q = queue.Queue()
for m in ms: q.put(m)
lock = threading.Lock()
stats = {}
def sh(cmd, cwd, timeout=1500):
    p = subprocess.run(cmd, cwd=cwd, shell=True, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)
    return p.returncode, p.stdout
def worker(k):
    d = f'/tmp/mut/auto{k}'
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
    shutil.copytree(here + '/harness', d + '/harness'); shutil.copy(here + '/known_findings.txt', d)
    s = open(d + '/harness/go.mod').read().replace('=> /repo', f'=> {d}/repo'); open(d + '/harness/go.mod', 'w').write(s)
    open(f'{d}/test.sh', 'w').write(open('/opt/vp/test.sh').read().replace('/repo', f'{d}/repo'))
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        p = d + '/repo/' + m['file']
        src = open('/repo/' + m['file'], 'rb').read()
        open(p, 'wb').write(src[:m['start']] + m['new'].encode() + src[m['end']:])
        res = ''
        try:
            rc, o = sh('go build ./... && go vet ./' + (os.path.dirname(m['file']) or '.') + ' >/dev/null; go build ./...', d + '/repo')
            if rc: res = 'nobuild'
            else:
                rc, o = sh(f'go build -o {d}/vmon . && cd {d}/repo && go build -o {d}/goslice ./cmd/goslice', d + '/harness')
                if rc: res = 'nobuild'
            if not res:
                pr = next(v for kk, v in PROPS.items() if m['file'].startswith(kk))
                rcs = []
                for pp in ['0.1 ' + x for x in pr.split()] + ['1 ' + x for x in pr.split()]:
                    scale, pp = pp.split()
                    rc, o = sh(('VMON_SCALE=0.1 ' if scale != '1' else '') + f'VMON_CLI={d}/goslice {d}/vmon run {pp} {d}', d)
                    if rc == 1: res = 'caught ' + pp + (' late' if scale == '1' else ''); break
                    if rc: rcs.append(f'{pp}:rc{rc}')
                if not res:
                    sh(f'bash {d}/test.sh {d}/out.json', d + '/repo')
                    try: passed = set(json.load(open(d + '/out.json'))['passed'])
                    except Exception: passed = set()
                    res = ('tests' if stable - passed else 'SURVIVED') + ' ' + ' '.join(rcs)
        except subprocess.TimeoutExpired:
            res = 'timeout'
        open(p, 'wb').write(src)
        m['res'] = res
        with lock:
            stats[res.split()[0]] = stats.get(res.split()[0], 0) + 1
            open(out, 'a').write(json.dumps(m) + '\n')
            if not res.startswith(('caught', 'nobuild')): print(res, m['file'], m['line'], m['desc'][:100], '=>', m['new'][:60].replace('\n', ' '), flush=True)
    shutil.rmtree(d, ignore_errors=True)
ts = [threading.Thread(target=worker, args=(k,)) for k in range(int(os.environ.get('J', '4')))]
[t.start() for t in ts]; [t.join() for t in ts]
print(stats)
