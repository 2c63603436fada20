#!/usr/bin/env python3
"""usage: mutate.py LIST.py [ID...]
Tries changes to the code: LIST.py defines M = [(id, "C01 C02", file, old, new), ...]  (old occurs once in file;
file, old and new may be lists of the same length). Every change is made in a copy of /repo under /tmp/mut, must build and pass the stable tests,
and is then given to the checks of the named properties (one after another until one catches it, or all with ALL=1)."""
import sys, os, subprocess, shutil, json, re, concurrent.futures as cf
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
g = {}
exec(open(sys.argv[1]).read(), g)
want = sys.argv[2:]
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
env = dict(os.environ, GOFLAGS='-mod=readonly', GOPROXY='off', GOTOOLCHAIN='local', VERIF_TIER='quick')
env.setdefault('VERIF_SEED', '1')
env['VMON_STOP'] = '1'

def sh(cmd, cwd, timeout=1200, e=env):
    p = subprocess.run(cmd, cwd=cwd, shell=True, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)
    return p.returncode, p.stdout

def run(m):
    mid, props, files, olds, news = m
    if isinstance(files, str): files = [files]
    if isinstance(olds, str): olds, news = [olds], [news]
    if len(files) == 1: files = files * len(olds)
    d = '/tmp/mut/' + mid
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    out = [f'{mid}:']
    try:
        subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
        for f, o, n in zip(files, olds, news):
            p = d + '/repo/' + f
            s = open(p).read()
            if s.count(o) != 1:
                return f'{mid}: BAD PATTERN ({s.count(o)}) {o[:60]!r}'
            open(p, 'w').write(s.replace(o, n))
        rc, o = sh('gofmt -l . ; go build ./... ', d + '/repo')
        if rc: return f'{mid}: DOES NOT BUILD {o[:300]}'
        sh(f"sed 's#/repo#{d}/repo#g' /opt/vp/test.sh > {d}/test.sh; bash {d}/test.sh {d}/out.json", d + '/repo')
        try: passed = set(json.load(open(d + '/out.json'))['passed'])
        except Exception as ex: passed = set(); out.append(str(ex))
        missing = sorted(stable - passed)
        if missing: out.append('TESTS FAIL ' + ' '.join(x.split('/')[-1] for x in missing)[:120])
        shutil.copytree(here + '/harness', d + '/harness')
        shutil.copy(here + '/known_findings.txt', d)
        s = open(d + '/harness/go.mod').read().replace('=> /repo', f'=> {d}/repo')
        open(d + '/harness/go.mod', 'w').write(s)
        sh(f'go build -o {d}/goslice ./cmd/goslice', d + '/repo')
        e = dict(env, VMON_CLI=d + '/goslice')
        for p in props.split():
            race = '-race' if p == 'C16' else ''
            rc, o = sh(f'CGO_ENABLED=1 go build {race} -o {d}/vmon .', d + '/harness')
            if rc: return f'{mid}: harness does not build {o[:300]}'
            rc, o = sh(f'{d}/vmon run {p} {d}', d, e=e)
            v = [l for l in o.split('\n') if 'VIOLATION' in l or 'signature' in l or l.startswith('  ')]
            out.append(f'{p}={"caught" if rc == 1 else "MISSED" if rc == 0 else "rc%d" % rc}')
            if rc == 1:
                fl = [l for l in o.split('\n') if l.strip()]
                out.append('   ' + ' | '.join(x.strip()[:140] for x in fl[:2]))
                if not os.environ.get('ALL'): break
            elif rc: out.append(o[-300:])
    except Exception as ex:
        out.append('ERR ' + repr(ex)[:300])
    finally:
        if not os.environ.get('KEEP'): shutil.rmtree(d, ignore_errors=True)
    return '\n  '.join(out)

ms = [m for m in g['M'] if not want or m[0] in want]
with cf.ThreadPoolExecutor(int(os.environ.get('J', '3'))) as ex:
    for r in ex.map(run, ms):
        print(r, flush=True)
