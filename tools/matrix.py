#!/usr/bin/env python3
"""Applies each planted change of /verif/seeded in turn to a copy of the repository, and runs the quick check of its
property (or the checks given with -p) in a copy of /verif bound to that copy.  Prints what was caught.
   matrix.py [-p C01,C02|all] [-j workers] [id ...]        Not used by any check."""
import json, os, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
props, jobs = None, 2
while args[:1] in (['-p'], ['-j']):
    if args[0] == '-p':
        props = args[1].split(',')
    else:
        jobs = int(args[1])
    args = args[2:]
man = json.load(open(f'{HERE}/MANIFEST.json'))
if props == ['all']:
    props = sorted(c.get('property_id') or c.get('property') for c in man['checks'])
TOP = '/tmp/mx'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def prepare(k):
    d = f'{TOP}/{k}'
    if not os.path.exists(d):
        os.makedirs(d)
        sh(f'cd /repo && git archive HEAD | tar x -C {d} --one-top-level=repo')
        sh(f'cd {d}/repo && git init -q . && git add -A && git -c user.email=a@b -c user.name=a commit -qm x')
    sh(f'mkdir -p {d}/verif; rsync -a --delete --exclude .build --exclude seeded --exclude .git --exclude evidence --exclude harness/Cargo.toml --exclude tools/vlib.py {HERE}/ {d}/verif/')
    for f in ('tools/vlib.py', 'harness/Cargo.toml'):
        t = open(f'{HERE}/{f}').read().replace("'/repo'", f"'{d}/repo'").replace('"/repo/', f'"{d}/repo/')
        open(f'{d}/verif/{f}', 'w').write(t)
    return d


todo = [b for b in sorted(os.listdir(f'{HERE}/seeded')) if not args or b in args]
lock = threading.Lock()
it = iter(todo)


def run(k):
    d = prepare(k)
    while True:
        with lock:
            b = next(it, None)
        if b is None:
            return
        meta = json.load(open(f'{HERE}/seeded/{b}/meta.json'))
        sh(f'git -C {d}/repo checkout -q -- .')
        if sh(f'git -C {d}/repo apply {HERE}/seeded/{b}/patch.diff').returncode:
            print(b, 'does not apply', flush=True)
            continue
        out = []
        for p in props or [meta['property']]:
            t = time.time()
            r = sh(f'python3 tools/check.py {p} quick', cwd=f'{d}/verif', env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
            hit = any(l.startswith(f'VIOLATION property={p} ') for l in r.stdout.splitlines())
            s = 'CAUGHT' if r.returncode == 1 and hit else 'missed' if r.returncode == 0 else f'?? rc={r.returncode} {r.stdout[-300:]} {r.stderr[-300:]}'
            if props is None or s != 'missed':
                out.append(f'{p}:{s} {time.time() - t:.0f}s')
        print(b, 'own=' + meta['property'], ' '.join(out), flush=True)
        sh(f'git -C {d}/repo checkout -q -- .')


th = [threading.Thread(target=run, args=(k,)) for k in range(min(jobs, len(todo)))]
[t.start() for t in th]
[t.join() for t in th]
