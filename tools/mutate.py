#!/usr/bin/env python3
"""Mechanical changes to the code under test, in scratch copies under /tmp/mt: which of them compile and pass the
stable tests (stage 1), and which of those no check reports (stage 2).  Not used by any check.

  mutate.py list | stage1 [workers] | stage2 [workers] | show
"""
import json, os, random, re, shutil, signal, subprocess, sys, threading

TOP = '/tmp/mt'
PROPS = [
    ('vsri/src/lib.rs', 'C15 C17 C18 C16 C19 C26 C32 C23'), ('wavbrro/src/', 'C14 C24 C20 C30'),
    ('atsc/src/header.rs', 'C11 C10 C09'), ('atsc/src/lib.rs', 'C10'), ('atsc/src/data.rs', 'C09 C11 C10 C03 C07'),
    ('atsc/src/frame/', 'C09 C10 C07 C35 C01 C05 C02 C13'), ('atsc/src/compressor/polynomial.rs', 'C37 C02 C01 C13 C10 C06 C07 C03'),
    ('atsc/src/compressor/fft.rs', 'C36 C37 C06 C13 C10 C01 C03 C12 C07'), ('atsc/src/compressor/rle.rs', 'C04 C10 C06'),
    ('atsc/src/compressor/constant.rs', 'C05 C10 C02 C20'), ('atsc/src/compressor/noop.rs', 'C05 C10'), ('atsc/src/compressor/mod.rs', 'C10 C20 C05 C09 C06'),
    ('atsc/src/optimizer/', 'C08 C07 C03 C10 C05'), ('atsc/src/utils/error.rs', 'C33 C06 C01'), ('atsc/src/utils/mod.rs', 'C06 C03 C10 C08'),
    ('atsc/src/utils/readers', 'C11 C20 C21'), ('atsc/src/csv.rs', 'C22 C30'), ('atsc/src/main.rs', 'C20 C28 C22 C21 C24 C31 C11 C30'),
    ('csv-compressor/', 'C23 C27 C28 C24 C30'), ('tools/', 'C25 C30'),
]
FILES = ['vsri/src/lib.rs', 'wavbrro/src/read.rs', 'wavbrro/src/write.rs', 'wavbrro/src/wavbrro.rs', 'atsc/src/header.rs', 'atsc/src/data.rs', 'atsc/src/frame/mod.rs',
         'atsc/src/compressor/polynomial.rs', 'atsc/src/compressor/fft.rs', 'atsc/src/compressor/rle.rs', 'atsc/src/compressor/constant.rs', 'atsc/src/compressor/noop.rs',
         'atsc/src/compressor/mod.rs', 'atsc/src/optimizer/mod.rs', 'atsc/src/optimizer/utils.rs', 'atsc/src/utils/error.rs', 'atsc/src/utils/mod.rs',
         'atsc/src/utils/readers/bro_reader.rs', 'atsc/src/csv.rs', 'atsc/src/main.rs', 'csv-compressor/src/metric.rs', 'csv-compressor/src/csv.rs', 'csv-compressor/src/main.rs', 'tools/src/bin/wav2wbro.rs']
OPS = [(r' < ', [' <= ', ' > ']), (r' <= ', [' < ']), (r' > ', [' >= ', ' < ']), (r' >= ', [' > ']), (r' == ', [' != ']), (r' != ', [' == ']),
       (r' \+ 1\b', ['', ' + 2']), (r' - 1\b', ['', ' - 2']), (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' / ']), (r' / ', [' * ']), (r' % ', [' / ']),
       (r' && ', [' || ']), (r' \|\| ', [' && ']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\.min\(', ['.max(']), (r'\.max\(', ['.min(']),
       (r' \+= ', [' -= ']), (r' -= ', [' += ']), (r'\bas u64\b', ['as u16 as u64']), (r'\bas usize\b', ['as u8 as usize']), (r'\bas u32\b', ['as u16 as u32']),
       (r'\bas i32\b', ['as i16 as i32']), (r'\bas f64\b', ['as f32 as f64']), (r'\bu64\b', ['u32']), (r'\bi64\b', ['i32']), (r'\.abs\(\)', ['']), (r'\.round\(\)', ['.floor()', '']),
       (r'\.is_empty\(\)', ['.len() == 1']), (r'\?;', ['.ok();']), (r'\.rev\(\)', ['']), (r'\.\.=', ['..']), (r'\bNone\b', ['Default::default()']), (r'\bbreak\b', ['continue']), (r'\bcontinue\b', ['break']),
       (r'\bif ', ['if true || ', 'if false && ']), (r'!(?=[a-z(])', ['']), (r'f64::EPSILON', ['1e-9']), (r'\.ceil\(\)', ['.floor()']), (r'\.floor\(\)', ['.ceil()']), (r'\.sqrt\(\)', [''])]
NUM = r'(?<![\w.])(\d+)(?![\w.]*[\w])'


def mutants():
    out = []
    for f in FILES:
        lines = open('/repo/' + f).read().split('\n')
        for n, l in enumerate(lines):
            if '#[cfg(test)]' in l:
                break
            s = l.strip()
            if not s or s.startswith(('//', '#', 'use ', 'pub mod', 'mod ', '*', '/*')) or re.search(r'\b(debug|info|trace|warn|error|println|eprintln|write|panic|format)!', s) or '#[' in s:
                continue
            code = l.split(' //')[0]
            seen = set()
            for pat, reps in OPS:
                if pat in (r'\bu64\b', r'\bi64\b') and ' as ' in code:
                    continue
                if pat == r'!(?=[a-z(])' and re.search(r'\w!', code):
                    continue
                if pat == r'\bif ' and 'if let' in code:
                    continue
                for m in re.finditer(pat, code):
                    for x in reps:
                        seen.add(code[:m.start()] + x + code[m.end():])
            for m in re.finditer(NUM, code):
                v = int(m.group(1))
                for x in {v + 1, v - 1 if v else 1}:
                    seen.add(code[:m.start()] + str(x) + code[m.end():])
            if re.match(r'^[a-z_.]+(\(|\.|\[| [+-]?= ).*;$', s) and not s.startswith(('let ', 'return', 'break', 'continue')):
                seen.add('')
            for x in sorted(seen):
                if x != code:
                    out.append({'file': f, 'line': n + 1, 'old': l, 'new': x})
    for k, m in enumerate(out):
        m['id'] = k
    return out


def sh(cmd, t=300, **kw):
    p = subprocess.Popen('ulimit -Sv 2500000; ' + cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True, **kw)
    try:
        o, e = p.communicate(timeout=t)
        return subprocess.CompletedProcess(cmd, p.returncode, o, e)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return subprocess.CompletedProcess(cmd, 124, '', '')


def prepare(k, verif=False):
    d = f'{TOP}/w{k}'
    os.makedirs(d, exist_ok=True)
    if not os.path.isdir(d + '/repo'):
        sh(f'cp -a /repo {d}/repo')
    sh(f'git -C {d}/repo checkout -q -- . ; git -C {d}/repo fetch -q /repo HEAD && git -C {d}/repo reset -q --hard FETCH_HEAD')
    for s in ('build', 'test'):
        open(f'{d}/{s}.sh', 'w').write(open(f'/opt/vp/{s}.sh').read().replace('cd /repo', f'cd {d}/repo'))
    if verif:
        sh(f'mkdir -p {d}/verif; rsync -a --delete --exclude .build --exclude seeded --exclude .git --exclude evidence /verif/ {d}/verif/ || (cp -a /verif/. {d}/verif/)')
        for f in ('tools/vlib.py', 'harness/Cargo.toml'):
            p = f'{d}/verif/{f}'
            t = open(p).read().replace("'/repo'", f"'{d}/repo'").replace('"/repo/', f'"{d}/repo/')
            open(p, 'w').write(t)
    return d


def put(d, m):
    p = f"{d}/repo/{m['file']}"
    lines = open('/repo/' + m['file']).read().split('\n')
    assert lines[m['line'] - 1] == m['old']
    lines[m['line'] - 1] = m['new']
    open(p, 'w').write('\n'.join(lines))


def undo(d, m):
    shutil.copyfile('/repo/' + m['file'], f"{d}/repo/{m['file']}")


def work(todo, workers, fn, log, verif):
    lock = threading.Lock()
    it = iter(todo)

    def run(k):
        d = prepare(k, verif)
        while True:
            with lock:
                m = next(it, None)
            if m is None:
                return
            try:
                put(d, m)
                r = fn(d, m)
            except Exception as e:
                r = {'error': str(e)}
            undo(d, m)
            with lock:
                with open(log, 'a') as o:
                    o.write(json.dumps(dict(m, **r)) + '\n')
    th = [threading.Thread(target=run, args=(k,)) for k in range(workers)]
    [t.start() for t in th]
    [t.join() for t in th]


def stage1(d, m):
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    r = sh(f'bash {d}/test.sh {d}/t.json', 90)
    if r.returncode == 124:
        return {'s1': 'tests'}
    try:
        passed = set(json.load(open(f'{d}/t.json')).get('passed', []))
    except Exception:
        return {'s1': 'tests'}
    return {'s1': 'tests' if set(stable) - passed else 'alive'}


def stage2(d, m):
    res = {}
    props = next(p for f, p in PROPS if m['file'].startswith(f)).split()
    for p in props:
        r = sh(f'ulimit -Sv unlimited; python3 tools/check.py {p} quick', 900, cwd=f'{d}/verif', env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
        res[p] = r.returncode
        if r.returncode == 1:
            why = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            return {'s2': p, 'res': res, 'why': why[:1]}
        if r.returncode:
            res[p] = r.stdout[-300:] + r.stderr[-300:]
    return {'s2': 'SURVIVES', 'res': res}


def rows(f):
    return [json.loads(l) for l in open(f)] if os.path.exists(f) else []


if __name__ == '__main__':
    cmd = sys.argv[1]
    n = int(sys.argv[2]) if len(sys.argv) > 2 else 4
    ms = mutants()
    if cmd == 'list':
        from collections import Counter
        print(len(ms), Counter(m['file'] for m in ms))
    key = lambda m: (m['file'], m['line'], m['new'])
    if cmd == 'stage1':
        done = {key(m) for m in rows(TOP + '/s1')}
        todo = [m for m in ms if key(m) not in done]
        random.Random(7).shuffle(todo)
        work(todo, n, stage1, TOP + '/s1', False)
    if cmd == 'stage2':
        done = {key(m) for m in rows(TOP + '/s2')}
        while True:
            todo = [m for m in rows(TOP + '/s1') if m.get('s1') == 'alive' and key(m) not in done and (len(sys.argv) < 4 or re.search(sys.argv[3], m['file']))]
            random.Random(3).shuffle(todo)
            todo = todo[:2 * n]
            if not todo:
                break
            for m in todo:
                done.add(key(m))
            work(todo, n, stage2, TOP + '/s2', True)
    if cmd == 'show':
        for m in rows(TOP + '/s2'):
            if m.get('s2') == 'SURVIVES' or 'error' in m:
                print(m['file'], m['line'], '\n   -', m['old'].strip(), '\n   +', m['new'].strip(), {k: str(v)[-80:] for k, v in m.get('res', {}).items() if v}, m.get('error', '')[:100])
