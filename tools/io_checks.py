"""Commands under a system that delivers files in pieces, fails or kills (C30), and commands at the same time (C29)."""
import os, random, shutil, subprocess, tempfile, threading, time
import gen, vlib
import cli_checks as cl
import csv_checks as cv
import tool_checks as tc
from cli_checks import Contents, codes, parallel, put_tree, shown, snapshot
from codec_checks import rng, scale
from vlib import BIN

_SHIM = {}


def shim():
    """the preloaded library, built for this run"""
    if 'so' not in _SHIM:
        d = tempfile.mkdtemp(prefix='shim-')
        so = os.path.join(d, 'shim.so')
        p = subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', so, os.path.join(vlib.VERIF, 'shim', 'shim.c'), '-ldl'], capture_output=True, text=True)
        if p.returncode:
            shutil.rmtree(d)
            raise vlib.ToolError('shim: ' + p.stderr)
        _SHIM.update(so=so, dir=d)
        import atexit
        atexit.register(shutil.rmtree, d, True)
    return _SHIM['so']


def shim_env(root, **kw):
    return dict({'PATH': '/usr/bin:/bin', 'HOME': root, 'RUST_LOG': 'off', 'TZ': vlib.ZONE, 'LD_PRELOAD': shim(), 'SHIM_ROOT': root}, **kw)


def shim_cmd(args, root, plan, log=None, timeout=60):
    env = shim_env(root, SHIM_PLAN=plan)
    if log:
        env['SHIM_LOG'] = log
    try:
        p = subprocess.run(['prlimit', '--as=%d' % (2 << 30), os.path.join(BIN, args[0])] + args[1:], cwd=root, env=env, stdin=subprocess.DEVNULL,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=timeout)
        return vlib.started(p)
    except subprocess.TimeoutExpired:
        return 1000


def jobs(r, n):
    """commands by what they need and what they write: (tree, args, names of the outputs)"""
    s = lambda f, k=n: gen.hexs(gen.series(r, f, k, 1e30))
    raw = cl.wbro_bytes([s('walk'), s('runs'), s('twoparts')])
    bro = cl.bro_bytes([('auto', 3, 0, s('walk')), ('polynomial', 0, 0, s('metric')), ('noop', 0, 0, s('smallint'))])
    rows = [tc.rows_of(r, n) for _ in range(3)]
    plain = '\n'.join(['time,value'] + ['%d,%d' % (k, k * k % 11) for k in range(n)]).encode()
    w = cv.wav(4, [gen.words('%016x' % gen.bits(k / 8))[0] for k in range(n)])
    tool = ['csv-compressor', '--output-vsri', '--output-wavbrro']
    return [
        ({'x.wbro': raw[0]}, ['atsc', 'x.wbro'], ['x.bro']),
        ({'x.wbro': raw[1]}, ['atsc', '--compressor', 'rle', 'x.wbro'], ['x.bro']),
        ({'x.wbro': raw[2]}, ['atsc', '--compressor', 'polynomial', '-e', '0', 'x.wbro'], ['x.bro']),
        ({'x.bro': bro[0]}, ['atsc', '-u', 'x.bro'], ['x.wbro']),
        ({'x.bro': bro[1]}, ['atsc', '-u', 'x.bro'], ['x.wbro']),
        ({'x.csv': plain}, ['atsc', '--csv', 'x.csv'], ['x.bro']),
        ({'x.csv': b'\n'.join(b'%d.5' % (k % 9) for k in range(n))}, ['atsc', '--csv', '--no-header', 'x.csv'], ['x.bro']),
        ({'x.csv': rows[0]}, tool + ['x.csv'], ['x.bro', 'x.vsri', 'x.wavbro']),
        ({'x.csv': rows[1]}, ['csv-compressor', '-o', 'o.any', '-e', '0', 'x.csv'], ['o.bro']),
        ({'x.wav': w}, ['wav2wbro', 'x.wav'], ['x.wbro']),
    ], [({'x.csv': rows[2]}, ['csv-compressor', '--output-vsri', '-o', 'y', 'x.csv'], ['csv-compressor', '-u', 'y.bro'], ['y.wbro', 'y.csv'])], [
        ({'d/a.wbro': raw[0], 'd/b.wbro': raw[1], 'd/c.txt': b'no', 'e/x': b'other'}, ['atsc', 'd'], ['d/a.bro', 'd/b.bro']),
        ({'d/a.bro': bro[0], 'd/b.bro': bro[1], 'd/c.txt': b'no', 'e/x': b'other'}, ['atsc', '-u', 'd'], ['d/a.wbro', 'd/b.wbro']),
    ]


def prepared(r, n):
    """all commands with their trees; whether a failing file ends the command"""
    one, two, dirs = jobs(r, n)
    out = [(t, a, o, True) for t, a, o in one] + [(t, a, o, False) for t, a, o in dirs]
    for t, before, a, o in two:
        root = tempfile.mkdtemp(prefix='io-')
        try:
            put_tree(root, t)
            if shim_cmd(before, root, ''):
                continue
            tree = {}
            for d, _, fs in os.walk(root):
                for x in fs:
                    p = os.path.join(d, x)
                    tree[os.path.relpath(p, root)] = open(p, 'rb').read()
            out.append((tree, a, o, True))
        finally:
            shutil.rmtree(root)
    return out


def c30_events(cases, r):
    """case: (tree, args, outputs, plan, older)"""
    con = Contents()
    top = tempfile.mkdtemp(prefix='iolog-')

    def one(k):
        tree, args, outs, plan, older = cases[k]
        root = tempfile.mkdtemp(prefix='io-')
        try:
            put_tree(root, tree)
            for o in outs:
                if older:
                    put_tree(root, {o: b'older' * older})
            init = snapshot(root, con)
            log = '%s/%d' % (top, k)
            rc = shim_cmd(args, root, plan, log)
            names = {}
            for x in plan.split(','):
                c, a = x.split(':')
                names[c] = a if not a.isdigit() else 'fail'
            acts, lost = [], False
            if os.path.exists(log):
                for l in open(log):
                    c, kind, n, a = l.split()
                    if a != '0':
                        acts.append(names.get(c, names.get('*')))
                        lost |= kind.startswith('dir') and acts[-1] == 'fail'
                os.remove(log)
            res = {'rc': rc, 'init': init, 'fs': snapshot(root, con), 'acts': sorted(set(acts)), 'lost': lost}
            if rc:
                res['rc2'] = shim_cmd(args, root, '')
                res['fs2'] = snapshot(root, con)
            return res
        finally:
            shutil.rmtree(root)
    try:
        runs = parallel(one, range(len(cases)))
    finally:
        shutil.rmtree(top)
    return [(x, res) for x, res in zip(cases, runs)], con


def plan_of(p, r):
    err = lambda: r.choice(['5', '28', '13', '122'])
    return ','.join('%d:%s' % (x['call'], err() if x['act'] == 'fail' else x['act']) for x in p)


def c30(c):
    r = rng('C30')
    m = c.spec('IoFaults', 'IoFaults', consts=scale(None, {'Calls': '10'}))
    c.exhaustive.append('all answers of the system in IoFaults')
    m = c.spec('FaultPlans', 'FaultPlans', consts=scale(None, {'Calls': '40'}))
    single = [p for p in m.prints if len(p) == 1]
    double = [p for p in m.prints if len(p) == 2]
    c.exhaustive.append('every single fault at each of the first %d calls of every command' % scale(24, 40))
    for n in scale([40, 1500], [0, 1, 40, 700, 1500, 5000]):
        cmds = prepared(r, n)
        todo, plain, of_dirs = [], [], set()
        for tree, args, outs, ends in cmds:
            plain.append((tree, args, outs, '0:full', 0))
            plans = ['*:one', '*:short'] if n <= 1500 else ['*:short']
            ok = lambda p: ends or all(x['act'] in ('short', 'one', 'kill') for x in p)
            plans += [plan_of(p, r) for p in single if ok(p) or p[0]['act'] == 'fail']
            d = [p for p in double if ok(p)]
            plans += [plan_of(p, r) for p in r.sample(d, min(len(d), scale(110, 1500)))]
            todo += [(tree, args, outs, p, r.choice([0, 0, 1, 5000])) for p in plans]
            of_dirs |= set() if ends else {id(tree)}
        # what the outputs are when nothing is in the way
        done, con = c30_events(plain, r)
        full = {}
        for x, res in done:
            at = {bytes(a).decode(): t for a, t in res['fs']}
            if res['rc'] or any(o not in at for o in x[2]):
                c.notes.append('%s fails by itself' % ' '.join(x[1]))
            else:
                full[id(x[0]), tuple(x[1])] = [[codes(o), at[o]] for o in x[2]]
        todo = [x for x in todo if (id(x[0]), tuple(x[1])) in full]
        done, _ = c30_events(todo, r)
        evs = []
        for x, res in done:
            if id(x[0]) in of_dirs and 'fail' in res['acts'] and not res['lost']:
                continue                         # a file of a directory fails: reported in the log only
            res['full'] = full[id(x[0]), tuple(x[1])]
            res['case'] = {'args': x[1], 'plan': x[3], 'older': x[4], 'tree': {k: b[:400].hex() for k, b in x[0].items()}}
            evs.append(res)
        c.validate('IoTrace', evs, 'files of %d samples' % n)


# ------------------------------------------------------------------ at the same time (C29)

def interleave(root, cmds, turns, grain):
    """Runs commands at the same time; turns says whose file-related calls come next, the rest come as they may. Gives the statuses."""
    import select
    procs, req, grant, state = [], [], [], []
    try:
        for a in cmds:
            r0, r1 = os.pipe()
            g0, g1 = os.pipe()
            env = shim_env(root, SHIM_REQ=str(r1), SHIM_GRANT=str(g0))
            procs.append(subprocess.Popen(['prlimit', '--as=%d' % (2 << 30), os.path.join(BIN, a[0])] + a[1:], cwd=root, env=env, pass_fds=(r1, g0),
                                          stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
            os.close(r1)
            os.close(g0)
            req.append(r0)
            grant.append(g1)
            state.append('running')

        def look(q, t):
            if state[q] == 'running' and select.select([req[q]], [], [], t)[0]:
                state[q] = 'waiting' if os.read(req[q], 1) else 'over'
            return state[q]

        def go(q):
            state[q] = 'running'
            try:
                os.write(grant[q], b'.')
            except OSError:
                pass
        for q, n in zip(turns, grain):
            for _ in range(n):
                if look(q, 2.0) == 'waiting':
                    go(q)
                    look(q, 2.0)
        end = time.time() + 60
        while any(s != 'over' for s in state) and time.time() < end:
            for q in range(len(cmds)):
                if state[q] == 'waiting':
                    go(q)
            live = [req[q] for q in range(len(cmds)) if state[q] == 'running']
            if live:
                for fd in select.select(live, [], [], 1.0)[0]:
                    look(req.index(fd), 0)
        return [p.wait(timeout=10) if state[q] == 'over' else 1000 for q, p in enumerate(procs)]
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
        for fd in req + grant:
            os.close(fd)


def conc_pool(r, n):
    """commands by kind, with what they need; stems are filled in"""
    s = lambda f: gen.hexs(gen.series(r, f, n, 1e30))
    raw = cl.wbro_bytes([s(f) for f in ('walk', 'runs', 'twoparts', 'metric', 'steps')])
    bro = cl.bro_bytes([('auto', 3, 0, s('walk')), ('polynomial', 0, 0, s('metric')), ('noop', 0, 0, s('smallint')), ('fft', 5, 0, s('sine'))])
    rows = [tc.rows_of(r, n) for _ in range(5)]
    plain = ['\n'.join(['time,value'] + ['%d,%d' % (k, k * k % m) for k in range(n)]).encode() for m in (11, 7, 31)]
    back = []
    for b in rows:
        root = tempfile.mkdtemp(prefix='io-')
        try:
            put_tree(root, {'x.csv': b})
            if not shim_cmd(['csv-compressor', '--output-vsri', 'x.csv'], root, ''):
                back.append({t: open(os.path.join(root, 'x.' + t), 'rb').read() for t in ('bro', 'vsri')})
        finally:
            shutil.rmtree(root)
    modes = lambda: ['--compressor', r.choice(['auto', 'fft', 'polynomial', 'noop']), '-e', str(r.choice([0, 3, 10]))]
    pool = {
        'pack': lambda x: ({x + '.wbro': r.choice(raw)}, ['atsc'] + modes() + [x + '.wbro']),
        'unpack': lambda x: ({x + '.bro': r.choice(bro)}, ['atsc', '-u', x + '.bro']),
        'csv': lambda x: ({x + '.csv': r.choice(plain)}, ['atsc', '--csv'] + modes() + [x + '.csv']),
        'tool': lambda x: ({x + '.csv': r.choice(rows)}, ['csv-compressor', '--output-vsri', '--output-wavbrro'] + modes() + [x + '.csv']),
        'wav': lambda x: ({x + '.wav': cv.wav(4, [gen.words('%016x' % gen.bits(r.randint(0, 99) / 8))[0] for _ in range(n)])}, ['wav2wbro', x + '.wav']),
        'dir': lambda x: ({x + '.d/p.wbro': r.choice(raw), x + '.d/q.wbro': r.choice(raw), x + '.d/no.txt': b'no'}, ['atsc'] + modes() + [x + '.d']),
        'undir': lambda x: ({x + '.d/p.bro': r.choice(bro), x + '.d/q.bro': r.choice(bro), x + '.d/no.txt': b'no'}, ['atsc', '-u', x + '.d']),
    }
    if back:
        pool['back'] = lambda x: ((lambda b: {x + '.bro': b['bro'], x + '.vsri': b['vsri']})(r.choice(back)), ['csv-compressor', '-u', x + '.bro'])
    pool['rows'] = rows
    pool['modes'] = modes
    return pool


STEMS = [('a', 'b'), ('a', 'a.b'), ('a.b', 'a.c'), ('x', '.x'), ('sub/a', 'a'), ('sub/a', 'sub/b'), ('a', 'A'), ('a', 'a_'), ('x1', 'x2'), ('a.tmp', 'a')]


def conc_case(r, pool, sc):
    kinds = [k for k in pool if k not in ('rows', 'modes')]
    if sc == 2:
        x = r.choice(['x', 'sub/x', 'x.y'])
        base = ['csv-compressor', '--output-vsri']
        outs = r.choice([('o', 'p'), ('o.a.b', 'o.b.b'), ('sub/o', 'o'), ('o', 'x.z.w')])
        return {x + '.csv': r.choice(pool['rows'])}, [base + r.choice([[], ['--output-wavbrro']]) + pool['modes']() + ['-o', o, x + '.csv'] for o in outs]
    if sc == 3:
        t, a = pool[r.choice(kinds)](r.choice(['x', 'sub/x', 'x.y']))
        return t, [a, a]
    pair = r.choice(STEMS)
    tree, cmds = {}, []
    for x in pair:
        t, a = pool[r.choice(kinds)](x)
        tree.update(t)
        cmds.append(a)
    if sc == 4:
        cmds = [cmds[0], cmds[1], cmds[1]]
    return tree, cmds


def c29(c):
    r = rng('C29')
    c.spec('Concurrent', 'Concurrent', consts=scale(None, {'Pieces': '4'}))
    m = c.spec('Concurrent', 'ConcurrentRuns')
    c.exhaustive.append('all interleavings of the steps of Concurrent, with outputs in %d pieces' % scale(2, 4))
    for n in scale([60, 2500], [1, 60, 600, 2500, 8000]):
        con = Contents()
        pool = conc_pool(r, n)
        cases = []
        for p in r.sample(m.prints, min(len(m.prints), scale(900, 4492))):
            tree, cmds = conc_case(r, pool, p['sc'])
            turns = [q - 1 for q in p['turns']]
            cases.append((dict(tree, **{'sub': None, 'other.bro': b'other', 'z.vsri': b'z'}), cmds, turns, [r.choice([1, 1, 2, 3, 5]) for _ in turns], p['older']))

        def alone(key):
            root = tempfile.mkdtemp(prefix='io-')
            try:
                put_tree(root, dict(key[1], sub=None))
                before = snapshot(root, con)
                rc = shim_cmd(list(key[0]), root, '')
                return rc, [x for x in snapshot(root, con) if x not in before]
            finally:
                shutil.rmtree(root)

        def by_itself():
            keys = list({(tuple(a), tuple(sorted((k, v) for k, v in case[0].items() if v is not None))) for case in cases for a in case[1]})
            return dict(zip(keys, parallel(alone, keys)))
        memo = by_itself()
        # what was at the outputs before
        for k, (tree, cmds, turns, grain, older) in enumerate(cases):
            if older:
                outs = {bytes(x[0]).decode() for a in cmds for x in memo[tuple(a), tuple(sorted((n, v) for n, v in tree.items() if v is not None))][1]}
                cases[k] = (dict({o: r.choice([b'', b'older', b'older' * 5000]) for o in outs}, **tree), cmds, turns, grain, older)
        memo = by_itself()

        def one(case):
            tree, cmds, turns, grain, _ = case
            root = tempfile.mkdtemp(prefix='io-')
            try:
                put_tree(root, tree)
                init = snapshot(root, con)
                rc = interleave(root, cmds, turns, grain)
                return init, rc, snapshot(root, con)
            finally:
                shutil.rmtree(root)
        evs = []
        for (tree, cmds, turns, grain, _), (init, rc, fs) in zip(cases, parallel(one, cases)):
            refs = [memo[tuple(a), tuple(sorted((k, v) for k, v in tree.items() if v is not None))] for a in cmds]
            if any(x[0] for x in refs):
                c.notes.append('fails by itself: %s' % cmds)
                continue
            evs.append({'init': init, 'fs': fs, 'rc': rc, 'alone': [x[1] for x in refs],
                        'case': {'cmds': cmds, 'turns': turns, 'grain': grain, 'tree': {k: None if v is None else v[:400].hex() for k, v in tree.items()}}})
        c.validate('ConcTrace', evs, 'interleavings, files of %d samples' % n)
