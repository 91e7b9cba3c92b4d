"""The CSV tool's files (C27), settings of the commands (C28)."""
import math, os, random, shutil, tempfile
import gen, vlib
import csv_checks as cv
import cli_checks as cl
from cli_checks import Contents, codes, parallel, put_tree, shown, snapshot, library, pipe_req
from codec_checks import rng, scale, run_cmd, LEVELS
from vlib import harness

TOOLMODES = ['auto', 'noop', 'fft', 'constant', 'polynomial', 'idw']


# ------------------------------------------------------------------ C27

def rows_of(r, n):
    """a CSV file with n rows of a day, all of them finite"""
    rows = [x for x in cv.day_rows(r, n) if x['fin'] and abs(gen.unhex(cv.unword(x['w']))[0]) < 1e30]
    while len(rows) < n:
        rows.append(dict(rows[-1]) if rows else {'day': 0, 'sec': 5, 'ms': 0, 'fin': True, 'w': [0, 0, 0, 16377], 'bad': False})
    return cv.rows_file(rows, r)


BAD = [b'timestamp,value\n1000,1\n2000,x\n', b'time,value\n1000,1\n', b'timestamp,value\n5000,1\n1000,2\n', b'\xff\xfe\x00', b'timestamp,value\n1000\n']


def text(name):
    return bytes(name).decode()


def tool_args(run, st, r):
    a = []
    if run['cmd'] == 'compress':
        a += [['--output-wavbrro']] * run['raw'] + [['--output-vsri']] * run['index'] + [['--no-compression']] * (not run['pack'])
        a += [['--compressor', st[0]], [r.choice(['-e', '--error']), str(st[1])], [r.choice(['-c', '--compression-selection-sample-level']), str(st[2])]]
    else:
        a += [['-u']] + [['--output-csv']] * (r.random() < .3)
    if run['out']:
        a.append([r.choice(['-o', '--output']), text(run['out'])])
    a.append([text(run['name'])])
    r.shuffle(a)
    return ['csv-compressor'] + [x for y in a for x in y]


def c27_events(scenarios, r):
    """scenario: (tree, [(run, settings)])"""
    con = Contents()
    seeds = [r.random() for _ in scenarios]

    def one(k):
        tree, runs = scenarios[k]
        rr = random.Random(seeds[k])
        top = tempfile.mkdtemp(prefix='tool-')
        root = os.path.join(top, 'w')
        os.mkdir(root)
        out = cl.Elsewhere(top)
        try:
            put_tree(root, tree)
            if runs and rr.random() < .12:       # what the first run writes is there already, but for a byte
                had = {bytes(e[0]) for e in snapshot(root, con)}
                run_cmd(tool_args(*runs[0], rr), root)
                new = [os.fsdecode(bytes(e[0])) for e in snapshot(root, con) if bytes(e[0]) not in had]
                cl.garble(root, new, rr)
            init = snapshot(root, con)
            steps = []
            for run, st in runs:
                read = lambda n: (lambda p: open(p, 'rb').read() if os.path.isfile(p) else None)(os.path.join(root, n))
                inp = read(text(run['name']))
                idx = read(os.path.splitext(text(run['name']))[0] + '.vsri') if run['cmd'] == 'uncompress' else None
                rc, _ = run_cmd(tool_args(run, st, rr), root, more=out.env())
                steps.append({'run': run, 'rc': rc, 'fs': snapshot(root, con), 'key': (run['cmd'], inp, idx, st if run['cmd'] == 'compress' else None)})
            for x in out.left(['w']):
                steps[-1]['fs'].append([codes('../' + x), 'h0'])
            return init, steps
        finally:
            shutil.rmtree(top)
    done = parallel(one, range(len(scenarios)))
    keys = list(dict.fromkeys(s['key'] for _, steps in done for s in steps))

    def alone(key):
        """the input by itself in an empty directory"""
        cmd, inp, idx, st = key
        if inp is None or (cmd == 'uncompress' and (idx is None or inp[:4] != b'BRRO')):
            return {'rc': 1}
        root = tempfile.mkdtemp(prefix='tool-')
        try:
            if cmd == 'compress':
                put_tree(root, {'in.csv': inp})
                rc, _ = run_cmd(['csv-compressor', '--output-vsri', '--output-wavbrro', '--compressor', st[0], '-e', str(st[1]), '-c', str(st[2]), 'in.csv'], root)
                get = {'raw': 'in.wavbro', 'index': 'in.vsri'}
            else:
                put_tree(root, {'in.bro': inp, 'in.vsri': idx})
                rc, _ = run_cmd(['csv-compressor', '-u', 'in.bro'], root)
                get = {'rows': 'in.csv'}
            out = {'rc': rc}
            for p, n in get.items():
                if os.path.isfile(os.path.join(root, n)):
                    out[p] = open(os.path.join(root, n), 'rb').read()
            return out
        finally:
            shutil.rmtree(root)
    refs = dict(zip(keys, parallel(alone, keys)))
    ask = [k for k in keys if refs[k]['rc'] == 0]
    lib = library([('compress', refs[k].get('raw', b''), k[3]) if k[0] == 'compress' else ('decompress', k[1], None) for k in ask])
    for k, b in zip(ask, lib):
        refs[k]['bro' if k[0] == 'compress' else 'raw'] = b
    for k in refs:
        refs[k] = {p: (refs[k]['rc'] if p == 'rc' else con.token(refs[k][p]) if refs[k].get(p) is not None else 'none') for p in ('rc', 'raw', 'index', 'bro', 'rows')}
    evs = []
    for (init, steps), (tree, runs) in zip(done, scenarios):
        toks = {t for _, t in init} | {t for s in steps for _, t in s['fs']}
        evs.append({'init': init, 'heads': con.heads(toks), 'steps': [{'run': s['run'], 'rc': s['rc'], 'fs': s['fs'], 'parts': refs[s['key']]} for s in steps],
                    'case': {'tree': shown(tree), 'runs': runs}})
    return evs


def tool_settings(r):
    return (r.choice(TOOLMODES), r.choice([0, 0, 1, 5, 20, 50]), r.choice([0, 0, 0, 1, 3, 6]))


def c27(c):
    r = rng('C27')
    for k in scale([None], [{'Places': '2'}]):
        m = c.spec('CsvToolMC', 'CsvToolMC', consts=k)
        c.exhaustive.append('all sequences of two runs of CsvToolMC%s' % (' with %s' % k if k else ''))
        pool = []
        for n in (1, 2, 3, 7, 12):
            pool.append([rows_of(r, n) for _ in range(4)])
        todo = []
        for runs in m.prints:
            p = r.choice(pool)
            tree = {'x.csv': r.choice(p), 'y.dat': r.choice(p), 'z.csv': r.choice(BAD), 'd': None}
            todo.append((tree, [(x, r.choice([('auto', 5, 0), ('polynomial', 0, 0), ('noop', 5, 0)])) for x in runs]))
        if not vlib.THOROUGH:
            r.shuffle(todo)
            todo = todo[:2600]
            c.exhaustive[-1] += ' (2600 of them replayed)'
        for b in range(0, len(todo), 6000):
            c.validate('CsvToolTrace', c27_events(todo[b:b + 6000], r), 'runs of the specification')
    todo = []
    names = ['x.csv', 'x.y.csv', 'x', '.x.csv', 'sub/y.csv', 'sub/.h', 'a.b/c', 'x y.csv', 'x.csv.csv', 'x.', 'X.CSV', 'x.dat', 'sub/x.bro.csv', 'x.vsri.csv', '+/x.csv']
    for _ in range(scale(350, 6000)):
        n = r.choice([0, 1, 2, 5, 20, 60, 300])
        ins = r.sample(names, 3)
        p = [rows_of(r, n) for _ in range(3)]
        tree = {'sub': None, 'a.b': None, '+': None}
        for x, b in zip(ins, p):
            tree[x] = b if r.random() < .93 else r.choice(BAD)
        for x in ins:
            if r.random() < .4:         # older files stand where something may go
                for t in ('bro', 'vsri', 'wavbro', 'wbro', 'csv'):
                    q = os.path.splitext(x)[0] + '.' + t
                    if r.random() < .5 and q not in tree:
                        tree[q] = b'older ' * r.randint(0, 900)
        if r.random() < .3:
            tree.update({a: b for a, b in cl.siblings(r.choice(ins), r, 12).items() if a not in tree and not a.endswith(('.bro', '.vsri', '.wavbro', '.csv'))})
        outs = [''] * 6 + ['o', 'o.any', 'sub/o.x.y', 'a.b/o', ins[0], os.path.splitext(ins[1])[0] + '.bro', 'no/o', '.o', 'sub/.o.csv', 'o.bro', 'o.csv.vsri', './o.d', 'sub/../p']
        mine = list(outs)
        for o in r.sample(['o', 'o.any', 'sub/o.x.y', 'o.d', 'p', 'x', 'sub/y', 'x.y'], r.choice([0, 0, 1, 3])):
            if o not in tree:       # directories (with something in them) that have the name without the extension
                tree[o] = None
                if r.random() < .5:
                    tree[o + '/' + r.choice(['o.bro', 'x.bro', 'in.vsri', 'k'])] = b'something'
                mine += [o] * 4
        runs, made = [], []
        for _ in range(r.choice([1, 2, 3, 4, 5])):
            out = r.choice(mine)
            out = os.path.normpath(out) if out else ''
            if made and r.random() < .5:
                run = {'cmd': 'uncompress', 'name': codes(r.choice(made)), 'out': codes(out), 'raw': False, 'index': False, 'pack': False}
            elif r.random() < .1:
                run = {'cmd': 'uncompress', 'name': codes(r.choice(ins)), 'out': codes(out), 'raw': False, 'index': False, 'pack': False}
            else:
                x = r.choice(ins) if r.random() < .95 else r.choice(['sub', 'none.csv', 'no/x.csv'])
                run = {'cmd': 'compress', 'name': codes(x), 'out': codes(out), 'raw': r.random() < .5, 'index': r.random() < .75, 'pack': r.random() < .8}
                made.append(os.path.splitext(out or x)[0] + '.bro')
            runs.append((run, tool_settings(r)))
        todo.append((tree, runs))
    for b in range(0, len(todo), 3000):
        c.validate('CsvToolTrace', c27_events(todo[b:b + 3000], r), 'random runs')


# ------------------------------------------------------------------ C28

def c28_events(cases, r):
    """case: (tool, settings, what they stand for, series)"""
    lib, asked = {}, {}
    con = Contents()
    for tool, s, want, data in cases:
        if want['mode'] != 'refused':
            asked[want['mode'], want['e'], want['level'], data] = None
    for k, x in zip(asked, harness([pipe_req(*k) for k in asked])):
        lib[k] = con.token(bytes.fromhex(x['bytes'])) if 'bytes' in x else 'none'
    raws = dict(zip(list(dict.fromkeys(x[3] for x in cases)), cl.wbro_bytes(list(dict.fromkeys(x[3] for x in cases)))))
    csvs = {d: [repr(v) for v in gen.unhex(d)] for d in raws}
    seeds = [r.random() for _ in cases]

    def one(k):
        tool, s, want, data = cases[k]
        rr = random.Random(seeds[k])
        root = tempfile.mkdtemp(prefix='set-')
        try:
            way = 'tool' if tool != 'atsc' else rr.choice(['wbro', 'wbro', 'dir', 'csv', 'plaincsv'])
            name = {'wbro': 'x.wbro', 'dir': 'd/x.wbro'}.get(way, 'x.csv')
            if way in ('wbro', 'dir'):
                b = raws[data]
            elif way == 'plaincsv':
                b = '\n'.join(csvs[data]).encode()
            else:
                b = '\n'.join(['timestamp,value' if way == 'tool' else 'time,value'] + ['%d,%s' % (q * 1000, v) for q, v in enumerate(csvs[data])]).encode()
            put_tree(root, {name: b, 'other.bro': b'x'})
            before = snapshot(root, con)
            a = {'csv': [['--csv']], 'plaincsv': [['--csv'], ['--no-header']]}.get(way, [])
            opt = lambda long, short, v: rr.choice([[long, v], [long + '=' + v], [short, v], [short + v], [short + '=' + v]] if short else [[long, v], [long + '=' + v]])
            if s['mode']:
                a.append(opt('--compressor', '', s['mode']))
            if s['e']:
                a.append(opt('--error', '-e', s['e']))
            if s['level']:
                a.append(opt('--compression-selection-sample-level', '-c', s['level']))
            a.append(['d' if way == 'dir' else name])
            rr.shuffle(a)
            a = [tool] + [x for y in a for x in y]
            rc, _ = run_cmd(a, root)
            after = snapshot(root, con)
            out = dict((bytes(n).decode(), t) for n, t in after).get(name[:name.index('.')] + '.bro', 'none')
            return {'tool': tool, 's': s, 'rc': rc, 'files': [before, after] if want['mode'] == 'refused' else [], 'out': out,
                    'lib': {'at': want, 'out': lib.get((want['mode'], want['e'], want['level'], data), 'none')}, 'case': {'args': a, 'series': data[:16 * 600]}}
        finally:
            shutil.rmtree(root)
    return parallel(one, range(len(cases)))


def rough(r, n):
    """a positive series that is matched better and better by more and more of the data"""
    sd, w, x, out = r.choice([.05, .1, .2, .3, .4, .6]), r.choice([0, .3, .5, .8, .9, .95]), 0.0, []
    a = r.choice([1, 100, 1e-3, 1e6])
    for k in range(n):
        x = w * x + r.gauss(0, sd)
        out.append(a * 2.718281828459045**x)
        if len(out) == n // 2 and r.random() < .5:
            sd, w = r.choice([.05, .1, .2, .3, .4, .6]), r.choice([0, .5, .9, .95])
    return out


def close(r, n):
    """a series that is matched to within a few per cent by little of it, and exactly only by much more"""
    a, p = r.choice([1, 40, 1e5]), r.choice([20, 100, 600])
    amp, wob, per = r.choice([.01, .03, .1]), r.choice([1e-4, 1e-3, 3e-3, .01]), r.choice([5, 7, 11, 50])
    return [a * (1 + amp * math.sin(k / p) + wob * ((k % per) / per if r.random() < .999 else 2)) for k in range(n)]


def telling(pool, ats):
    """for each setting, the series of the pool for which the library's stream is unlike those of the most other settings,
    neighbours first; and how many other settings are told apart by the series taken"""
    res = [x.get('bytes') for x in harness([pipe_req(*a, d) for d in pool for a in ats])]
    rows = [res[q * len(ats):(q + 1) * len(ats)] for q in range(len(pool))]
    out, told = {}, 0
    for j, a in enumerate(ats):
        def worth(q):
            row = rows[q]
            return sum(40 for k in (j - 1, j + 1) if 0 <= k < len(ats) and row[k] != row[j]) + sum(1 for b in row if b != row[j])
        best = sorted(range(len(pool)), key=worth, reverse=True)[:3]
        out[a] = [pool[q] for q in best]
        told += len({k for q in best for k in range(len(ats)) if rows[q][k] != rows[q][j]})
    return out, told / len(ats) / (len(ats) - 1)


def c28(c):
    r = rng('C28')
    m = c.spec('SettingsMC', 'SettingsMC')
    c.exhaustive.append('all settings of SettingsMC, on series of 150 to 500 samples')
    any_ = gen.hexs(gen.series(r, 'walk', 300, 1e30))
    short, long = {}, {}
    pool = [gen.hexs(rough(r, r.randint(150, 500))) for _ in range(scale(60, 250))]
    pool += [gen.hexs(close(r, r.randint(150, 500))) for _ in range(scale(30, 120))]
    for mode in ('fft', 'polynomial', 'auto'):
        t, k = telling(pool, [(mode, e, 0) for e in range(51)])
        short.update(t)
        c.notes.append('%s: error levels told apart by the series taken: %.0f %%' % (mode, 100 * k))
    t, k = telling(pool[:8] + pool[-12:], [('idw', e, 0) for e in range(51)])
    short.update(t)
    lpool = [gen.hexs(gen.series(r, f, 4500, 1e30)) for f in ['smallstart', 'walk', 'sine', 'metric', 'steps'] + ['twoparts'] * scale(15, 60)] + [gen.hexs(rough(r, 4500)) for _ in range(scale(10, 40))]
    for e in scale((1, 3, 5, 20), (0, 1, 2, 3, 4, 5, 7, 10, 20, 49, 50)):
        t, k = telling(lpool, [('auto', e, l) for l in range(7)])
        long.update(t)
        c.notes.append('auto, error %d: sample levels told apart: %.0f %%' % (e, 100 * k))
    at = lambda w: (w['mode'], w['e'], w['level'])
    start = [(t, {'mode': '', 'e': '', 'level': ''}, {'mode': 'auto', 'e': e, 'level': 0}) for t, e in (('atsc', 3), ('csv-compressor', 5))] * 6
    every = start + [(p['tool'], p['s'], p['want']) for p in m.prints]
    if not vlib.THOROUGH:
        every = [x for x in every if (x[2]['mode'] == 'refused' and r.random() < .25) or (x[2]['mode'] != 'refused' and (x[1]['level'] in ('', '6') or r.random() < .3))]
    todo = [x + (r.choice(short.get((x[2]['mode'], x[2]['e'], 0), [any_])),) for x in every]
    for b in range(0, len(todo), 6000):
        c.validate('SettingsTrace', c28_events(todo[b:b + 6000], r), 'all settings')
    todo = [x + (r.choice(long[at(x[2])]),) for x in every + [(p['tool'], p['s'], p['want']) for p in m.prints] if at(x[2]) in long]
    c.validate('SettingsTrace', c28_events(todo, r), 'sample levels on long series')
