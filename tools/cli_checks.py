"""Properties of the commands (C20, C21, C24, the command part of C11)."""
import atexit, zlib, concurrent.futures, hashlib, os, random, shutil, subprocess, tempfile, threading
import gen, vlib
import codec_checks as cc
from codec_checks import rng, scale, run_cmd, MODES, ALLMODES, LEVELS
from vlib import BIN, NCPU, harness


class Contents:
    """contents by token"""

    def __init__(self):
        self.by = {}

    def token(self, b):
        t = 'h' + hashlib.sha256(b).hexdigest()[:14]
        self.by[t] = b
        return t

    def heads(self, tokens):
        return dict({t: list(self.by[t][:16]) for t in tokens if t in self.by}, h0=[0])


def codes(name):
    return list(name.encode())


def put_tree(root, tree):
    """tree: {relative name: bytes, None for a directory, ('link', target) for a symbolic link,
    ('name', other) for another name of the file other, ('pipe',) for a named pipe}"""
    for name, b in tree.items():
        p = os.path.join(root, name)
        if b is None:
            os.makedirs(p, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if isinstance(b, tuple):
                if b[0] == 'pipe':
                    os.mkfifo(p)
                elif b[0] == 'name':
                    os.link(os.path.join(root, b[1]), p)
                else:
                    os.symlink(b[1], p)
                continue
            with open(p, 'wb') as f:
                f.write(b)
            # of any age, and of any mode that can be read
            k = zlib.crc32(name.encode() + b[:64])
            if k % 4:
                os.utime(p, ([1, 10**9, 4 * 10**9][k % 4 - 1],) * 2)
            os.chmod(p, [0o644, 0o644, 0o600, 0o755, 0o644 if os.getuid() else 0o444][k // 4 % 5])


def shown(tree):
    """a tree, for replays"""
    return {n: b.hex() if isinstance(b, bytes) else b and list(b) for n, b in tree.items()}


SIBLINGS = ['tmp', 'temp', 'part', 'partial', 'bak', 'new', 'old', 'orig', 'swp', 'lock', 'out', 'csv', 'vsri', 'wav', 'wavbro', 'txt', 'log', 'raw', 'dat', 'json']


def siblings(name, r, n=None):
    """files with names near that of a file, none of which a command on it may touch"""
    d, base = os.path.split(name)
    stem = os.path.splitext(base)[0]
    near = [stem + '.' + x for x in SIBLINGS] + [base + '.' + x for x in ('tmp', 'part', 'bak', 'new', 'lock')]
    near += [stem + '.' + k + '.' + x for k in ('bro', 'wbro') for x in ('tmp', 'part', 'new', 'bak')]
    near += [stem + k + t for k in ('.bro', '.wbro', '') for t in ('~', '_tmp', '.1', '.')]
    near += ['.' + stem + '.tmp', '.' + base + '.swp', '.' + base + '.tmp', '.tmp', 'tmp', '.' + stem + '.bro.tmp', '.' + stem + '.wbro.tmp', '#' + base + '#', 'atsc.log', 'bro', 'wbro', '.atsc']
    near = sorted({x for x in near if x not in (base, stem, '.', '..') and not x.endswith(('.bro', '.wbro'))})
    return {os.path.join(d, x): ('near ' + x).encode() for x in (near if n is None else r.sample(near, n))}


def garble(root, names, r):
    """changes a byte of each of these files, in its first half"""
    for n in names:
        p = os.path.join(root, n)
        if os.path.isfile(p) and os.path.getsize(p):
            b = bytearray(open(p, 'rb').read())
            b[r.randrange((len(b) + 1) // 2)] ^= r.choice([1, 16, 64])
            open(p, 'wb').write(b)


def snapshot(root, con):
    out = []
    for d, ds, fs in os.walk(root):
        for x in sorted(ds + fs):
            p = os.path.join(d, x)
            rel = os.path.relpath(p, root)
            if os.path.islink(p) and not os.path.exists(p):
                out.append([codes(rel), 'h0'])
            elif os.path.isdir(p):
                out.append([codes(rel), 'dir'])
            elif not os.path.isfile(p):
                out.append([codes(rel), con.token(b'neither a file nor a directory')])
            else:
                out.append([codes(rel), con.token(open(p, 'rb').read())])
    return sorted(out)


_AROUND, _LOCK = [], threading.Lock()


def around():
    """the library that watches what a command asks of its surroundings"""
    with _LOCK:
        if not _AROUND:
            d = tempfile.mkdtemp(prefix='around-')
            atexit.register(shutil.rmtree, d, True)
            os.chmod(d, 0o755)
            p = subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', os.path.join(d, 'around.so'), os.path.join(vlib.VERIF, 'shim', 'around.c'), '-ldl'], capture_output=True, text=True)
            if p.returncode:
                raise vlib.ToolError('around: ' + p.stderr)
            _AROUND.append(os.path.join(d, 'around.so'))
        return _AROUND[0]


class Elsewhere:
    """Runs of commands on files below a directory; what they leave anywhere else is noted.
    The directory for temporary files and the home are beside the directory."""

    def __init__(self, top):
        self.top = top
        self.dirs = [os.path.join(top, x) for x in ('.tmp', '.home')]
        for d in self.dirs:
            os.mkdir(d)
        self.log = os.path.join(top, '.files')

    def env(self):
        return {'TMPDIR': self.dirs[0], 'HOME': self.dirs[1], 'LD_PRELOAD': around(), 'AROUND_FILES': self.log}

    def left(self, own):
        """names of files left elsewhere; own: the directories where the outputs belong, below top"""
        out = [x for x in os.listdir(self.top) if x not in ['.tmp', '.home', '.files'] + own]
        for d in self.dirs:
            out += os.listdir(d)
        if os.path.exists(self.log):
            for p in set(open(self.log, errors='replace').read().split('\n')):
                q = os.path.normpath(p)
                if p and not q.startswith((self.top + '/', '/dev/', '/proc/')) and os.path.lexists(q):
                    out.append(q)
        return sorted(out)


def parallel(f, xs):
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(f, xs))


def wbro_bytes(series):
    """files the library writes for series given as hex"""
    top = tempfile.mkdtemp(prefix='wb-')
    try:
        harness([{'op': 'wfile', 'path': '%s/%d' % (top, k), 'data': s} for k, s in enumerate(series)])
        return [open('%s/%d' % (top, k), 'rb').read() for k in range(len(series))]
    finally:
        shutil.rmtree(top)


def bro_bytes(cases):
    """streams the library writes"""
    return [bytes.fromhex(x['bytes']) if 'bytes' in x else b'' for x in harness([pipe_req(*q) for q in cases])]


def pipe_req(mode, e, level, data):
    return {'op': 'pipe', 'mode': mode, 'how': 'plain' if mode in ('rle', 'noop', 'constant') else 'bounded', 'e': e, 'level': level, 'data': data}


def library(asked):
    """what the library makes of contents: compress with settings, or decompress; gives bytes, or None if it refuses"""
    top = tempfile.mkdtemp(prefix='lib-')
    try:
        first = []
        for k, (cmd, b, st) in enumerate(asked):
            p = '%s/%d' % (top, k)
            if cmd == 'samples':
                first.append({'op': 'load', 'bytes': ''})
            elif cmd == 'compress':
                open(p, 'wb').write(b)
                first.append({'op': 'wfile', 'path': p})
            else:
                first.append({'op': 'load', 'bytes': b.hex()})
        second = []
        for k, ((cmd, b, st), x) in enumerate(zip(asked, harness(first))):
            if cmd == 'samples':
                second.append(pipe_req(*st, b))
            elif 'out' not in x:
                second.append({'op': 'load', 'bytes': ''})
            elif cmd == 'compress':
                second.append(pipe_req(*st, x['out']))
            else:
                second.append({'op': 'wfile', 'path': '%s/%d.out' % (top, k), 'data': x['out']})
        out = []
        for k, ((cmd, b, st), x) in enumerate(zip(asked, harness(second))):
            if cmd in ('compress', 'samples'):
                out.append(bytes.fromhex(x['bytes']) if 'bytes' in x else None)
            else:
                p = '%s/%d.out' % (top, k)
                out.append(open(p, 'rb').read() if os.path.exists(p) else None)
        return out
    finally:
        shutil.rmtree(top)


def settings(r):
    return (r.choice(ALLMODES), r.choice([0, 0, 1, 3, 5, 20, 50]), r.choice(LEVELS))


def args_of(cmd, st, target, r=None):
    a = ['atsc']
    if cmd != 'decompress':
        a += ['--compressor', st[0], '-e', str(st[1]), '-c', str(st[2])]
        a += {'csv': ['--csv'], 'plain': ['--no-header', '--csv']}.get(cmd, [])
    else:
        a += ['-u']
    if r and r.random() < .1:
        a.append('--verbose')
    return a + [target]


# ------------------------------------------------------------------ sequences of commands (C20)

TABLES = {'csv': {b'time,value\n1,2\n': gen.hexs([2.0])}, 'plain': {b'': ''}}       # tables with a header, and without: the series in them


def table(r, series, kind):
    """a table with a series, which is remembered"""
    vals = [repr(v) for v in gen.unhex(series)]
    if kind == 'plain':
        b = '\n'.join(vals + ['']).encode()
    elif r.random() < .5:
        b = '\n'.join(['time,value'] + ['%d,%s' % (k, v) for k, v in enumerate(vals)]).encode()
    else:
        b = '\r\n'.join(['a,value,time,b'] + ['"x, %d",%s,%d,"say ""no"""' % (k, v, k) for k, v in enumerate(vals)] + ['']).encode()
    TABLES[kind][b] = series
    return b


def run_sequences(c, r, scenarios, what):
    """scenario: (tree, [(cmd, name, settings)])"""
    con = Contents()
    flips = [r.random() for _ in scenarios]

    def one(k):
        tree, cmds = scenarios[k]
        rr = random.Random(flips[k])
        top = tempfile.mkdtemp(prefix='seq-')
        root = os.path.join(top, 'w')
        os.mkdir(root)
        out = Elsewhere(top)
        try:
            put_tree(root, tree)
            init = snapshot(root, con)
            steps = []
            for cmd, name, st in cmds:
                p = os.path.join(root, name)
                before = open(p, 'rb').read() if os.path.isfile(p) else None
                if rr.random() < .3:
                    cwd, target = '/', p
                elif '/' in name and rr.random() < .5:
                    cwd, target = os.path.join(root, os.path.dirname(name)), os.path.basename(name)
                    if not os.path.isdir(cwd):
                        cwd, target = root, name
                else:
                    cwd, target = root, name
                rc, _ = run_cmd(args_of(cmd, st, target, rr), cwd, more=out.env())
                steps.append({'cmd': cmd, 'name': codes(name), 'rc': rc, 'fs': snapshot(root, con), 'before': before, 'st': st})
            for x in out.left(['w']):
                steps[-1]['fs'].append([codes('../' + x), 'h0'])
            return init, steps
        finally:
            shutil.rmtree(top)
    runs = parallel(one, range(len(scenarios)))
    asked, where = [], []
    for k, (_, steps) in enumerate(runs):
        for q, s in enumerate(steps):
            kind = {'compress': b'WBRO', 'decompress': b'BRRO'}.get(s['cmd'])
            if kind is None:
                if s['before'] in TABLES[s['cmd']]:
                    asked.append(('samples', TABLES[s['cmd']][s['before']], s['st']))
                    where.append((k, q))
            elif s['before'] is not None and s['before'][:4] == kind:
                asked.append((s['cmd'], s['before'], s['st']))
                where.append((k, q))
    uniq, idx = {}, []
    for a in asked:
        idx.append(uniq.setdefault(a, len(uniq)))
    lib = library(list(uniq))
    for (k, q), x in zip(where, idx):
        runs[k][1][q]['lib'] = con.token(lib[x]) if lib[x] is not None else 'none'
    evs = []
    for (init, steps), (tree, cmds) in zip(runs, scenarios):
        toks = {t for _, t in init} | {t for s in steps for _, t in s['fs']}
        evs.append({'k': 'seq', 'init': init, 'heads': con.heads(toks), 'tables': {q: [t for t in toks if con.by.get(t) in TABLES[q]] for q in TABLES},
                    'steps': [{'cmd': s['cmd'], 'name': s['name'], 'rc': s['rc'], 'fs': s['fs'], 'lib': s.get('lib', 'none')} for s in steps],
                    'case': {'tree': shown(tree), 'cmds': cmds}})
    c.validate('CliTrace', evs, what)


FOREIGN = [b'hello\n', b'', b'W', b'BRR', b'WBRO', b'WBRO0000WBR', b'RIFF\x24\x00\x00\x00WAVEfmt ', b'time,value\n1,2\n', bytes(64), b'BRRo' + bytes(20),
           b'xBRRO' + bytes(20), b'WBRO0000WBRx' + bytes(28), b'\xff' * 100]


def series_pool(r, k):
    pool = ['', gen.hexs([5.0]), gen.hexs([float(q % 7) for q in range(600)]), gen.hexs([0.0] * 1030)]
    for _ in range(k):
        f = r.choice(gen.FAMILIES)
        pool.append(gen.hexs(gen.with_nonfinite(r, gen.series(r, f, r.choice([1, 2, 10, 100, 200, 512, 513, 700]), 1e30))
                             if r.random() < .2 else gen.series(r, f, r.choice([1, 3, 40, 130, 256, 513, 2100]), 1e30)))
    return pool


def c20(c):
    r = rng('C20')
    pool = series_pool(r, scale(24, 120))
    raws = wbro_bytes(pool)
    good = [s for s in pool if s and 'nan' not in s]
    streams = bro_bytes([(r.choice(ALLMODES), r.choice([0, 3, 10]), 0, s) for s in pool])
    streams = [s for s in streams if s]

    def content(tok):
        if tok[0] == 'wbro':
            return r.choice(raws)
        if tok[0] == 'bro':
            return r.choice(streams)
        return r.choice(FOREIGN)
    tables = {k: [table(r, s, k) for s in pool if s] for k in ('csv', 'plain')}
    inits = {5: {'a.csv': 't', 'c': 't', 'a.wbro': 'w'}, 1: {'a.wbro': 'w', 'b.x.wbro': 'w'}, 2: {'a.wbro': 'w', 'a.bro': 'f', 'c': 'w'}, 3: {'a.bro': 'w', 'b.x.wbro': 'f', 'c': 'f'}, 4: {'a.wbro': 'w', 'b.x.bro': 'f'}}

    def replay(prints):
        out = []
        for p in prints:
            tree = {n: (r.choice(raws) if k == 'w' else r.choice(tables['csv']) if k == 't' else r.choice(FOREIGN)) for n, k in inits[p['start']].items()}
            if r.random() < .25:
                tree = dict(siblings(r.choice(sorted(tree)), r, r.choice([3, 8, None])), **tree)
            modes = {m: settings(r) for m in (1, 2)}
            out.append((tree, [(o['op'], bytes(o['name']).decode(), modes.get(o['mode'], ('auto', 3, 0))) for o in p['ops']]))
        return out
    m = c.spec('CliMC', 'CliMC', consts={'MaxCmds': '2', 'EmitFrom': '2'})
    c.exhaustive.append('all sequences of two commands of CliMC')
    run_sequences(c, r, replay(m.prints), 'sequences of the specification')
    m = c.spec('CliMC', 'CliMC', consts=scale(None, {'MaxCmds': '4', 'EmitFrom': '3', 'Modes': '{1}'}))
    sel = m.prints if vlib.THOROUGH else r.sample(m.prints, 700)
    run_sequences(c, r, replay(sel), 'longer sequences of the specification')
    # other names, deeper trees, longer sequences
    names = ['a.wbro', 'a.bro', 'b', 'b.bro', 'sub/x.wbro', 'sub/x.bro', 'sub/.hid', 'n.o.t', 'n.o.bro', '.wbro', 'sp ace.wbro', 'dot./y', 'été.wbro', 'x.WBRO', 'x.bro', '-dash.wbro', 'a.wbro.wbro', 'trail.', 'sub/deep/z.dat']
    scen = []
    for _ in range(scale(250, 4000)):
        tree = {'sub': None}
        for n in r.sample(names, r.randint(1, 6)):
            tree[n] = r.choice([r.choice(raws), r.choice(raws), r.choice(streams), r.choice(FOREIGN), r.choice(tables['csv']), r.choice(tables['plain'])])
        if r.random() < .35:
            n = r.choice([x for x in tree if tree[x] is not None])
            tree = dict(siblings(n, r, r.choice([4, None])), **tree)
        if r.random() < .15:         # a link, to a file no command writes to
            tree['real.dat'] = r.choice([r.choice(raws), r.choice(streams), r.choice(FOREIGN)])
            tree[r.choice(['link', 'link.x', 'li.nk.dat'])] = ('link', r.choice(['real.dat', 'real.dat', 'nothing']))
        piped = len(scen) % 50 == 7
        if piped:
            tree['pipe.dat'] = ('pipe',)
        cmds = [(r.choice(['compress', 'decompress', 'csv', 'plain']), 'pipe.dat', settings(r))] * piped
        for _ in range(r.randint(1, 6)):
            n = r.choice([x for x in list(tree) + [r.choice(names), 'missing.wbro', 'missing.bro'] if x != 'sub' and x[0] != '-'] or ['q'])
            b = tree.get(n)
            cmds.append((r.choice(['compress', 'decompress', 'csv', 'plain'] + ['csv'] * 3 * (b in TABLES['csv']) + ['plain'] * 3 * (b in TABLES['plain'])), n, settings(r)))
            stem = os.path.splitext(n)[0]
            if r.random() < .5:
                cmds.append(('compress' if cmds[-1][0] == 'decompress' else 'decompress', stem + ('.wbro' if cmds[-1][0] == 'decompress' else '.bro'), settings(r)))
        scen.append((tree, cmds))
    run_sequences(c, r, scen, 'random trees and sequences')
    # an older output of the same length, and nearly the same
    scen = []
    for k in range(scale(60, 600)):
        s = r.choice([x for x in good if len(x) > 16 * 8])
        w = [s[q:q + 16] for q in range(0, len(s), 16)]
        t = list(w)
        for q in r.sample(range(len(t)), r.choice([1, 1, 2])):
            t[q] = r.choice(w)
        if r.random() < .3:      # the same samples elsewhere
            t = w[1:] + w[:1]
        st = (r.choice(ALLMODES), r.choice([0, 0, 1, 3]), 0)
        old = bro_bytes([(st[0], st[1], 0, ''.join(t)), (st[0], st[1], 0, s)])
        if not all(old):
            continue
        cmd = ('compress', 'csv', 'plain', 'decompress')[k % 4]
        tree = {'a.dat': {'compress': lambda: wbro_bytes([s])[0], 'decompress': lambda: old[1]}.get(cmd, lambda: table(r, s, cmd))()}
        tree['a.wbro' if cmd == 'decompress' else 'a.bro'] = wbro_bytes([''.join(t)])[0] if cmd == 'decompress' else old[0]
        scen.append((tree, [(cmd, 'a.dat', st)]))
    run_sequences(c, r, scen, 'older outputs of the same length')
    # every sample level, on series of which the samples it looks at suggest another codec than fewer or more would
    first = [4096 >> k for k in range(6)]
    kinds = [[float(q // 50 % 3) + .5 for q in range(8192)], [r.random() for _ in range(8192)]]
    telling = [gen.hexs(kinds[0][:k] + kinds[1][k:]) for k in first]
    raws = wbro_bytes(telling)
    scen = [({'a.wbro': raws[k]}, [('compress', 'a.wbro', ('auto', 0, level))]) for level in range(7) for k in range(6) if k in (level - 2, level - 1, level) or vlib.THOROUGH]
    run_sequences(c, r, scen, 'sample levels')


# ------------------------------------------------------------------ directories (C21)

def run_dirs(c, r, scenarios, what):
    """scenario: (tree, directory, cmd, arguments[, files that need not be tried alone])"""
    con = Contents()

    def one(k):
        tree, d, cmd, args = scenarios[k][:4]
        skip = scenarios[k][4] if len(scenarios[k]) > 4 else ()
        top = tempfile.mkdtemp(prefix='dir-')
        try:
            def run(target, tag):
                root = os.path.join(top, tag)
                os.mkdir(root)
                put_tree(root, tree)
                before = snapshot(root, con)
                rc, _ = run_cmd(args + [target], root)
                after = snapshot(root, con)
                return before, after, rc
            before, fs, rc = run(d, 'all')
            ones = []
            for n in sorted(tree):
                if os.path.dirname(n) == d and n not in skip and not os.path.isdir(os.path.join(top, 'all', n)):
                    b, a, rc1 = run(n, 'one%d' % len(ones))
                    ones.append({'name': codes(n), 'fs': a, 'rc': rc1})
            return before, fs, ones, rc
        finally:
            shutil.rmtree(top)
    evs = []
    for (before, fs, ones, rc), (tree, d, cmd, args, *_) in zip(parallel(one, range(len(scenarios))), scenarios):
        toks = {t for x in [before, fs] + [o['fs'] for o in ones] for _, t in x}
        evs.append({'k': 'dir', 'cmd': cmd, 'dir': codes(d), 'init': before, 'fs': fs, 'ones': ones, 'rc': rc, 'heads': con.heads(toks),
                    'case': {'tree': shown(tree), 'dir': d, 'args': args}})
    c.validate('CliTrace', evs, what)


def c21(c):
    r = rng('C21')
    pool = series_pool(r, scale(16, 80))
    raws = wbro_bytes(pool)
    streams = [s for s in bro_bytes([(r.choice(ALLMODES), r.choice([0, 3, 10]), 0, s) for s in pool]) if s]
    m = c.spec('DirMC', 'DirMC', consts=scale(None, {'MaxFiles': '4'}))
    c.exhaustive.append('all directories of up to %s files of six kinds' % scale(3, 4))
    NAMES = ['d/a.wbro', 'd/.h', 'd/c', 'd/b.dat', 'd/e.bro']

    def content(k):
        return {'wbro': lambda: r.choice(raws), 'bro': lambda: r.choice(streams), 'text': lambda: r.choice([f for f in FOREIGN if len(f) > 16]),
                'empty': lambda: b'', 'short': lambda: r.choice([f for f in FOREIGN if 0 < len(f) < 12]), 'dir': lambda: None}[k]()
    scen = []
    for p in m.prints:
        tree = {'d': None}
        for k, n in zip(p['files'], NAMES):
            tree[n] = content(k)
            if tree[n] is None and r.random() < .7:
                tree[n + '/in.wbro'] = r.choice(raws)
                tree[n + '/in2.bro'] = r.choice(streams)
        tree['d/s/i'] = r.choice(raws if p['cmd'] == 'compress' else streams)
        tree['outside.wbro'] = r.choice(raws)
        if r.random() < .1:
            tree = dict(siblings(r.choice(sorted(n for n in tree if n[:2] == 'd/' and '/' not in n[2:])), r, 6), **tree)
        scen.append((tree, 'd', p['cmd'], args_of(p['cmd'], settings(r), 'x')[:-1]))
    run_dirs(c, r, scen, 'directories of the specification')
    # bigger directories, and CSV files
    CSV = [b'time,value\n1,2.5\n2,3\n', b'time,value\n', b'value,time\n7,1\n', b'time,other\n1,2\n', b'time,value\n1,x\n', b'time,value\n1\n', b'', b'\n\n', b'abc',
           b'a,time,b,value\nq,1,w,9\n"x,y",2,z,-1e3\n', bytes([255, 0, 1, 10, 44]), b'time,value\n1,2\n\xff,3\n', b'1.5\n2.5\n', b'1\n2\nx\n']
    scen = []
    for k in range(scale(150, 2500)):
        tree = {'d': None}
        csv = k % 3 == 0
        cmd = 'csv' if csv else r.choice(['compress', 'decompress'])
        for q in range(r.randint(1, 9) if k % 25 else r.choice([60, 60, 300])):         # more files than may be open at a time
            n = 'd/%sf%d%s' % (r.choice(['', '', '', '.', 'ü ', '-', '_', '~']), q, r.choice(['.wbro', '.bro', '.csv', '.dat', '', '.x.y', '.WBRO', '.tmp', '~', '.bro.bak']))
            tree[n] = r.choice(CSV) if csv and r.random() < .8 else content(r.choice(['wbro', 'bro', 'text', 'short', 'empty', 'dir', 'wbro', 'bro']))
            if tree[n] is None and r.random() < .6:
                tree[n + '/in.wbro'] = r.choice(raws)
                tree[n + '/in.csv'] = CSV[0]
        if r.random() < .3:      # links to files and to directories elsewhere
            tree['far/real'] = r.choice(CSV) if csv else r.choice([r.choice(raws), r.choice(streams), FOREIGN[6]])
            tree['far/in/real.wbro'] = r.choice(raws)
            for q in range(r.randint(1, 3)):
                tree['d/l%d%s' % (q, r.choice(['', '.bro' if cmd == 'decompress' else '.wbro', '.csv', '.dat']))] = ('link', r.choice(['../far/real', '../far/real', '../far/in', 'nothing', '../far/nothing']))
        if k % 30 == 11:         # neither files nor directories
            tree['d/p%s' % r.choice(['', '.wbro', '.bro', '.csv'])] = r.choice([('pipe',), ('link', '../far/pipe')])
            tree['far/pipe'] = ('pipe',)
        if r.random() < .2:      # one file by several names
            at = r.choice(['far/more', 'd/m'])
            ext = '.csv' if csv else '.bro' if cmd == 'decompress' else '.wbro'
            tree[at + ext] = r.choice(CSV[:2] + CSV[9:10]) if csv else r.choice(streams if cmd == 'decompress' else raws)
            for q in range(r.randint(1, 4)):
                tree['d/m%d%s' % (q, ext)] = ('name', at + ext)
        args = args_of('compress' if csv else cmd, settings(r), 'x')[:-1]
        if csv:
            args += ['--csv'] + r.choice([[], [], ['--no-header'], ['--fields', 'time,value']])
        scen.append((tree, 'd', cmd, args))
    # many files that can't be processed
    for cmd, ext in (('compress', 'wbro'), ('decompress', 'bro'), ('csv', 'csv')):
        tree = {'d/n%d.%s' % (q, r.choice(['txt', ext])): r.choice([b'x', b'no', FOREIGN[6]]) for q in range(r.choice(scale([300], [300, 1100])))}
        skip = set(r.sample(sorted(tree), len(tree) - 8))
        some = {'csv': CSV[:1] + CSV[9:10], 'compress': raws, 'decompress': streams}[cmd]
        tree.update({'d/%d.%s' % (q, ext): r.choice(some) for q in range(12)})
        scen.append((tree, 'd', cmd, args_of('decompress' if cmd == 'decompress' else 'compress', settings(r), 'x')[:-1] + ['--csv'] * (cmd == 'csv'), skip))
    run_dirs(c, r, scen, 'random directories')


# ------------------------------------------------------------------ torn writes (C24)

def run_limits(c, jobs, what):
    """job: (tree, args, outputs, limits): outputs are the names of what the command is responsible for"""
    con = Contents()

    def job(j):
        tree, args, outs, limits, sentinel, full = j
        top = tempfile.mkdtemp(prefix='lim-')
        try:
            evs = []
            for limit in limits:
                root = os.path.join(top, 'x')
                os.mkdir(root)
                put_tree(root, tree)
                if limit == 'full':
                    for o in outs:
                        p = os.path.join(root, o)
                        if os.path.exists(p):
                            os.remove(p)
                        os.symlink('/dev/full', p)
                elif limit == 'dir':
                    for o in outs:
                        p = os.path.join(root, o)
                        if os.path.exists(p):
                            os.remove(p)
                        os.mkdir(p)
                rc, _ = run_cmd(args, root, limit=limit if isinstance(limit, int) else None)
                got = []
                for o in outs:
                    p = os.path.join(root, o)
                    ok = os.path.isfile(p) and not os.path.islink(p)
                    got.append({'name': o, 'full': con.token(full[o]), 'got': con.token(open(p, 'rb').read()) if ok else 'none'})
                evs.append({'k': 'limit', 'rc': rc, 'limit': str(limit), 'outs': got, 'heads': {'h0': [0]},
                            'case': {'args': args, 'limit': limit, 'tree': shown(tree)}})
                shutil.rmtree(root)
            return evs
        finally:
            shutil.rmtree(top)
    # what the outputs are without a limit
    ready = []
    for (tree, args, outs, sentinel) in jobs:
        top = tempfile.mkdtemp(prefix='lim-')
        try:
            put_tree(top, tree)
            rc, _ = run_cmd(args, top)
            full = {o: open(os.path.join(top, o), 'rb').read() for o in outs if os.path.isfile(os.path.join(top, o))}
        finally:
            shutil.rmtree(top)
        if rc != 0 or len(full) != len(outs):
            c.notes.append('%s fails without a limit' % ' '.join(args))
            continue
        sizes = [len(b) for b in full.values()]
        big = max(sizes)
        pts = set(range(0, min(big, scale(64, 600)) + 1)) | {big - k for k in range(0, scale(20, 200)) if big >= k} | {big + 1, 2 * big + 10}
        for s in sizes:
            pts |= {max(0, s - 1), s, s + 1, s // 2}
        pts |= {4096 * k + d for k in range(1, 20) for d in (-1, 0, 1) if 4096 * k < big} | {8192, 12, 11, 13}
        pts |= {random.Random(big).randrange(big + 1) for _ in range(scale(20, 300))} if big else set()
        pts = sorted(pts)
        if len(pts) > scale(120, 100000):
            pts = sorted(random.Random(len(pts)).sample(pts, scale(120, 100000)))
        for k in range(0, len(pts), 10):
            ready.append((tree, args, outs, pts[k:k + 10], sentinel, full))
        ready.append((tree, args, outs, ['full', 'dir'], sentinel, full))
    evs = [e for es in parallel(job, ready) for e in es]
    c.validate('CliTrace', evs, what)


def csv_rows(n, k=1):
    return ('timestamp,value\n' + ''.join('%d,%s\n' % (1700000000000 - 1700000000000 % 86400000 + 1000 * k * q, (q * 37 % 101) / 8) for q in range(n))).encode()


def c24(c):
    r = rng('C24')
    m = c.spec('TornWrite', 'TornWrite')
    jobs = []
    sizes = scale([0, 1, 5, 60, 600, 2049], [0, 1, 2, 5, 20, 60, 300, 600, 1500, 2047, 2048, 2049, 5000])
    for n in sizes:
        d = gen.hexs([float((q * 7) % 251) + .5 for q in range(n)])
        raw = wbro_bytes([d])[0]
        for mode in (['rle', 'auto', 'noop'] if n < 1000 else ['noop', 'rle']):
            jobs.append(({'x.wbro': raw}, ['atsc', '--compressor', mode, 'x.wbro'], ['x.bro'], None))
            s = bro_bytes([(mode, 3, 0, d)])[0]
            jobs.append(({'x.bro': s}, ['atsc', '-u', 'x.bro'], ['x.wbro'], None))
            # with an older, longer output in the way
            if n in (5, 60):
                jobs.append(({'x.wbro': raw, 'x.bro': b'old' * 5000}, ['atsc', '--compressor', mode, 'x.wbro'], ['x.bro'], None))
                jobs.append(({'x.bro': s, 'x.wbro': b'old' * 5000}, ['atsc', '-u', 'x.bro'], ['x.wbro'], None))
        text = 'time,value\n' + ''.join('%d,%s\n' % (q, (q * 7 % 251) + .5) for q in range(n))
        jobs.append(({'x.csv': text.encode()}, ['atsc', '--csv', '--compressor', 'noop', 'x.csv'], ['x.bro'], None))
    for n in scale([1, 30, 700, 3000], [1, 2, 30, 300, 700, 1500, 3000, 8000]):
        rows = csv_rows(n)
        if n > 100:      # an index of many runs
            rows = ('timestamp,value\n' + ''.join('%d,%d\n' % (86400000 * 19000 + 1000 * (q + q * q // 90), q * 37 % 101) for q in range(n))).encode()
        jobs.append(({'x.csv': rows}, ['csv-compressor', '--output-vsri', '--output-wavbrro', '-e', '0', '--compressor', 'noop', 'x.csv'], ['x.bro', 'x.vsri', 'x.wavbro'], None))
        jobs.append(({'x.csv': rows}, ['csv-compressor', '--output-vsri', '--no-compression', 'x.csv'], ['x.vsri'], None))
        top = tempfile.mkdtemp(prefix='lim-')
        put_tree(top, {'x.csv': rows})
        run_cmd(['csv-compressor', '--output-vsri', '-e', '0', '--compressor', 'noop', 'x.csv'], top)
        try:
            t = {'x.bro': open(top + '/x.bro', 'rb').read(), 'x.vsri': open(top + '/x.vsri', 'rb').read()}
            jobs.append((t, ['csv-compressor', '-u', 'x.bro'], ['x.wbro', 'x.csv'], None))
        except OSError:
            pass
        shutil.rmtree(top)
    run_limits(c, jobs, 'every limit')


# ------------------------------------------------------------------ torn, foreign and newer streams given to the command (C11)

def torn(c, streams, r):
    con = Contents()
    cases = []
    for s in streams[:scale(14, 120)]:
        b = bytes.fromhex(s)
        cuts = list(range(len(b))) if len(b) < scale(40, 200) else sorted({0, 1, 3, 4, 5, 8, 9, 10, 11, len(b) - 1, len(b) - 2} | {r.randrange(len(b)) for _ in range(scale(12, 60))})
        cases += [b[:k] for k in cuts] + [b]
        for v in (2, 3, 256, 1 << 31, (1 << 32) - 1, 1 << 24):
            cases.append(b[:4] + v.to_bytes(4, 'little') + b[8:])
        cases.append(b[:4] + bytes(4) + b[8:])
        for p in range(4):
            cases.append(b[:p] + bytes([b[p] ^ r.choice([1, 32, 128])]) + b[p + 1:])

    def one(k):
        b = cases[k]
        root = tempfile.mkdtemp(prefix='torn-')
        try:
            tree = {'x.bro': b}
            if k % 2:
                tree['x.wbro'] = b'what was here before'
            put_tree(root, tree)
            before = snapshot(root, con)
            rc, out = run_cmd(['atsc', '-u'] + (['--verbose'] if k % 3 == 0 else []) + ['x.bro'], root)
            return before, snapshot(root, con), rc, 'Output=' in out
        finally:
            shutil.rmtree(root)
    evs = []
    for b, (before, after, rc, shown) in zip(cases, parallel(one, range(len(cases)))):
        evs.append({'k': 'cmd', 'bytes': list(b), 'before': before, 'after': after, 'rc': rc, 'shown': shown, 'case': {'cmd': 'atsc -u x.bro', 'bytes': b.hex()}})
    c.validate('CodecTrace', evs, 'torn, foreign and newer streams given to the command')
