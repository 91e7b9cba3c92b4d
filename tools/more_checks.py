"""Error measures (C33), the clock (C32), verbose output (C31), surroundings (C34)."""
import fcntl, math, os, re, shutil, struct, subprocess, tempfile, termios, threading
import gen, vlib
import cli_checks as cl
import csv_checks as cv
import tool_checks as tc
from cli_checks import parallel, put_tree, snapshot
from codec_checks import rng, scale, run_cmd, ALLMODES
from vlib import harness


# ------------------------------------------------------------------ C33

MEASURES = ('mape', 'mae', 'mse', 'nmse', 'default', 'smape')


def c33_events(pairs):
    evs = []
    for (o, g), x in zip(pairs, harness([{'op': 'error', 'orig': o, 'gen': g} for o, g in pairs])):
        for how in ('', 'named_'):         # by function, and by the name of the method
            got = {k: str(x.get(how + k)) for k in MEASURES}
            ok = {k for k in MEASURES if re.fullmatch('[0-9a-f]{16}', got[k])}
            if how and all(x.get(k) == got[k] for k in MEASURES):
                continue
            ev = {'o': gen.words(o), 'g': gen.words(g), 'panics': len(MEASURES) - len(ok), 'case': {'o': o, 'g': g, 'got': x, 'how': how}}
            for k in ok:
                ev['deflt' if k == 'default' else k] = gen.words(got[k])[0]
            evs.append(ev)
    return evs


def unword(w):
    return '%04x%04x%04x%04x' % (w[3], w[2], w[1], w[0])


def c33(c):
    r = rng('C33')
    m = c.spec('MeasuresMC', 'MeasuresMC', consts=scale(None, {'Values': '{0, 2, 3, 4, 5, 6, 9, 11}'}))
    c.exhaustive.append('all pairs of series of MeasuresMC')
    hx = lambda ws: ''.join(unword(w) for w in ws)
    c.validate('MeasuresTrace', c33_events([(hx(p['o']), hx(p['g'])) for p in m.prints]), 'pairs of the specification')
    pairs = []
    while len(pairs) < scale(1500, 15000):
        n = r.choice([0, 1, 2, 3, 5, 10, 40, 130])
        f = r.choice(['smallint', 'walk', 'zeros', 'negint', 'sine0', 'decimals', 'runs', 'noise', 'fewdistinct', 'wideint', 'alternate', 'sparse', 'minusconst', 'metric'])
        o = gen.series(r, f, n, 1e30)
        how = r.randrange(6)
        if how == 0:
            g = list(o)
        elif how == 1:
            g = [x * (1 + r.gauss(0, .1)) for x in o]
        elif how == 2:
            g = [x + r.choice([0, 0, 1, -1, .5]) for x in o]
        elif how == 3:
            g = gen.series(r, r.choice(['smallint', 'walk', 'zeros', 'noise']), n, 1e30)
        elif how == 4:
            g = [-x for x in o]
        else:
            g = [float(round(x)) for x in o]
        if any(x and not 1e-40 < abs(x) < 1e40 for x in o + g):
            continue
        if r.random() < .04 and n:
            (o if r.random() < .5 else g).pop()
        pairs.append((gen.hexs(o), gen.hexs(g)))
    c.validate('MeasuresTrace', c33_events(pairs), 'random pairs')
    pairs = []
    for n in scale([1000, 2048, 5000], [1000, 1023, 1024, 1025, 2048, 4095, 4097, 5000, 20000, 66000]):
        for f in ('decimals', 'walk'):
            o = [x + 3 for x in gen.series(r, f, n, 1e6)]
            g = list(o)
            for k in {0, n - 1, r.randrange(n), r.randrange(n // 2)} if f == 'walk' else range(n):      # off at a few places, or everywhere
                g[k] += r.choice([1, -1]) * r.random() * 10
            pairs.append((gen.hexs(o), gen.hexs(g)))
    c.validate('MeasuresTrace', c33_events(pairs), 'long pairs')


# ------------------------------------------------------------------ C38

def c38_events(many):
    evs = []
    for s, x in zip(many, harness([{'op': 'stats', 's': s} for s in many])):
        ev = {'s': gen.words(s), 'fails': 'bitdepth' not in x, 'case': {'s': s, 'got': x}}
        if not ev['fails']:
            ev.update({k: gen.words(x[k])[0] for k in ('min', 'max', 'mean')})
            ev.update({k: x[k] for k in ('minat', 'maxat', 'fractional', 'bitdepth')})
        evs.append(ev)
    return evs


LIMITS = [0, 1, -1, 127, 128, -128, -129, 254, 255, 256, 257, -255, -256, 32766, 32767, 32768, -32767, -32768, -32769, 65535, 65536,
          2**31 - 2, 2**31 - 1, 2**31, -2**31 + 1, -2**31, -2**31 - 1, 2**32 - 1, 2**32, 2**53, -2**53, 2**63, -2**63, 2**64, 1e300, -1e300]


def c38(c):
    r = rng('C38')
    m = c.spec('StatsMC', 'StatsMC', consts=scale(None, {'MaxLen': '3'}))
    c.exhaustive.append('all series of StatsMC')
    hx = lambda ws: ''.join(unword(w) for w in ws)
    c.validate('StatsTrace', c38_events([hx(p['s']) for p in m.prints]), 'series of the specification')
    many = []
    while len(many) < scale(2500, 25000):
        n = r.choice([1, 1, 2, 3, 4, 5, 8, 17, 40, 130, 300])
        how = r.randrange(4)
        if how == 0:                        # around the limits of the types
            s = [float(r.choice(LIMITS) + r.choice([0, 0, 1, -1])) for _ in range(n)]
        elif how == 1:                      # within one type, but for one sample
            lo, hi = r.choice([(0, 255), (-32768, 32767), (-2**31, 2**31 - 1), (0, 1), (-3, 3), (-2**31, -1), (250, 255), (32000, 32767)])
            s = [float(r.randint(lo, hi)) for _ in range(n)]
            if r.random() < .7:
                s[r.choice([0, n - 1, r.randrange(n)])] = float(r.choice([lo, hi, lo - 1, hi + 1, .5, lo + .5, hi + .25, 1e-9, -1e-9, -0.0, hi + 1e10, 5e-324]))
        elif how == 2:                      # the same value again and again, and one other
            s = [r.choice([0.0, 7.0, -7.0, .1, 1e5, -1e5, 255.0, 1e17, -1e-17])] * n
            s[r.choice([0, n - 1, r.randrange(n)])] += r.choice([1, -1, .5, 1e-3, 0])
        else:
            s = gen.series(r, r.choice(['smallint', 'walk', 'zeros', 'negint', 'sine0', 'decimals', 'runs', 'noise', 'fewdistinct', 'wideint', 'alternate', 'sparse', 'minusconst', 'metric']), n, 1e30)
        many.append(gen.hexs(s))
    c.validate('StatsTrace', c38_events(many), 'random series')
    many = []
    for n in scale([1025, 4097, 66000], [512, 1023, 1024, 1025, 4096, 4097, 10000, 66000, 140000]):
        for at in (n - 1, r.randrange(n)):
            s = [float(r.randint(-100, 100)) for _ in range(n)]
            s[at] = r.choice([.5, 300.0, 40000.0, 3e9, -40000.0, -200.0])
            many.append(gen.hexs(s))
    c.validate('StatsTrace', c38_events(many), 'long series')


# ------------------------------------------------------------------ C32

def c32_events(times, r):
    ask = [{'op': 'clock', 'ts': d * 86400 + s, 'ns': r.choice([0, 0, 1, 999999999, r.randrange(10**9)])} for d, s in times]
    evs = []
    for (d, s), q, x in zip(times, ask, harness(ask)):
        a, b = divmod(x.get('start', -1), 86400)
        evs.append({'t': {'day': d, 'sec': s}, 'elapsed': x.get('elapsed', -1), 'start': {'day': a, 'sec': b}, 'case': {'asked': q, 'got': x}})
    return evs


def c32(c):
    r = rng('C32')
    m = c.spec('Clock', 'Clock')
    c.exhaustive.append('all times of Clock')
    c.validate('ClockTrace', c32_events([(p['day'], p['sec']) for p in m.prints], r), 'times of the specification')
    times = [(r.choice([19000, 20776, -1, 0, 1, 11016, r.randint(-700000, 2900000), r.randint(-90000000, 90000000)]), r.choice([0, 1, 86399, r.randrange(86400), 3600 * r.randrange(24), 60 * r.randrange(1440)]))
             for _ in range(scale(6000, 60000))]
    days = scale([20000], [0, -1, 20000, 19782, 40000])
    times += [(d, s) for d in days for s in range(86400)]
    c.exhaustive.append('every second of %d day(s)' % len(days))
    for b in range(0, len(times), 60000):
        c.validate('ClockTrace', c32_events(times[b:b + 60000], r), 'random times, and all seconds of a day')


# ------------------------------------------------------------------ C31

def listed(line):
    """the samples of a line like Input=[1.0, NaN]"""
    m = re.fullmatch(r'(\w+)=\[(.*)\]', line)
    if not m:
        return None
    try:
        v = [float(x) for x in m.group(2).split(', ')] if m.group(2) else []
    except ValueError:
        return None
    return {'label': m.group(1), 'of': gen.words(gen.hexs(v))}


def c31(c):
    r = rng('C31')
    m = c.spec('VerboseMC', 'VerboseMC')
    c.exhaustive.append('all runs of VerboseMC')
    con = cl.Contents()
    cases = []
    for p in m.prints:
        for _ in range(scale(4, 40)):
            series = [gen.series(r, r.choice(gen.FAMILIES), r.choice([0, 1, 2, 3, 10, 100, 300, 600]), 1e300) for _ in range(p['files'])]
            if p['front'] != 'bro' and r.random() < .3:
                series = [gen.with_nonfinite(r, s) for s in series]
            cases.append((p, [gen.hexs(s) for s in series], r.choice([('auto', 3, 0), ('noop', 0, 0), ('polynomial', 0, 0), ('constant', 0, 0), ('auto', 20, 6)])))
        if p['verbose'] and p['files'] == 1 and not p['dir']:       # a line of any length
            n = r.choice([135000, 150000])
            cases.append((p, [gen.hexs([float(q // r.choice([700, 1000]) % 9) for q in range(n)])], ('rle', 0, 0)))
    raws = iter(cl.wbro_bytes([s for p, ss, _ in cases for s in ss]))
    bros = iter(cl.bro_bytes([st + (s,) for p, ss, st in cases for s in ss]))
    packed = []
    for p, ss, st in cases:
        packed.append([(next(raws), next(bros)) for s in ss])
    back = iter(harness([{'op': 'load', 'bytes': b.hex()} for x in packed for _, b in x]))

    def one(k):
        p, ss, st = cases[k]
        root = tempfile.mkdtemp(prefix='vb-')
        try:
            names = []
            for q, s in enumerate(ss):
                n = ('d/' if p['dir'] else '') + 'f%d.%s' % (q, {'wbro': 'wbro', 'csv': 'csv', 'plain': 'csv', 'bro': 'bro'}[p['front']])
                vals = [repr(v) for v in gen.unhex(s)]
                b = {'wbro': packed[k][q][0], 'bro': packed[k][q][1], 'csv': '\n'.join(['time,value'] + ['%d,%s' % (j, v) for j, v in enumerate(vals)]).encode(),
                     'plain': '\n'.join(vals).encode()}[p['front']]
                put_tree(root, {n: b})
                names.append(n)
            a = ['atsc'] + {'wbro': [], 'bro': ['-u'], 'csv': ['--csv'], 'plain': ['--csv', '--no-header']}[p['front']]
            if p['front'] != 'bro':
                a += ['--compressor', st[0], '-e', str(st[1]), '-c', str(st[2])]
            a += ['--verbose'] * p['verbose'] + ['d' if p['dir'] else names[0]]
            rc, out = run_cmd(a, root)
            return rc, out, a
        finally:
            shutil.rmtree(root)
    evs = []
    for (p, ss, st), pk, (rc, out, a) in zip(cases, packed, parallel(one, range(len(cases)))):
        given = []
        for s in ss:
            x = next(back)
            given.append(gen.words(x['out'] if p['front'] == 'bro' and 'out' in x else s))
        lines = [listed(l) for l in out.split('\n')[:-1]] if out else []
        nan = lambda ws: [[0, 0, 0, 32760] if (w[3] & 0x7ff0) == 0x7ff0 and (w[3] & 15 or w[2] or w[1] or w[0]) else w for w in ws]
        evs.append({'run': p, 'rc': rc, 'given': [nan(w) for w in given],
                    'lines': [{'label': l['label'], 'of': nan(l['of'])} for l in lines if l], 'case': {'args': a, 'series': ss}})
    c.validate('VerboseTrace', evs, 'runs of the specification')


# ------------------------------------------------------------------ C34

SETTINGS = {('tz', 'east'): {'TZ': 'XST-9:30'}, ('tz', 'west'): {'TZ': 'XST7XDT,M3.2.0,M11.1.0'}, ('tz', 'missing'): {'TZ': ':/nowhere/at/all'},
            ('lang', 'de'): {'LC_ALL': 'de_DE.UTF-8', 'LANG': 'de_DE.UTF-8'}, ('lang', 'bytes'): {'LC_ALL': 'C', 'LANG': 'C'},
            ('log', 'error'): {'RUST_LOG': 'error'}, ('log', 'trace'): {'RUST_LOG': 'trace', 'RUST_BACKTRACE': 'full'}, ('log', 'odd'): {'RUST_LOG': ',atsc=,=x,vsri=debug'},
            ('width', 'narrow'): {'COLUMNS': '20', 'NO_COLOR': '1', 'TERM': 'dumb'}}
_BINS = {}
_LOCK = threading.Lock()


def open_bins():
    """the commands, where any user may run them"""
    with _LOCK:
        if not _BINS:
            d = tempfile.mkdtemp(prefix='bins-')
            # by another process: a descriptor open for writing here could be inherited by a command started meanwhile,
            # and the copy would be busy
            subprocess.run(['cp'] + [os.path.join(vlib.BIN, x) for x in ('atsc', 'csv-compressor', 'wav2wbro')] + [d], check=True)
            os.chmod(d, 0o755)
            _BINS['dir'] = d
            import atexit
            atexit.register(shutil.rmtree, d, True)
        return _BINS['dir']


def c34_jobs(r, n):
    """(files, command, arguments: {name} stands for a path to that name)"""
    s = lambda f, k=n: gen.hexs(gen.series(r, f, k, 1e30))
    fam = lambda: r.choice(['walk', 'runs', 'twoparts', 'metric', 'smallint', 'sine', 'decimals', 'zeros', 'minusconst', 'fewdistinct'])
    # any change of the settings shows: at first one codec is the smallest, later on another; and a noisy wave
    k = max(2, min(n // 2, r.choice([130, 260, 520])))
    telling = [[q // 50 % 3 + .5 if q < k else r.random() for q in range(n)], [100 + 20 * math.sin(q / 9) + r.uniform(-9, 9) for q in range(n)]]
    raw = cl.wbro_bytes([s(fam()) for _ in range(3)] + [gen.hexs(t) for t in telling])
    bro = cl.bro_bytes([('auto', 3, 0, s(fam())), ('polynomial', 0, 0, s('metric')), ('fft', 5, 0, s('sine'))])
    rows = tc.rows_of(r, n)
    plain = '\n'.join(['time,value'] + ['%d,%r' % (k, v) for k, v in enumerate(gen.unhex(s(fam())))]).encode()
    w = cv.wav(4, [gen.words('%016x' % gen.bits(k / 8))[0] for k in range(n)])
    root = tempfile.mkdtemp(prefix='sur-')
    try:
        put_tree(root, {'y.csv': rows})
        run_cmd(['csv-compressor', '--output-vsri', 'y.csv'], root)
        packed = {x: open(os.path.join(root, x), 'rb').read() for x in ('y.bro', 'y.vsri') if os.path.exists(os.path.join(root, x))}
    finally:
        shutil.rmtree(root)
    mode = lambda: ['--compressor', r.choice(ALLMODES), '-e', str(r.choice([0, 1, 3, 20])), '-c', str(r.choice([0, 0, 3, 6]))]
    tool = lambda: ['--compressor', r.choice(['auto', 'noop', 'fft', 'constant', 'polynomial', 'idw']), '-e', str(r.choice([0, 1, 5, 20]))]
    jobs = [({'x.wbro': raw[0]}, ['atsc'] + mode() + ['{x.wbro}']), ({'x.wbro': raw[1]}, ['atsc', '--verbose'] + mode() + ['{x.wbro}']),
            ({'x.bro': bro[0]}, ['atsc', '-u', '{x.bro}']), ({'x.bro': bro[1]}, ['atsc', '-u', '--verbose', '{x.bro}']), ({'x.bro': bro[2]}, ['atsc', '-u', '{x.bro}']),
            ({'x.csv': plain}, ['atsc', '--csv', '--verbose'] + mode() + ['{x.csv}']), ({'x.csv': plain}, ['atsc', '--csv', '--fields', 'time,value'] + mode() + ['{x.csv}']),
            ({'x.csv': rows}, ['csv-compressor', '--output-vsri', '--output-wavbrro'] + tool() + ['{x.csv}']),
            ({'x.csv': rows}, ['csv-compressor', '--output-vsri', '-o', '{o.p}'] + tool() + ['{x.csv}']),
            (dict(packed), ['csv-compressor', '-u', '{y.bro}']), (dict(packed), ['csv-compressor', '-u', '-o', '{z}', '{y.bro}']),
            ({'x.wav': w}, ['wav2wbro', '{x.wav}']),
            ({'s/a.wbro': raw[0], 's/b.wbro': raw[2], 's/c.txt': b'no'}, ['atsc', '--verbose', '{s}']), ({'s/a.bro': bro[0], 's/b.bro': bro[1]}, ['atsc', '-u', '{s}']),
            ({'x.wbro': raw[3]}, ['atsc', '-e', '0', '{x.wbro}']), ({'x.wbro': raw[4]}, ['atsc', '-e', '5', '-c', '2', '{x.wbro}']), ({'x.wbro': raw[3]}, ['atsc', '--compressor', 'idw', '{x.wbro}']),
            ({'x.wbro': b'no series'}, ['atsc', '{x.wbro}']), ({'x.bro': bro[0][:len(bro[0]) // 2]}, ['atsc', '-u', '{x.bro}']), ({}, ['atsc', '{absent.wbro}']),
            ({'x.csv': b'timestamp,value\n1000,1\n2000,x\n'}, ['csv-compressor', '--output-vsri', '{x.csv}'])]
    # sometimes after an earlier run
    for files, args in jobs:
        if r.random() < .5:
            for f in list(files) + ['o.p', 'z']:
                for x in ('.bro', '.wbro', '.csv', '.vsri', '.wavbro'):
                    if r.random() < .6 and ('-u' not in args or x != '.vsri'):
                        files.setdefault(os.path.splitext(f)[0] + x, OLDER * r.choice([1, 300]))
    return jobs


KNOWN = {'RUST_LOG', 'TZ', 'LANG', 'LC_ALL', 'COLUMNS', 'NO_COLOR', 'TERM', 'HOME', 'PATH', 'LD_PRELOAD'}
CLOCKS = {'past': 86399, 'future': 4102444800 + 7}


# what may stand where a command looks for a file
THINGS = {'number': b'40\n', 'settings': b'error = 40\ncompressor = "noop"\nsample_level = 6\nverbose = true\n', 'flags': b'--error 40 --compressor noop\n', 'empty': b''}
STAMPS = {'past': 1, 'future': 4000000000}
OLDER = b'older'
MODES = {'readonly': 0o444, 'all': 0o777}


class terminal:
    """a terminal of its own for a stream; as an input, somebody presses return"""
    def __init__(self, stream):
        self.master, self.slave = os.openpty()
        a = termios.tcgetattr(self.slave)
        a[1] &= ~termios.OPOST
        a[3] &= ~termios.ECHO
        termios.tcsetattr(self.slave, termios.TCSANOW, a)
        fcntl.ioctl(self.slave, termios.TIOCSWINSZ, struct.pack('HHHH', 24, 80, 0, 0))
        if stream == 'stdin':
            os.write(self.master, b'\n\n\n\x04\x04\x04')
        self.got, self.thread = [], None

    def running(self):
        os.close(self.slave)
        self.slave = None
        self.thread = threading.Thread(target=self.read)
        self.thread.start()

    def read(self):
        try:
            while True:
                b = os.read(self.master, 65536)
                if not b:
                    break
                self.got.append(b)
        except OSError:
            pass

    def end(self):
        if self.slave is not None:
            os.close(self.slave)
        if self.thread:
            self.thread.join(20)
        os.close(self.master)
        return b''.join(self.got)


def c34_run(files, args, where, odd, con, asks=None):
    """asks: a file that takes the names of the variables the command looks up, and another the paths it does not find"""
    top = tempfile.mkdtemp(prefix='sur-')
    try:
        put_tree(top, dict({'w/e': None, 'w/d': None, 'w/l': ('link', 'd'), 'w/d/up': ('link', '..'), 'w/e/m': ('link', '.')}, **{'w/d/' + k: b for k, b in files.items()}))
        at = {'': top, 'w': top + '/w', 'd': top + '/w/d', 'e': top + '/w/e'}
        pre = '/'.join(([top] if where['abs'] else []) + where['path'])
        pre = pre + '/' if pre else ''
        a = [pre + x[1:-1] if x[0] == '{' else x for x in args]
        have = {(x['aspect'], x['value']) for x in odd}
        env = {'PATH': '/usr/bin:/bin', 'HOME': top, 'RUST_LOG': 'off', 'TZ': 'UTC'}
        if ('home', 'unset') in have:
            env = {'RUST_LOG': 'off'}
        for x in have:
            env.update(SETTINGS.get(x, {}))
            if x[0].startswith('$'):
                env[x[0][1:]] = {'one': '1', 'word': 'always'}[x[1]]
            if x[0] == 'clock':
                env.update({'LD_PRELOAD': cl.around(), 'AROUND_CLOCK': str(CLOCKS[x[1]])})
        if asks:
            env.update({'LD_PRELOAD': cl.around(), 'AROUND_LOG': asks, 'AROUND_MISSED': asks + '.missed'})
        placed = []
        for a_, v in have:
            if a_.startswith('%'):
                p = os.path.join(top, a_[1:])
                if not os.path.lexists(p):
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    with open(p, 'wb') as f:
                        f.write(THINGS[v])
                    placed.append((p, THINGS[v]))
            if a_ in ('stamps', 'modes'):
                for d, ds, fs in os.walk(top):
                    for f in fs:
                        p = os.path.join(d, f)
                        if not os.path.islink(p):
                            os.utime(p, (STAMPS[v],) * 2) if a_ == 'stamps' else os.chmod(p, MODES[v])
        other = ('user', 'other') in have
        if other:
            for d, ds, fs in os.walk(top):
                os.chown(d, 65534, 65534)
                for f in fs:
                    p = os.path.join(d, f)
                    if not os.path.islink(p):
                        os.chown(p, 65534, 65534)
                        os.chmod(p, 0o644 if open(p, 'rb').read(len(OLDER)) == OLDER else 0o444)      # an input, or an output

        def pre_exec():
            if other:
                os.setgroups([])
                os.setgid(65534)
                os.setuid(65534)
            if ('cpus', 'one') in have:
                os.sched_setaffinity(0, {min(os.sched_getaffinity(0))})
            if ('umask', 'private') in have:
                os.umask(0o077)
            for fd, k in ((0, 'stdin'), (1, 'stdout'), (2, 'stderr')):
                if (k, 'closed') in have:
                    os.close(fd)
        ttys = {k: terminal(k) for k in ('stdin', 'stdout', 'stderr') if (k, 'terminal') in have}
        try:
            text = ('stdin', 'text') in have
            p = subprocess.Popen(['/usr/bin/prlimit', '--as=%d' % (2 << 30), os.path.join(open_bins(), a[0])] + a[1:], cwd=at[where['cwd']], env=env,
                                 stdin=ttys['stdin'].slave if 'stdin' in ttys else subprocess.PIPE if text else subprocess.DEVNULL,
                                 stdout=ttys['stdout'].slave if 'stdout' in ttys else subprocess.PIPE,
                                 stderr=ttys['stderr'].slave if 'stderr' in ttys else subprocess.DEVNULL, preexec_fn=pre_exec)
            for x in ttys.values():
                x.running()
            try:
                out, _ = p.communicate(b'1,2\n3,4\n' if text else None, timeout=60)
                rc = vlib.started(p)
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                rc, out = 1000, b''
        finally:
            shown_ = {k: x.end() for k, x in ttys.items()}
        out = shown_.get('stdout', out)
        seen = 'unseen' if ('stdout', 'closed') in have else con.token(b'\n'.join(sorted(out.split(b'\n'))))
        for l in ('w/l', 'w/d/up', 'w/e/m'):
            os.unlink(os.path.join(top, l))
        for p, b in placed:
            if os.path.isfile(p) and open(p, 'rb').read() == b:
                os.unlink(p)
                p = os.path.dirname(p)
                while p not in (top, at['w'], at['d'], at['e']) and not os.listdir(p):
                    os.rmdir(p)
                    p = os.path.dirname(p)
        if asks and os.path.exists(asks + '.missed'):
            lines = {os.path.normpath(x) for x in open(asks + '.missed', errors='replace').read().split('\n') if x}
            with open(asks + '.missed', 'w') as f:
                f.write('\n'.join(sorted(os.path.relpath(x, top) for x in lines if x.startswith(top + '/') and not os.path.lexists(x))))
        return {'rc': rc, 'fs': snapshot(top, con), 'printed': seen}
    finally:
        shutil.rmtree(top, True)


def watched(jobs, here, con):
    """the variables of the environment that the commands look up, and the paths that they do not find"""
    d = tempfile.mkdtemp(prefix='asks-')
    try:
        parallel(lambda k: c34_run(jobs[k][0], jobs[k][1], here, [], con, os.path.join(d, str(k))), range(len(jobs)))
        paths = {x for f in os.listdir(d) if f.endswith('.missed') for x in open(os.path.join(d, f), errors='replace').read().split('\n')}
        names = {x for f in os.listdir(d) if not f.endswith('.missed') for x in open(os.path.join(d, f), errors='replace').read().split('\n')}
        # files of the job itself are no surroundings
        own = re.compile(r'(.*/)?(x|y|z|o|s|a|b|absent)(\.(bro|wbro|csv|vsri|wavbro|wav|p))?')
        return {x for x in names if re.fullmatch('[A-Za-z_][A-Za-z0-9_]*', x)}, {x for x in paths if re.fullmatch('[A-Za-z0-9_./ -]+', x) and not own.fullmatch(x)}
    finally:
        shutil.rmtree(d, True)


def c34(c):
    r = rng('C34')
    m = c.spec('Surround', 'Surround', consts={'What': '"path"', 'MaxLen': scale('4', '5')})
    paths = m.prints
    c.exhaustive.append('all ways of writing a path of up to %s components' % scale('4', '5'))
    con = cl.Contents()
    here = {'cwd': 'd', 'abs': False, 'path': []}
    jobs = c34_jobs(r, 60)
    asked, sought = watched(jobs, here, con)
    sought = sorted(sought & watched(jobs, here, con)[1])[:8] if sought else []       # names that are different every time are out
    if sought:
        c.notes.append('files the commands look for: ' + ' '.join(sought))
    if asked:
        c.notes.append('variables the commands look up: ' + ' '.join(sorted(asked)))
    asked = sorted(asked - KNOWN)[:12]
    m = c.spec('Surround', 'Surround', consts={'MaxOdd': scale('2', '3'), 'Asked': '{%s}' % ', '.join('"$%s"' % x for x in asked), 'Sought': '{%s}' % ', '.join('"%%%s"' % x for x in sought)})
    odds = list({tuple(sorted((x['aspect'], x['value']) for x in p)): p for p in m.prints}.values())
    c.exhaustive.append('all surroundings that differ in up to %s respects from the ordinary' % scale('2', '3'))
    if os.getuid():
        odds = [p for p in odds if all(x['aspect'] != 'user' for x in p)]
        c.notes.append('not run as root: no other user')
    try:
        for f in os.openpty():
            os.close(f)
    except OSError:
        odds = [p for p in odds if all(x['value'] != 'terminal' for x in p)]
        c.notes.append('no terminals here')
    todo = []
    for n in scale([0, 1, 2, 60, 700], [0, 1, 2, 3, 60, 127, 128, 700, 2500]):
        jobs = c34_jobs(r, n)
        todo += [(j, where, []) for j in jobs for where in r.sample(paths, min(len(paths), scale(12, 80)))]
        todo += [(j, here, p) for j in jobs for p in odds if len(p) == 1]
        more = [p for p in odds if len(p) > 1]
        todo += [(j, r.choice(paths), p) for j in jobs for p in r.sample(more, min(len(more), scale(14, 120)))]
    # every path and every surroundings at least once
    todo += [(r.choice(jobs), w, []) for w in paths] + [(r.choice(jobs), here, p) for p in odds]
    base = list({id(j): j for j, _, _ in todo}.values())
    plain = dict(zip((id(j) for j in base), parallel(lambda j: c34_run(j[0], j[1], here, [], con), base)))
    there = parallel(lambda x: c34_run(x[0][0], x[0][1], x[1], x[2], con), todo)
    c.validate('SurroundTrace', [{'plain': plain[id(j)], 'there': t, 'case': {'args': j[1], 'where': w, 'odd': p, 'files': {k: b[:3000].hex() for k, b in j[0].items()}}}
                                 for (j, w, p), t in zip(todo, there)], 'commands in other surroundings')
