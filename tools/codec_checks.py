"""Properties of series, frames and streams (C01 to C13)."""
import concurrent.futures, json, math, os, random, re, shutil, struct, subprocess, tempfile
import gen, vlib
from vlib import BIN, NCPU, SEED, THOROUGH, harness

MODES = ['auto', 'polynomial', 'idw']
ALLMODES = ['auto', 'polynomial', 'idw', 'fft', 'rle', 'noop', 'constant']


def rng(tag):
    return random.Random('%s/%d' % (tag, SEED))


def scale(quick, thorough):
    return thorough if THOROUGH else quick


def failed(res, *keys):
    """why a call did not return, if it did not"""
    if 'died' in res:
        return res['died']
    for k in keys:
        if k not in res:
            return next((str(v) for q, v in res.items() if q.endswith('panic')), 'no result')
    return None


# ------------------------------------------------------------------ recording

def record_pipe(cases):
    """Runs pipelines (or single frames) and records events"""
    req = []
    for c in cases:
        if c.get('frame'):
            req.append({'op': 'stream', 'chunks': [{'c': c['mode'], 'how': c.get('how', 'bounded'), 'e': c['e'],
                                                   'level': c['level'], 'data': c['data']}]})
        else:
            req.append({'op': 'pipe', 'mode': c['mode'], 'how': c.get('how', 'bounded'), 'e': c['e'], 'level': c['level'],
                        'data': c['data']})
    return [pipe_event(c, r) for c, r in zip(cases, harness(req))]


def pipe_event(c, r):
    ev = {'k': 'pipe', 'mode': c['mode'], 'e': c['e'], 'level': c['level'], 'data': gen.words(c['data']), 'case': c}
    why = failed(r, 'out', 'bytes')
    if why:
        ev['panic'] = why
    else:
        ev['bytes'] = gen.blist(r['bytes'])
        ev['out'] = gen.words(r['out'])
    return ev


def run_cmd(args, cwd, timeout=60, limit=None, stdin=None, more=None):
    """Runs a command of the project; returns (status, output). limit: largest file it may write; more: variables of its environment"""
    pre = None
    if limit is not None:
        import resource, signal

        def pre():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
    env = dict({'PATH': '/usr/bin:/bin', 'HOME': cwd, 'RUST_LOG': 'off', 'TZ': vlib.ZONE}, **(more or {}))
    try:
        p = subprocess.run(['prlimit', '--as=%d' % (2 << 30), '--nofile=24', os.path.join(BIN, args[0])] + args[1:], cwd=cwd, env=env, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=pre)
        return vlib.started(p), p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        return 1000, ''


def record_cli(cases):
    """The same through the commands: a WBRO file, or a CSV file, is compressed and decompressed"""
    front = [('wbro', 'wbro', 'csv', 'tool')[k % 4] if c['mode'] != 'rle' else ('wbro', 'csv')[k % 2] for k, c in enumerate(cases)]
    top = tempfile.mkdtemp(prefix='cli-')
    try:
        dirs = [os.path.join(top, str(k)) for k in range(len(cases))]
        for d in dirs:
            os.mkdir(d)
        harness([{'op': 'wfile', 'path': os.path.join(d, 'x.wbro'), 'data': c['data']} for d, c in zip(dirs, cases)])

        def one(k):
            d, c = dirs[k], cases[k]
            a = ['--compressor', c['mode'], '-e', str(c['e']), '-c', str(c['level'])]
            if front[k] != 'wbro':
                values = [repr(v) for v in gen.unhex(c['data'])]
                with open(os.path.join(d, 'x.csv'), 'w') as f:
                    if front[k] == 'csv':
                        f.write('time,value\n' + ''.join('%d,%s\n' % x for x in enumerate(values)))
                    else:
                        f.write('timestamp,value\n' + ''.join('%d,%s\n' % (1000 * q, v) for q, v in enumerate(values)))
            if front[k] == 'tool':
                rc, _ = run_cmd(['csv-compressor', '--output-vsri'] + a + ['x.csv'], d)
            elif front[k] == 'csv':
                rc, _ = run_cmd(['atsc', '--csv'] + a + ['x.csv'], d)
            else:
                rc, _ = run_cmd(['atsc'] + a + ['x.wbro'], d)
            if rc:
                return {'died': 'compression exits with %d' % rc}
            try:
                b = open(os.path.join(d, 'x.bro'), 'rb').read()
            except OSError:
                return {'died': 'no output'}
            os.remove(os.path.join(d, 'x.wbro'))
            rc, _ = run_cmd(['atsc' if front[k] != 'tool' else 'csv-compressor', '-u', 'x.bro'], d)
            if rc:
                return {'died': 'decompression exits with %d' % rc}
            return {'bytes': b.hex()}
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(one, range(len(cases))))
        outs = harness([{'op': 'wfile', 'path': os.path.join(d, 'x.wbro')} for d in dirs])
        for r, o in zip(res, outs):
            if 'out' in o:
                r['out'] = o['out']
        return [pipe_event(dict(c, cli=f), r) for c, f, r in zip(cases, front, res)]
    finally:
        shutil.rmtree(top)


def batches(cases, size=400000):
    b, n = [], 0
    for c in cases:
        k = len(c.get('data', '')) // 16 + 10
        if b and n + k > size:
            yield b
            b, n = [], 0
        b.append(c)
        n += k
    if b:
        yield b


def pipe_cases(r, budget, modes, es, levels, limit, families=gen.FAMILIES, nonfinite=0.0, hows=('bounded',), lengths=gen.LENGTHS,
               nonempty=False):
    cases = []
    for k, (f, n) in enumerate(gen.spread(r, budget, lengths, families)):
        mode = r.choice(modes)
        d = gen.series(r, f, n, limit if mode != 'fft' else 1e30)
        if mode == 'constant' and r.random() < .8:
            d = [d[0]] * len(d) if d else d
        frame = r.random() < .4 and n > 0
        if not frame and r.random() < nonfinite:
            d = gen.with_nonfinite(r, d)
        how = r.choice(hows)
        if mode == 'auto':
            how = 'bounded'
        cases.append({'mode': mode, 'how': how, 'e': r.choice(es), 'level': r.choice(levels) if mode == 'auto' else 0,
                      'frame': frame, 'family': f, 'data': gen.hexs(d)})
    return cases


LEVELS = [0, 0, 0, 1, 2, 3, 4, 5, 6, 6]


# ------------------------------------------------------------------ properties

def c01(c, prop='C01'):
    e = [0] if prop == 'C02' else [1, 2, 3, 5, 7, 10, 15, 20, 25, 30, 40, 49, 50]
    c.spec('ErrCtl', 'ErrCtl', consts={'Levels': scale('2', '4')} if THOROUGH else None)
    r = rng(prop)
    for b in batches(pipe_cases(r, scale(300000, 6000000), MODES, e, LEVELS, 1e300)):
        c.validate('CodecTrace', record_pipe(b), 'library')
    # frames long enough for every sample level to work on a part of them
    fams = ['smallstart', 'sine', 'outlierlast', 'metric', 'runs', 'walk', 'sparse', 'spikes', 'zeros', 'steps']
    long = pipe_cases(r, scale(60000, 800000), ['auto'], e, [1, 2, 3, 4, 5, 6], 1e300, families=fams,
                      lengths=[128, 200, 256, 512, 700, 1024, 1500, 2048, 4096, 4500])
    for n in scale([8192, 16384, 40000], [8192, 16384, 32768, 65536, 131072, 200000]):
        for mode, level in (('auto', 0), ('auto', r.choice([1, 6])), ('polynomial', 0)):
            long.append({'mode': mode, 'how': 'bounded', 'e': r.choice(e), 'level': level, 'frame': False,
                         'data': gen.hexs(gen.series(r, r.choice(['twoparts', 'walk', 'metric', 'smallstart', 'spikes', 'sine', 'runs']), n, 1e300))})
    # the largest frames there are, easy at first and hard later on, or the other way round
    for mode, n, easy in scale([('polynomial', 131072, 65536)], [(m, n, k) for m in MODES for n in (65536, 131072) for k in (n // 2, n - 5000, 0)]):
        d = [100.0 + q % 1000 if q < easy else r.uniform(50, 150) for q in range(n)]
        if r.random() < .4 and mode != 'polynomial':
            d.reverse()
        long.append({'mode': mode, 'how': 'bounded', 'e': r.choice(e), 'level': 0, 'frame': False, 'data': gen.hexs([round(x, 2) for x in d])})
    for b in batches(long):
        c.validate('CodecTrace', record_pipe(b), 'sampled selection')
    c.validate('CodecTrace', record_cli(pipe_cases(r, scale(20000, 200000), MODES, e, LEVELS, 1e300)), 'commands')


def c02(c):
    c01(c, 'C02')


def c03(c):
    r = rng('C03')
    c.spec('CodecsMC', 'CodecsMC', consts=scale(None, {'Alphabet': '{1, 3, 5, 8, 9, 12, 14, 15, 18, 22}', 'MaxLen': '3'}))
    # every length up to a bound, and around the thresholds
    every = list(range(0, scale(140, 1100))) + [n for n in gen.LENGTHS if n >= 140]
    cases = []
    for n in every:
        for mode in ALLMODES if n in (0, 1, 2, 127, 128, 129) else r.sample(ALLMODES, 2):
            fams = ['const', 'ramp'] if mode == 'constant' else ['smallint', 'sine', 'zeros', 'walk', 'runs', 'mixed', 'almostconst', 'const']
            d = gen.series(r, r.choice(fams), n, 1e30)
            if r.random() < .3:
                d = gen.with_nonfinite(r, d)
            cases.append({'mode': mode, 'how': 'plain' if mode in ('rle', 'noop', 'constant') else 'bounded',
                          'e': r.choice([0, 0, 1, 3, 10, 50]), 'level': r.choice(LEVELS) if mode == 'auto' else 0,
                          'frame': False, 'data': gen.hexs(d)})
    cases += pipe_cases(r, scale(60000, 2000000), ALLMODES, [0, 1, 3, 5, 10, 30, 50], LEVELS, 1e30, nonfinite=.3, hows=('bounded', 'plain'))
    for n in scale([131071, 131072, 131073, 150000], [131071, 131072, 131073, 131584, 131585, 150000, 262144, 262145, 300000]):
        cases.append({'mode': r.choice(['rle', 'noop', 'constant']), 'how': 'plain', 'e': 1, 'level': 0,
                      'frame': False, 'data': gen.hexs(gen.series(r, 'runs', n))})
    for b in batches(cases):
        c.validate('CodecTrace', record_pipe(b), 'library')
    c.validate('CodecTrace', record_cli(pipe_cases(r, scale(15000, 200000), ALLMODES, [0, 1, 5, 50], LEVELS, 1e30, nonfinite=.5)), 'commands')


def c13(c):
    r = rng('C13')
    c.spec('StreamGen', 'StreamGen', consts=scale(None, {'Big': 'TRUE'}))
    modes = ['auto', 'polynomial', 'idw', 'fft', 'rle', 'polynomial', 'idw', 'fft']
    for b in batches(pipe_cases(r, scale(300000, 5000000), modes, [0, 1, 2, 3, 5, 10, 20, 30, 50], LEVELS, 1e300, hows=('bounded', 'bounded', 'plain'))):
        c.validate('CodecTrace', record_pipe(b), 'library')
    c.validate('CodecTrace', record_cli(pipe_cases(r, scale(15000, 200000), modes, [0, 1, 5, 50], LEVELS, 1e300)), 'commands')


def mc_series(c, quick, thorough):
    """series enumerated by the specification"""
    out = []
    values_ok()
    for consts in scale(quick, thorough):
        m = c.spec('CodecsMC', 'CodecsMC', consts=consts)
        c.exhaustive.append('all series over %s' % (consts or 'the default alphabet, up to 2 samples'))
        out += [[VALUES[k - 1] for k in p['s']] for p in m.prints]
    return out


VALUES = [0.0, -0.0, 1.0, -1.0, 0.5, -1.5, 251.0, 255.0, 256.0, 250.0, 32767.0, -32768.0, 32768.0, -32769.0, 2147483647.0, -2147483648.0,
          2147483648.0, -2147483649.0, 1 + 2.0**-52, 2.0**53, 5e-324, 1.7976931348623157e308, 0.1, 384.0]


def values_ok():
    """the table above is that of the specification"""
    import re
    t = open(os.path.join(vlib.SPEC, 'CodecsMC.tla')).read()
    w = re.findall(r'<<(\d+), (\d+), (\d+), (\d+)>>,? +\\\* +(\d+):', t)
    assert len(w) == len(VALUES), (len(w), len(VALUES))
    for a, b, d, e, k in w:
        assert gen.bits(VALUES[int(k) - 1]) == int(a) | int(b) << 16 | int(d) << 32 | int(e) << 48, k


SMALLSETS = [None, {'MaxLen': '8', 'Alphabet': '{1, 5}', 'EmitFrom': '3'}, {'MaxLen': '4', 'Alphabet': '{2, 8, 9, 14, 19}', 'EmitFrom': '3'},
             {'MaxLen': '3', 'Alphabet': '{1, 3, 7, 11, 12, 13, 15, 16, 17, 18}', 'EmitFrom': '3'}]
BIGSETS = SMALLSETS + [{'MaxLen': '3', 'Alphabet': '{%s}' % ','.join(map(str, range(1, 25))), 'EmitFrom': '3'},
                       {'MaxLen': '10', 'Alphabet': '{4, 23}', 'EmitFrom': '9'}, {'MaxLen': '7', 'Alphabet': '{1, 2, 9}', 'EmitFrom': '4'},
                       {'MaxLen': '5', 'Alphabet': '{4, 8, 9, 14, 18, 22}', 'EmitFrom': '4'}]


def record_codec(cases):
    req = [{'op': 'codec', 'c': c['codec'], 'how': c['how'], 'e': c.get('e', 0), 'data': c['data']} for c in cases]
    out = []
    for c, r in zip(cases, harness(req)):
        ev = {'k': 'codec', 'codec': c['codec'], 'how': c['how'], 'data': gen.words(c['data']), 'case': c}
        why = failed(r, 'out', 'bytes')
        if why:
            ev['panic'] = why
        else:
            ev['bytes'] = gen.blist(r['bytes'])
            ev['out'] = gen.words(r['out'])
            if 'err' in r:
                ev['err'] = gen.words(r['err'])[0]
        out.append(ev)
    return out


def c04(c):
    r = rng('C04')
    cases = [{'codec': 'rle', 'how': r.choice(['plain', 'bounded', 'results']), 'e': 0, 'data': gen.hexs(s)} for s in mc_series(c, SMALLSETS, BIGSETS)]
    c.validate('CodecTrace', record_codec(cases), 'series of the specification')
    cases = []
    for f, n in gen.spread(r, scale(150000, 3000000), [n for n in gen.LENGTHS if n]):
        cases.append({'codec': 'rle', 'how': r.choice(['plain', 'bounded', 'results']), 'e': r.choice([0, 5]), 'data': gen.hexs(gen.series(r, f, n))})
    # positions around the boundaries of their encoding
    for n, at in [(300, 249), (300, 250), (300, 251), (300, 252), (66000, 65534), (66000, 65535), (66000, 65536), (66000, 65537), (131072, 131071)]:
        d = [1.0] * n
        d[at] = -2.5
        d[at // 2] = 7.0
        cases.append({'codec': 'rle', 'how': 'plain', 'e': 0, 'data': gen.hexs(d)})
    # more distinct values than fit one byte, or two
    for k in scale([250, 251, 252, 3000], [250, 251, 252, 65535, 65536, 66000]):
        d = [float(i) for i in range(k)]
        r.shuffle(d)
        cases.append({'codec': 'rle', 'how': 'plain', 'e': 0, 'data': gen.hexs(d + d[:50])})
    for b in batches(cases):
        c.validate('CodecTrace', record_codec(b), 'codec')
    c.validate('CodecTrace', record_pipe(pipe_cases(r, scale(30000, 500000), ['rle'], [0, 5], [0], 1.7e308, hows=('plain', 'bounded'))), 'library')
    c.validate('CodecTrace', record_cli(pipe_cases(r, scale(10000, 100000), ['rle'], [0, 5], [0], 1.7e308)), 'commands')


def c05(c):
    r = rng('C05')
    cases = []
    for s in mc_series(c, SMALLSETS, BIGSETS):
        if all(abs(x) < 2.0**63 for x in s):
            cases.append({'codec': 'noop', 'how': r.choice(['plain', 'bounded', 'results']), 'e': 0, 'data': gen.hexs(s)})
        if len(set(s)) == 1:
            cases.append({'codec': 'constant', 'how': r.choice(['plain', 'bounded', 'results']), 'e': 0, 'data': gen.hexs(s)})
    c.validate('CodecTrace', record_codec(cases), 'series of the specification')
    cases = []
    for f, n in gen.spread(r, scale(120000, 2000000), [n for n in gen.LENGTHS if n]):
        d = gen.series(r, f, n, 9.2e18)
        cases.append({'codec': 'noop', 'how': r.choice(['plain', 'bounded', 'results']), 'e': r.choice([0, 5]), 'data': gen.hexs(d)})
    consts = list(gen.BOUNDARY) + VALUES
    for _ in range(scale(1500, 40000)):
        consts.append(r.choice([r.gauss(0, 1) * 10.0**r.randint(-12, 12), float(r.randint(-2**33, 2**33)), float(r.randint(-40000, 40000)),
                                r.randint(-10**6, 10**6) / 10.0**r.randint(0, 6), r.choice([-1, 1]) * 2.0**r.randint(-1074, 1023),
                                float(r.choice([255, 256, 32767, -32768, 2**31 - 1, -2**31]) + r.randint(-2, 2))]))
    halves = [k + .5 for k in range(-40, 40)] + [math.nextafter(.5, 0), math.nextafter(.5, 1), 2.0**52 + 1, 2.0**53 - 1, 2.0**62, -2.0**62,
                                               9223372036854774784.0, -9223372036854774784.0, 4503599627370495.5, 4503599627370494.5]
    cases.append({'codec': 'noop', 'how': 'plain', 'data': gen.hexs(halves)})
    for x in consts:
        n = r.choice([1, 2, 3, 7, 130, 300]) if r.random() < .2 else r.choice([1, 2, 4])
        cases.append({'codec': 'constant', 'how': r.choice(['plain', 'bounded', 'results']), 'e': 0, 'data': gen.hexs([x] * n)})
    for b in batches(cases):
        c.validate('CodecTrace', record_codec(b), 'codec')
    cli = []
    for _ in range(scale(24, 200)):
        x, n = r.choice(consts), r.choice([1, 2, 100, 511, 512, 513, 700, 1025])
        cli.append({'mode': 'constant', 'e': 3, 'level': 0, 'data': gen.hexs([x] * n)})
        d = gen.series(r, r.choice(gen.FAMILIES), n, 9.2e18)
        cli.append({'mode': 'noop', 'e': 3, 'level': 0, 'data': gen.hexs(d)})
    evs = [dict(e, k='codec', codec=e['mode']) for e in record_cli(cli)]
    c.validate('CodecTrace', evs, 'commands')


def c06(c):
    r = rng('C06')
    c.spec('ErrCtl', 'ErrCtl')
    cases = []
    for f, n in gen.spread(r, scale(120000, 3000000), [n for n in gen.LENGTHS if n]):
        for k in r.sample(['fft', 'polynomial', 'idw', 'rle'], 2):
            d = gen.series(r, f, n, 1e30 if k == 'fft' else 1e300)
            cases.append({'codec': k, 'how': 'results', 'e': r.choice([0, 0, 1, 2, 3, 5, 10, 20, 50, 0.001, 0.0005, 0.015, 0.333]), 'data': gen.hexs(d)})
    # lengths at which padding begins and ends
    for n in list(range(120, 140)) + [143, 144, 145, 161, 162, 191, 192, 215, 216, 242, 243, 255, 256, 257, 287, 288]:
        d = gen.series(r, r.choice(['walk', 'sine', 'metric', 'zeros', 'ramp', 'outlierlast', 'outlierfirst']), n, 1e30)
        cases.append({'codec': 'fft', 'how': 'results', 'e': r.choice([0, 1, 5, 10, 50]), 'data': gen.hexs(d)})
    # long ones
    for n in scale([4097, 5000, 8192, 16384], [4096, 4097, 5000, 8191, 8192, 8193, 16384, 20000, 32768, 65536, 100000]):
        for k in ['fft', 'polynomial', 'idw', 'rle'] if n < 6000 else ['fft', 'polynomial', 'rle']:
            d = gen.series(r, r.choice(['walk', 'metric', 'noise', 'twoparts', 'sine', 'spikes', 'mixed', 'decimals']), n, 1e30)
            cases.append({'codec': k, 'how': 'results', 'e': r.choice([1, 3, 5, 10, 20, 50]), 'data': gen.hexs(d)})
    for b in batches(cases):
        c.validate('CodecTrace', record_codec(b), 'codec')


def c07(c):
    r = rng('C07')
    c.spec('ErrCtl', 'ErrCtl')
    cases = []
    for f, n in gen.spread(r, scale(80000, 1500000), [n for n in gen.LENGTHS if n]):
        cases.append({'e': r.choice([0, 0, 1, 2, 3, 5, 10, 20, 35, 50]), 'data': gen.hexs(gen.series(r, f, n, 1e30))})
    for _ in range(scale(300, 4000)):           # short frames, where sizes are close
        n = r.randint(1, 40)
        cases.append({'e': r.choice([0, 1, 2, 3, 5, 10, 20, 35, 50]), 'data': gen.hexs(gen.series(r, r.choice(gen.FAMILIES), n, 1e30))})
    # the longest frames, of which a part is unlike the rest
    for n in scale([8192, 16384, 65536, 131072], [8192, 16384, 32768, 65536, 131072] * 4):
        for k in (n // 4, n - n // 4) if n < 100000 else (n // 4,):
            x = [[float(q // 50 % 3) for q in range(n)], [q * .25 for q in range(n)]]
            if k > n // 2:
                x.reverse()
            cases.append({'e': r.choice([0, 5]), 'data': gen.hexs(x[0][:k] + x[1][k:])})
    for b in batches(cases, 100000):
        req = []
        for x in b:
            req.append({'op': 'stream', 'chunks': [{'c': 'auto', 'how': 'bounded', 'e': x['e'], 'level': 0, 'data': x['data']}]})
            for k in ('fft', 'polynomial', 'rle'):
                req.append({'op': 'codec', 'c': k, 'how': 'results', 'e': x['e'], 'data': x['data']})
        res = harness(req)
        evs = []
        for q, x in enumerate(b):
            a, cand = res[4 * q], res[4 * q + 1:4 * q + 4]
            ev = {'k': 'auto', 'e': x['e'], 'data': gen.words(x['data']), 'case': x}
            why = failed(a, 'bytes') or next((failed(y, 'bytes', 'out') for y in cand if failed(y, 'bytes', 'out')), None)
            if why:
                ev['panic'] = why
            else:
                ev['bytes'] = gen.blist(a['bytes'])
                ev['cand'] = [{'codec': k, 'bytes': gen.blist(y['bytes']), 'out': gen.words(y['out'])} for k, y in zip(('fft', 'polynomial', 'rle'), cand)]
            evs.append(ev)
        c.validate('CodecTrace', evs, 'auto')


def on_edges(r):
    """for each sample level, series on which one sample more or less of those looked at makes another codec the smallest"""
    out = []
    for level in range(1, 7):
        n = 1 << 13 - level

        def build(k, t):
            s = [singles[q] for q in range(k)] + [.75] * max(0, n - t - k)
            return (s + singles[n:n + 2 * t] + [.75] * n)[:2 * n]
        for t in scale((2, 6, 12), (1, 2, 3, 4, 6, 8, 12, 20)):
            singles = [r.random() for _ in range(2 * n)]
            lo, hi = 0, n - t
            while hi - lo > 1:              # the fewest single samples with which the run-length form is the longer one
                k = (lo + hi) // 2
                d = gen.hexs(build(k, t)[:n])
                a, b = harness([{'op': 'codec', 'c': m, 'how': 'results', 'e': 0, 'data': d} for m in ('rle', 'polynomial')])
                if len(a.get('bytes', '')) > len(b.get('bytes', '')):
                    hi = k
                else:
                    lo = k
            out += [{'level': level, 'e': 0, 'data': gen.hexs(build(k, t))} for k in (lo, hi)]
    return out


def beyond_bound(r):
    """series for which the frequencies of the samples looked at are the smallest encoding, but just beyond the bound"""
    cand, out = [], []
    for _ in range(scale(500, 4000)):
        level, e = r.choice([6, 6, 6, 5, 4]), r.choice([1, 2, 3, 5, 10, 20])
        n = 1 << 13 - level
        noise, p, m, k = r.choice([.03, .1, .5, 1, 3]) * e / 5, r.uniform(.01, .6), r.choice([97, 101, 89]), r.randint(1, 96)
        half = r.random() < .5
        d = [50 + 20 * math.sin(q * p) + (q * q * k % m) * noise * (.2 if half and q >= n else 1) for q in range(2 * n)]
        cand.append({'level': level, 'e': e, 'data': gen.hexs(d)})
    req = [{'op': 'codec', 'c': m, 'how': 'results', 'e': x['e'], 'data': x['data'][:16 << 13 - x['level']]} for x in cand for m in ('fft', 'polynomial', 'rle')]
    res = harness(req)
    for j, x in enumerate(cand):
        f, p, l = res[3 * j:3 * j + 3]
        if 'err' in f and 'bytes' in p and 'bytes' in l and len(f['bytes']) < min(len(p['bytes']), len(l['bytes'])) and x['e'] / 100 < gen.unhex(f['err'])[0] < x['e'] / 30:
            out.append(x)
    return out[:scale(40, 400)]


def c35(c):
    r = rng('C35')
    c.spec('ChoiceMC', 'ChoiceMC', consts=scale(None, {'Sizes': '{1, 2, 3}'}))
    c.exhaustive.append('all sample levels, sides of the bound and orders of sizes in ChoiceMC')
    cases = []
    fam = lambda: r.choice(['runs', 'steps', 'fewdistinct', 'sine', 'walk', 'smallint', 'metric', 'alternate', 'twoparts'])
    for level in range(7):
        first = 128 if level == 0 else 1 << 13 - level
        for k in range(scale({6: 200, 5: 90, 4: 50, 3: 24, 2: 10, 1: 6, 0: 40}, {6: 1200, 5: 600, 4: 300, 3: 140, 2: 50, 1: 24, 0: 200})[level]):
            n = r.choice([first, first + 1, first + first // 2, 2 * first, 3 * first] + [first - 1] * (k % 4 == 0) + [r.randint(2, first)] * (k % 8 == 0))
            if k % 3 == 0:                      # the samples looked at are unlike the others, from just before or behind the last of them
                cut = r.choice([first, first, first, first // 2, first - r.randint(1, 5), first + r.randint(1, 5)])
                d = gen.series(r, fam(), min(cut, n), 1e9) + gen.series(r, fam(), max(0, n - cut), 1e9)
            elif k % 3 == 1:                    # looked at in part, they suggest another one
                d = [float(q // r.choice([3, 10, 40]) % 5) if q < first // 2 else q * .5 for q in range(n)]
                if r.random() < .5:
                    d = d[::-1]
            else:
                d = gen.series(r, r.choice(gen.FAMILIES), n, 1e30)
            cases.append({'level': level, 'e': r.choice([0, 1, 2, 3, 5, 10, 20, 50]), 'data': gen.hexs(d)})
    cases += on_edges(r) + beyond_bound(r)
    differ = 0
    for b in batches(cases, 100000):
        req, at = [], []
        for x in b:
            n, k = len(x['data']) // 16, 1 << 13 - x['level']
            at.append(len(req))
            req.append({'op': 'stream', 'chunks': [{'c': 'auto', 'how': 'bounded', 'e': x['e'], 'level': x['level'], 'data': x['data']}]})
            parts = [x['data']] + [x['data'][:16 * k]] * (x['level'] > 0 and n >= k)
            for d in parts:
                req += [{'op': 'codec', 'c': q, 'how': 'results', 'e': x['e'], 'data': d} for q in ('fft', 'polynomial', 'rle')]
        res = harness(req)
        evs = []
        for j, x in zip(at, b):
            more = [y for y in res[j + 1:j + 7]][:3 + 3 * (x['level'] > 0 and len(x['data']) // 16 >= 1 << 13 - x['level'])]
            ev = {'k': 'level', 'e': x['e'], 'level': x['level'], 'data': gen.words(x['data']), 'case': x}
            why = failed(res[j], 'bytes') or next((failed(y, 'bytes', 'out') for y in more if failed(y, 'bytes', 'out')), None)
            if why:
                ev['panic'] = why
            else:
                ev['bytes'] = gen.blist(res[j]['bytes'])
                ll = [{'codec': q, 'bytes': gen.blist(y['bytes']), 'out': gen.words(y['out'])} for q, y in zip(('fft', 'polynomial', 'rle') * 2, more)]
                ev['cand'], ev['part'] = ll[:3], ll[3:]
                if len(ll) == 6:
                    size = lambda l: min(l, key=lambda y: len(y['bytes']))['codec']
                    differ += size(ll[:3]) != size(ll[3:])
            evs.append(ev)
        c.validate('CodecTrace', evs, 'sample levels')
    c.notes.append('frames on which the samples looked at suggest another codec than the frame (errors left aside): %d' % differ)


def factors(n):
    s = ''
    for p in (2, 3):
        while n % p == 0:
            s, n = s + str(p), n // p
    return s + 'x' * (n > 1)


def c36(c):
    r = rng('C36')
    c.spec('SpectrumMC', 'SpectrumMC', consts=scale(None, {'Lens': '{2, 3, 4, 6}'}))
    c.exhaustive.append('all series of 2, 3 and 4 samples out of {-3, 0, 1, 7} in SpectrumMC')
    # lengths whose transform (of the padded frame, from 128 samples on) divides 15552
    short = [2, 3, 4, 6, 8, 9, 12, 16, 18, 24, 27, 32, 36, 48, 54, 64, 72, 81, 96, 108]
    padded = [(128, 143), (144, 161), (162, 191), (192, 215), (216, 242), (256, 287), (288, 323), (384, 431), (432, 485), (512, 575), (576, 647)]
    cases = []
    for k in range(scale(150, 1500)):
        n = r.choice(short) if k % 3 == 0 else (lambda q: r.choice([q[0], q[1], r.randint(*q)]))(r.choice(padded[:7] if k % 5 else padded))
        how = ('plain', 'plain', 'results', 'bounded')[k % 4]
        kind = r.choice(['noise', 'waves', 'waves', 'steps', 'spike', 'tie', 'const', 'alternate', 'slope'])
        amp = r.choice([1, 3, 20, 100])
        if kind == 'noise':
            d = [r.randint(-amp, amp) for _ in range(n)]
        elif kind == 'waves':
            ws = [(r.random() * amp / 3, r.choice([1, 2, 3, 5, r.random() * n / 2]) / n, r.random() * 6.3) for _ in range(3)]
            o = r.choice([0, 0, amp * .1])
            d = [round(o + sum(a * math.cos(6.2831853 * f * q + p) for a, f, p in ws)) for q in range(n)]
        elif kind == 'steps':
            d = [int(q * 5 // n) * amp // 5 * (-1) ** int(q * 5 // n) for q in range(n)]
        elif kind == 'spike':
            d = [0] * n
            d[r.randrange(n)] = amp
        elif kind == 'tie':                      # frequencies of the same strength
            d = [amp if q % r.choice([2, 3]) == 0 else 0 for q in range(n)]
        elif kind == 'const':
            d = [amp] * n
        elif kind == 'alternate':
            d = [amp if q % 2 else -amp for q in range(n)]
        else:
            d = [q * amp // n - r.choice([0, 1]) for q in range(n)]
        d = [max(-100, min(100, v)) for v in d]
        sh = r.choice([0, 0, 0, 0, r.randint(-12, 12), 60, 95, -60, -95])
        cases.append({'codec': 'fft', 'how': how, 'sh': sh, 'e': r.choice([0, 1, 5, 20, 50]) if how != 'plain' else 0, 'data': gen.hexs([v * 2. ** sh for v in d])})
    evs = record_codec(cases)
    for ev, x in zip(evs, cases):
        ev.update(k='spectrum', sh=x['sh'])
    c.validate('CodecTrace', evs, 'spectra')
    # long frames, whose highest frequencies have no position in the format
    cases = []
    for n in scale([131072, 131072, 65536, 3000], [131072] * 12 + [65536, 100000, 20000]):
        m = next(v for v in range(n + 1, 2 * n) if re.fullmatch('2*3*', factors(v)))
        f = r.choice([65536, m // 2, m // 2 - 1, r.randint(1, m // 2), r.randint(65537, m // 2)]) if m > 131074 else r.randint(1, m // 2)
        if not cases:
            f = 65536
        a = r.choice([20, 40])
        d = [60. + round(a * math.cos(2 * math.pi * (f * (q + (m - n) // 2) % m) / m)) for q in range(n)]
        cases.append({'codec': 'fft', 'how': r.choice(['plain', 'results']), 'e': 50, 'strong': True, 'data': gen.hexs(d)})
    evs = record_codec(cases)
    for ev in evs:
        ev.update(k='mean', strong=True)
        ev.pop('out', None)
    c.validate('CodecTrace', evs, 'long frames')


def distances(n):
    """distances of kept samples in the order they are tried (the specification has its own: Spacing)"""
    ds = []
    p = max(3, n // 100)
    for k in range(23):
        d = max(1, n // p)
        if d not in ds:
            ds.append(d)
        p += max(1, n // (10 if k < 17 else 100))
    return ds


def freq_counts(n):
    c = first = max(3, n // 100)
    out = []
    for k in range(23):
        out.append(c)
        c += max(1, first // (2 if k < 17 else 10))
    return out


def varint(v):
    return bytes([v]) if v < 251 else b'\xfb' + struct.pack('<H', v) if v < 65536 else b'\xfc' + struct.pack('<I', v)


def knots_payload(codec, d, step):
    at = list(range(0, len(d), step))
    if at[-1] != len(d) - 1:
        at.append(len(d) - 1)
    return bytes([{'polynomial': 0, 'idw': 1}[codec], 0]) + varint(len(at)) + b''.join(struct.pack('<d', d[k]) for k in at) + struct.pack('<ddB', min(d), max(d), step)


def fft_parts(b, counts):
    """the payloads with the strongest of the frequencies only, for each number that separates them clearly"""
    try:
        n, p = (b[1], 2) if b[1] < 251 else (struct.unpack_from('<H', b, 2)[0], 4)
        fs = []
        for _ in range(n):
            q = p + (1 if b[p] < 251 else 3)
            fs.append((math.hypot(*struct.unpack_from('<ff', b, q)), b[p:q + 8]))
            p = q + 8
    except (IndexError, struct.error):
        return []
    fs.sort(key=lambda f: -f[0])
    return [b[:1] + varint(k) + b''.join(f[1] for f in fs[:k]) + b[p:] for k in counts if k < n and fs[k - 1][0] > fs[k][0] * 1.001]


def mape(d, o):
    return sum(abs((y - x) / x) if x else math.inf for x, y in zip(d, o) if x != y) / len(d)


def c37(c):
    r = rng('C37')
    c.spec('SpacingMC', 'SpacingMC', consts=scale(None, {'Upto': '40000'}))
    c.exhaustive.append('the order of trials for all lengths up to 3000, and at the powers of two, in SpacingMC')
    pool = []
    for k in range(scale(330, 3000)):
        codec = ('polynomial', 'idw', 'fft')[k % 3]
        n = r.choice([2, 3, 4, 5, 7, 9, 10, 11, 19, 20, 21, 30, 59, 60, 99, 100, 128, 150, 199, 200, 299, 300, r.randint(2, 60), r.randint(60, 420)] + [r.randint(400, 1300)])
        fam = r.choice(['sine', 'sine0', 'walk', 'steps', 'metric', 'noise', 'decimals', 'smallint', 'fewdistinct', 'ramp', 'twoparts', 'wideint'])
        if fam == 'ramp' or k % 15 == 0:
            a, b = r.uniform(-50, 50), r.choice([0, 1e-3, .5, 3, -7])
            d = [a + b * q + r.choice([0, 0, 0, .01, 1]) * r.random() for q in range(n)]
            if k % 15 == 0 or r.random() < .4:   # straight lines of integers, reconstructed exactly
                a = r.choice([2., 3., -1.])
                d = [a * x for x in (range(n) if r.random() < .5 else [abs(q - n // 2) for q in range(n)])]
        else:
            d = gen.series(r, fam, n, 1e9)
        if r.random() < .5:                      # farther from 0, the errors are smaller
            o = 4 * max(map(abs, d)) + 1
            d = [v + o for v in d]
        if codec == 'fft' and n >= 128 and r.random() < .4:
            m = next(v for v in range(n + 1, 2 * n) if re.fullmatch('2*3*', factors(v)))
            ws = [(r.random() * 30, r.randint(1, m // 2), r.random() * 6.3) for _ in range(r.randint(2, 30))]
            d = [100 + sum(a * math.cos(2 * math.pi * f * (q + (m - n) // 2) / m + p) for a, f, p in ws) for q in range(n)]
        if codec == 'fft' and k % 10 == 2:       # no bound is met before the steps become small, or at all
            d = [r.uniform(50, r.choice([60, 100, 1000])) for q in range(r.randint(400, 1100))]
        if min(d) == max(d):
            continue
        pool.append((codec, d))
    # the errors of all that might be kept, to choose bounds near them
    full = harness([{'op': 'codec', 'c': 'fft', 'how': 'bounded', 'e': 0, 'data': gen.hexs(d)} for codec, d in pool if codec == 'fft'])
    full = iter(full)
    tries = []
    for codec, d in pool:
        if codec == 'fft':
            b = bytes.fromhex(next(full).get('bytes', '0000'))
            tries.append(fft_parts(b, freq_counts(len(d))))
        else:
            tries.append([knots_payload(codec, d, s) for s in distances(len(d))])
    outs = iter(harness([{'op': 'dec', 'c': codec, 'n': len(d), 'bytes': b.hex()} for (codec, d), t in zip(pool, tries) for b in t]))
    errs = [[mape(d, gen.unhex(x['out'])) if 'out' in x else math.inf for x in (next(outs) for _ in t)] for (codec, d), t in zip(pool, tries)]
    cases = []
    for (codec, d), er in zip(pool, errs):
        near = [(abs(100 * x - e) / e, e) for x in er for e in (int(100 * x), int(100 * x) + 1) if 0 < e <= 50] if all(map(math.isfinite, er)) else []
        e = 0 if 0 in er[:1] and r.random() < .5 else min(near)[1] if near and r.random() < .6 else r.choice(near)[1] if near and r.random() < .8 else r.choice([0, 1, 2, 5, 20, 50])
        cases.append({'codec': codec, 'how': r.choice(['bounded', 'results']), 'e': e, 'data': gen.hexs(d), 'dense': len(set(d)) == len(d) and len(d) > 20})
    evs = record_codec(cases)
    ask = []
    for ev, (codec, d), x in zip(evs, pool, cases):
        ev.update(k='thrift', e=x['e'], dense=x['dense'], tries=[])
        ev.pop('err', None)
        if 'bytes' not in ev:
            continue
        b = bytes(ev['bytes'])
        if codec == 'fft':
            less = fft_parts(b, freq_counts(len(d)))
        else:
            less = [knots_payload(codec, d, s) for s in distances(len(d)) if s > b[-1]]
        ask += [(ev, b) for b in less]
    for (ev, b), x in zip(ask, harness([{'op': 'dec', 'c': ev['codec'], 'n': len(ev['data']), 'bytes': b.hex()} for ev, b in ask])):
        if 'out' in x:
            ev['tries'].append({'bytes': list(b), 'out': gen.words(x['out'])})
        else:
            ev['panic'] = failed(x, 'out')
    c.validate('CodecTrace', evs, 'bounds close to the error of what is tried')


def c08(c):
    r = rng('C08')
    m = c.spec('PlanMC', 'PlanMC', consts=None)
    lens = sorted(p['n'] for p in m.prints)
    c.exhaustive.append('all lengths 0..1100, and all within 513 of a power of two up to 2^18 as listed in PlanMC')
    if THOROUGH:
        t = open(os.path.join(vlib.SPEC, 'PlanMC.cfg')).read().replace('<- Lens', '<- LensBig')
        lens = sorted({p['n'] for p in c.spec('PlanMC', t).prints})
    lens = [0] + lens + [r.randint(1, 400000) for _ in range(scale(40, 400))]
    req = [{'op': 'planlen', 'lens': lens[k::16]} for k in range(16)]
    evs = []
    for q, res in zip(req, harness(req)):
        if 'plans' not in res:
            evs.append({'k': 'planlen', 'panic': failed(res, 'plans'), 'case': q})
        for p in res.get('plans', []):
            evs.append(dict(p, k='planlen', case={'op': 'planlen', 'lens': [p['n']]}))
    c.validate('CodecTrace', evs, 'lengths of the specification')
    cases = []
    for f, n in gen.spread(r, scale(100000, 1500000)):
        d = gen.series(r, f, n, 1.7e308)
        if r.random() < .8:
            d = gen.with_nonfinite(r, d)
        cases.append({'op': 'plan', 'data': gen.hexs(d)})
    for d in ([math.nan], [math.inf, -math.inf], [math.nan] * 600, [math.nan] * 513 + [1.0], [-0.0, math.nan, 0.0], [math.inf, 5e-324, 1.7976931348623157e308]):
        cases.append({'op': 'plan', 'data': gen.hexs(d)})
    evs = []
    for q, res in zip(cases, harness(cases)):
        ev = {'k': 'plan', 'data': gen.words(q['data']), 'case': q}
        why = failed(res, 'sizes', 'data', 'exec')
        if why:
            ev['panic'] = why
        else:
            ev.update(sizes=res['sizes'], kept=gen.words(res['data']), exec=[gen.words(x[1]) for x in res['exec']])
        evs.append(ev)
    for b in range(0, len(evs), 200):
        c.validate('CodecTrace', evs[b:b + 200], 'planning')
    cases = [x for x in pipe_cases(r, scale(60000, 400000), ['rle', 'noop'], [0], [0], 9e18, nonfinite=.5, hows=('plain',))
             if not x['frame']]
    c.validate('CodecTrace', record_pipe(cases), 'frames in the bytes')
    c.validate('CodecTrace', record_cli(pipe_cases(r, scale(10000, 60000), ['rle', 'noop', 'auto'], [3], [0], 9e18, nonfinite=.5)), 'commands')


def chunk(r, n, codecs=('noop', 'rle', 'constant', 'polynomial', 'idw', 'fft', 'auto')):
    k = r.choice(codecs)
    how = 'bounded' if k in ('auto',) else r.choice(['plain', 'bounded'])
    f = 'const' if k == 'constant' else r.choice(gen.FAMILIES)
    return {'c': k, 'how': how, 'e': r.choice([0, 1, 5, 20, 50]), 'level': r.choice(LEVELS) if k == 'auto' else 0,
            'data': gen.hexs(gen.series(r, f, n, 1e15))}


def c09(c):
    r = rng('C09')
    m = c.spec('Stream', 'Stream', consts={'MaxFrames': scale('3', '4'), 'AllCuts': 'FALSE'})
    S = {1: ('rle', [3., 3., -4.]), 2: ('constant', [200., 200.]), 3: ('noop', [3., 3., -4.]), 4: ('rle', [.5, 70000., 0., 0.]),
         5: ('constant', [9.]), 6: ('noop', [9.])}
    cases = []
    for p in m.prints:
        if p['state'] == 'whole':
            cases.append({'op': 'stream', 'parts': True, 'chunks': [{'c': S[k][0], 'how': 'plain', 'e': 0, 'data': gen.hexs(S[k][1])} for k in p['chunks']]})
    c.exhaustive.append('all streams of up to %s of six chunks' % scale(3, 4))
    for _ in range(scale(250, 5000)):
        k = r.choice([0, 1, 2, 2, 3, 4, 5, 8, 13])
        cases.append({'op': 'stream', 'parts': True, 'chunks': [chunk(r, r.choice([1, 2, 3, 5, 10, 50, 127, 128, 130, 300])) for _ in range(k)]})
    for k in scale([60, 200, 249, 250, 251, 254, 255, 256, 257, 300, 520], [60, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 5000]):
        cases.append({'op': 'stream', 'parts': True, 'chunks': [chunk(r, r.choice([1, 2, 4])) for _ in range(k)]})
    for _ in range(scale(6, 60)):                # the same chunk again and again: frames must not be merged
        ch = chunk(r, r.choice([1, 3, 30]))
        cases.append({'op': 'stream', 'parts': True, 'chunks': [ch] * r.choice([2, 3, 10])})
    for ch in ({'how': 'default'},):
        cases.append({'op': 'stream', 'parts': True, 'chunks': [dict(chunk(r, 5, ('noop',)), **ch), chunk(r, 9), dict(chunk(r, 300, ('noop',)), **ch)]})
    evs = []
    for q, res in zip(cases, harness(cases)):
        ev = {'k': 'chunks', 'case': q}
        why = failed(res, 'parts', 'mem', 'mem2', 'out', 'out2', 'bytes', 'count')
        if not why and any(isinstance(x, dict) for x in res['parts']):
            why = 'a chunk alone fails'
        if why:
            ev['panic'] = why
        else:
            ev.update(parts=[gen.words(x) for x in res['parts']], counts=res['counts'], count=res['count'], bytes=gen.blist(res['bytes']),
                      **{k: gen.words(res[k]) for k in ('mem', 'mem2', 'out', 'out2')})
        evs.append(ev)
    for b in range(0, len(evs), 1500):
        c.validate('CodecTrace', evs[b:b + 1500], 'streams')


def record_plain_streams(cases):
    evs = []
    for q, res in zip(cases, harness(cases)):
        ev = {'k': 'chunks', 'case': q, 'parts': []}
        why = failed(res, 'bytes', 'out')
        if why:
            ev['panic'] = why
        else:
            ev.update(bytes=gen.blist(res['bytes']), codecs=[x['c'] for x in q['chunks']], data=[gen.words(x['data']) for x in q['chunks']])
        evs.append(ev)
    return evs


PLAIN = ['noop', 'rle', 'polynomial', 'idw', 'constant']


def c10(c):
    r = rng('C10')
    cases = []
    for s in mc_series(c, SMALLSETS, BIGSETS[:6]):
        cases.append({'op': 'stream', 'chunks': [{'c': k, 'how': 'plain', 'e': 0, 'data': gen.hexs(s)} for k in PLAIN[:4] if k != 'noop' or all(abs(x) < 9e18 for x in s)]})
    for f, n in gen.spread(r, scale(60000, 1500000), [n for n in gen.LENGTHS if n and n <= 2100]):
        k = r.choice(PLAIN)
        d = gen.series(r, f, n, 9e18 if k == 'noop' else 1.7e308)
        if k == 'constant':
            d = [d[0]] * n
        cases.append({'op': 'stream', 'chunks': [{'c': k, 'how': 'plain', 'e': 0, 'data': gen.hexs(d)}]})
    for k in (0, 2, 3, 250, 251, 255, 256, 300):
        cases.append({'op': 'stream', 'chunks': [{'c': 'noop', 'how': 'plain', 'e': 0, 'data': gen.hexs([float(i % 7)])} for i in range(k)]})
    evs = record_plain_streams(cases)
    for b in range(0, len(evs), 1500):
        c.validate('CodecTrace', evs[b:b + 1500], 'bytes of what the compressor writes')
    m = c.spec('StreamGen', 'StreamGen', consts=scale(None, {'Big': 'TRUE'}))
    c.exhaustive.append('all streams of StreamGen')
    cases = [{'op': 'load', 'bytes': bytes(p['bytes']).hex()} for p in m.prints]
    evs = record_load(cases)
    c.validate('CodecTrace', evs, 'streams of the specification')


def record_load(cases):
    evs = []
    for q, res in zip(cases, harness(cases)):
        ev = {'k': 'load', 'bytes': gen.blist(q['bytes']), 'case': q}
        why = failed(res, 'out')
        if why:
            ev['panic'] = why
        else:
            ev.update(version=res['version'], count=res['count'], out=gen.words(res['out']))
        evs.append(ev)
    return evs


def c11(c):
    import cli_checks
    r = rng('C11')
    m = c.spec('Stream', 'Stream', consts=scale(None, {'MaxFrames': '3'}))
    c.exhaustive.append('all cuts, spoiled magics and versions of all streams of up to %s of six chunks' % scale(2, 3))
    seen, cases = set(), []
    for p in m.prints:
        h = bytes(p['bytes']).hex()
        if h not in seen:
            seen.add(h)
            cases.append({'op': 'load', 'bytes': h})
    c.validate('CodecTrace', record_load(cases), 'streams of the specification')
    # every cut of streams the compressor writes
    req = []
    for _ in range(scale(60, 600)):
        k = r.choice([1, 1, 2, 3])
        req.append({'op': 'stream', 'chunks': [chunk(r, r.choice([1, 2, 5, 20, 60, 130, 300])) for _ in range(k)]})
    for k in (254, 255, 256, 300):
        req.append({'op': 'stream', 'chunks': [{'c': 'noop', 'how': 'plain', 'e': 0, 'data': gen.hexs([float(i)])} for i in range(k)]})
    streams = [x['bytes'] for x in harness(req) if 'bytes' in x]
    cuts = []
    for s in streams:
        n = len(s) // 2
        ks = list(range(n + 1)) if n <= scale(400, 3000) else sorted({0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, n, n - 1, n - 2, n - 3} | {r.randrange(n) for _ in range(300)})
        cuts.append({'op': 'cuts', 'bytes': s, 'cuts': ks})
    evs = []
    for q, res in zip(cuts, harness(cuts)):
        evs.append({'k': 'cuts', 'case': q, 'bytes': gen.blist(q['bytes']), 'cuts': [[a, b] for a, b, _ in res.get('cuts', [])] or [[len(q['bytes']) // 2, False]]})
    c.validate('CodecTrace', evs, 'cuts')
    # versions and magics
    vers = []
    for s in streams[:scale(20, 100)]:
        for v in [0, 1, 2, 3, 255, 256, 257, 65536, 1 << 24, 0x7fffffff, 0x80000000, 0xffffffff, 0x01000001]:
            b = bytearray.fromhex(s)
            b[4:8] = v.to_bytes(4, 'little')
            vers.append({'op': 'load', 'bytes': bytes(b).hex()})
        for p in range(4):
            b = bytearray.fromhex(s)
            b[p] = r.choice([x for x in (0, 66, 82, 79, 98, 255, b[p] ^ 1, b[p] ^ 32) if x != b[p]])
            vers.append({'op': 'load', 'bytes': bytes(b).hex()})
    c.validate('CodecTrace', record_load(vers), 'versions and magics')
    cli_checks.torn(c, streams, r)


def c12(c):
    r = rng('C12')
    reqs = []
    for f, n in gen.spread(r, scale(60000, 800000), [n for n in gen.LENGTHS if n]):
        d = gen.hexs(gen.series(r, f, n, 1e30))
        k = r.choice(ALLMODES)
        how = 'bounded' if k == 'auto' else r.choice(['plain', 'bounded'])
        reqs.append({'op': 'pipe', 'mode': k, 'how': how, 'e': r.choice([0, 1, 3, 10, 50]), 'level': r.choice(LEVELS) if k == 'auto' else 0, 'data': d})
    # many distinct values: an index of runs in hash order would differ between processes
    for n in (30, 200, 1000):
        reqs.append({'op': 'pipe', 'mode': 'rle', 'how': 'plain', 'e': 0, 'level': 0, 'data': gen.hexs(gen.series(r, 'fewdistinct', n))})
        reqs.append({'op': 'pipe', 'mode': 'fft', 'how': 'bounded', 'e': 1, 'level': 0, 'data': gen.hexs(gen.series(r, 'alternate', n))})
        reqs.append({'op': 'pipe', 'mode': 'fft', 'how': 'bounded', 'e': 5, 'level': 0, 'data': gen.hexs([1.0] + [0.0] * (n - 1))})
    # and many of the same length, whose encodings have as much in common as can be
    for n in (16, 64, 100, 130, 512):
        for mode in ('fft', 'fft', 'fft', 'polynomial', 'idw', 'rle', 'auto'):
            for e in (1, 50):
                amp, per = r.choice([1, 5]), r.choice([.1, .2, .9])
                d = gen.series(r, 'runs', n) if mode == 'rle' else [10 + amp * math.sin(q * per) for q in range(n)]
                reqs.append({'op': 'pipe', 'mode': mode, 'how': 'plain' if mode == 'rle' else 'bounded', 'e': e, 'level': 0, 'data': gen.hexs(d)})
    # and such that agree in all but a sample or two: a memory of summaries (length, ends, middle, extremes, sums, samples here
    # and there) would take one for the other
    for n in [2, 3, 16, 64, 130, 150, 256, 600, 1100][:scale(8, 9)]:
        for mode in ('auto', 'auto', 'fft', 'polynomial', 'idw', 'rle', 'constant', 'noop'):
            how, e = ('plain', 0) if mode in ('rle', 'constant', 'noop') else ('bounded', r.choice([0, 1, 20]))
            a = r.choice([[5.0] * n, [k % 7 + .25 for k in range(n)], [100 + 9 * math.sin(k / 5) for k in range(n)]])
            twins = [a]
            for _ in range(3):
                b = a[:]
                k, j = r.randrange(n), r.randrange(n)
                x = r.random()
                if x < .4:
                    b[k] += r.choice([1, .5, -1, 1000])
                elif x < .7:
                    b[k], b[j] = b[j], b[k]
                else:
                    b[k] += 1
                    b[j] -= 1
                twins.append(b)
            for b in twins:
                reqs.append({'op': 'pipe', 'mode': mode, 'how': how, 'e': e, 'level': r.choice([0, 6]) if mode == 'auto' else 0, 'data': gen.hexs(b)})
    # histories: each process runs the requests in its own order, some twice
    procs = []
    for p in range(scale(4, 12)):
        order = reqs[:] + r.sample(reqs, len(reqs) // 4)
        r.shuffle(order)
        if p % 2:       # those of one length and mode one after the other
            order.sort(key=lambda q: (len(q['data']), q['mode']))
        procs.append(order)
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        results = list(ex.map(lambda o: vlib._run_chunk(o, 60), procs))
    hist, loads = [], {}
    for p, (order, res) in enumerate(zip(procs, results)):
        for q, x in zip(order, res):
            key = 'compress ' + vlib.finding_key('', q)
            hist.append({'req': key, 'resp': x.get('bytes', failed(x, 'bytes') or ''), 'proc': p, 'case': q})
            if 'bytes' in x:
                loads[x['bytes']] = 1
                hist.append({'req': 'decompress ' + x['bytes'], 'resp': x.get('out', failed(x, 'out') or ''), 'proc': p, 'case': q})
    # decompression alone, interleaved in other orders
    lreq = [{'op': 'load', 'bytes': b} for b in loads]
    for p in range(2):
        r.shuffle(lreq)
        for q, x in zip(lreq, harness(lreq)):
            hist.append({'req': 'decompress ' + q['bytes'], 'resp': x.get('out', failed(x, 'out') or ''), 'proc': 100 + p, 'case': q})
    # and by the commands, twice, in processes of their own
    cc = [dict(q, level=q['level']) for q in reqs if q['mode'] == 'auto' or q['how'] == ('plain' if q['mode'] in ('rle', 'noop', 'constant') else 'bounded')]
    cc = r.sample(cc, min(len(cc), scale(40, 200)))
    for p in range(2):
        for q, ev in zip(cc, record_cli(cc)):
            if 'bytes' in ev:
                hist.append({'req': 'compress ' + vlib.finding_key('', {k: v for k, v in q.items()}), 'resp': bytes(ev['bytes']).hex(), 'proc': 200 + p, 'case': q})
    # and by threads of one process at the same time: two or three that only decompress, three or eight that do everything,
    # each on frames of sizes of its own
    groups = []
    for g in range(scale(12, 60)):
        count = (3, 2, 3, 8)[g % 4]
        sizes = r.sample([130, 150, 200, 140, 300, 170, 260, 517] if count == 8 else [130, 150, 200, 140, 170], count)
        threads = []
        for t in range(count):
            d = gen.hexs(gen.series(r, r.choice(['sine', 'alternate', 'walk', 'fewdistinct']), sizes[t], 1e6))
            mode = 'fft' if count < 8 or t < 4 else r.choice(['fft', 'polynomial', 'idw', 'auto', 'rle'])
            ns = (sizes[t], r.randint(2, 127)) if count == 8 else (sizes[t],)
            threads.append([{'op': 'pipe', 'mode': mode, 'how': 'bounded', 'e': r.choice([1, 3]), 'level': 0, 'data': d[:16 * n]} for n in ns])
        groups.append(threads)
    for g, threads in enumerate(groups):
        one = harness([q for t in threads for q in t])
        if g % 4 < 2 and all('bytes' in x for x in one):
            groups[g] = [[{'op': 'load', 'bytes': x['bytes']}] for x in one]
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        answers = list(ex.map(lambda t: vlib._run_chunk([{'op': 'threads', 'ms': scale(1200, 5000), 'threads': t}], 120)[0].get('answers'), groups))
    for threads, ans in zip(groups, answers):
        alone = [q for t in threads for q in t]
        both = [(q, x, 300) for q, x in zip(alone, harness(alone))] + [(q, x, 301 + t) for t, th in enumerate(threads) for k, q in enumerate(th) for x in (ans[t][k] if ans else [{}])]
        for q, x, p in both:
            case = {'threads': threads, 'one': q}
            if q['op'] == 'load':
                hist.append({'req': 'decompress ' + q['bytes'], 'resp': x.get('out', failed(x, 'out') or ''), 'proc': p, 'case': case})
                continue
            hist.append({'req': 'compress ' + vlib.finding_key('', q), 'resp': x.get('bytes', failed(x, 'bytes') or ''), 'proc': p, 'case': case})
            if 'bytes' in x:
                hist.append({'req': 'decompress ' + x['bytes'], 'resp': x.get('out', failed(x, 'out') or ''), 'proc': p, 'case': case})
    for h in hist:                       # requests and answers by digest: the specification only compares them
        h['req'] = vlib.finding_key('', h['req'])
        h['resp'] = vlib.finding_key('', h['resp'])
    c.validate('Memo', hist, 'histories of several processes', workers=1)
