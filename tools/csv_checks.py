"""CSV input (C22), the CSV tool (C23), WAV conversion (C25)."""
import csv, io, os, random, shutil, tempfile
import gen, vlib
import codec_checks as cc
import cli_checks as cl
from cli_checks import Contents, parallel, put_tree, snapshot, library, pipe_req
from codec_checks import rng, scale, run_cmd, MODES, ALLMODES, LEVELS
from vlib import harness


def unword(w):
    return '%04x%04x%04x%04x' % (w[3], w[2], w[1], w[0])


def text(t):
    return bytes(t).decode()


# ------------------------------------------------------------------ C22

def values(f):
    """the finite values of the column, for the library (judged by the specification)"""
    col = 0
    if f['has']:
        if f['value'] not in f['header']:
            return None
        col = f['header'].index(f['value'])
    try:
        return ''.join(unword(row[col]['w']) for row in f['rows'] if row[col]['is'] == 'num')
    except IndexError:
        return None


def c22_events(files, r):
    top = tempfile.mkdtemp(prefix='csv-')
    con = Contents()
    try:
        req, sets = [], []
        for k, f in enumerate(files):
            p = '%s/%d' % (top, k)
            open(p, 'wb').write(bytes(f['bytes']))
            req.append({'op': 'csv', 'file': p, 'header': f['has'], 'time': text(f['time']), 'value': text(f['value'])})
            mode = r.choice(ALLMODES)
            sets.append((mode, r.choice([0, 0, 1, 5, 50]), r.choice(LEVELS) if mode == 'auto' else 0, r.random()))
        evs = []
        keep = lambda f: {k: f[k] for k in ('has', 'header', 'rows', 'time', 'value')}
        for f, x in zip(files, harness(req)):
            ev = dict(keep(f), by='api', case={'file': bytes(f['bytes']).decode('latin1'), 'has': f['has'], 'time': text(f['time']), 'value': text(f['value'])})
            if 'out' in x:
                ev['out'] = gen.words(x['out'])
                ev['odd'] = [(int(x['out'][q:q + 3], 16) & 0x7ff) == 0x7ff for q in range(0, len(x['out']), 16)]
            elif x.get('err') is not True:
                ev['died'] = str(x)
            evs.append(ev)
        vals = [values(f) for f in files]
        rr = [random.Random(r.random()) for _ in files]
        lib = harness([pipe_req(*s[:3], v or '') for s, v in zip(sets, vals)])

        def one(k):
            f, s = files[k], sets[k]
            root = tempfile.mkdtemp(prefix='csv-')
            try:
                put_tree(root, {'x.csv': bytes(f['bytes']), 'other.csv': b'time,value\n1,2\n', 'x.wbro': b'other'})
                if s[3] < .3:
                    put_tree(root, {'x.bro': b'older'})
                if s[3] > .85:
                    put_tree(root, {n: b for n, b in cl.siblings('x.csv', rr[k], 8).items()})
                before = snapshot(root, con)
                a = ['atsc', '--csv', '--compressor', s[0], '-e', str(s[1]), '-c', str(s[2])]
                if not f['has']:
                    a.append('--no-header')
                elif not (text(f['time']) == 'time' and text(f['value']) == 'value' and s[3] < .5):
                    a += ['--fields', text(f['time']) + ',' + text(f['value'])]
                rc, _ = run_cmd(a + ['x.csv'], root)
                after = snapshot(root, con)
                try:
                    b = open(root + '/x.bro', 'rb').read()
                except OSError:
                    b = b''
                return a, before, after, rc, b
            finally:
                shutil.rmtree(root)
        runs = parallel(one, range(len(files)))
        loads = harness([{'op': 'load', 'bytes': x[4].hex()} for x in runs])
        for f, (a, before, after, rc, b), x, s, v, l in zip(files, runs, loads, sets, vals, lib):
            ev = dict(keep(f), by='command', rc=rc, before=before, after=after,
                      case={'file': bytes(f['bytes']).decode('latin1'), 'args': a + ['x.csv']})
            if 'out' in x and b[:4] == b'BRRO':
                ev['out'] = gen.words(x['out'])
            if v is not None and 'out' in l:
                ev['lib'] = {'given': gen.words(v), 'got': gen.words(l['out'])}
            evs.append(ev)
        return evs
    finally:
        shutil.rmtree(top)


NUMS = ['0', '1', '-1', '2.5', '1e3', '-3.75E-2', '.5', '5.', '+7', '00012', '-0', '123456789.125', '1e-320', '9007199254740993', '1e308', '0.1', '1E+2',
        '179769313486231570000000000000000000000', '3.141592653589793238462643', '-17', '42', '255', '256', '65536.5', '1e22', '2.2250738585072011e-308']
ODDS = ['NaN', 'nan', 'inf', '-inf', 'Infinity', '+inf', '-NaN', 'infinity', 'INF', '1e999', '-1e400']
BADS = ['', 'x', '1,5', '0x10', '1_000', ' 1', '1 ', '--1', '1e', '.', 'e5', '1.2.3', 'null', '1"', '\n1', 'true', '١', '+', '1f', 'in', '-', '1e+', 'N/A', '\t7', '#1', '#', '1#', "'1'", '1;2', '0b1', '1e5.5', '١٢', '1\u00a0', 'infin', 'nan1', '1d3', '0x1p3', '++1', '+-1', '1 000']


def cell(t):
    b = list(t.encode())
    if t in ODDS:
        return {'text': b, 'is': 'odd', 'w': []}
    if t in BADS:
        return {'text': b, 'is': 'bad', 'w': []}
    return {'text': b, 'is': 'num', 'w': gen.words('%016x' % gen.bits(float(t)))[0]}


def put_file(f, r):
    """the same table written down at random"""
    w = io.StringIO(newline='')
    eol = r.choice(['\n', '\r\n'])
    wr = csv.writer(w, quoting=r.choice([csv.QUOTE_MINIMAL, csv.QUOTE_ALL, csv.QUOTE_MINIMAL]), lineterminator=eol)
    lines = ([f['header']] if f['has'] else []) + [[x['text'] for x in row] for row in f['rows']]
    for q, l in enumerate(lines):
        if r.random() < .08:
            w.write(eol)
        wr.writerow([bytes(x).decode() for x in l])
    t = w.getvalue()
    if lines and r.random() < .3:
        t = t[:-len(eol)]
    return t.encode()


def random_files(r, n):
    out = []
    names = ['time', 'value', 'Time', 'Value', 'ts', 'v', 'host name', 'a"b', 'x;y', 'valu', 'values', 'time ', 'temp', 'zähler', '', '#', '#value', '#time', 'value#', 'VALUE', 'value2', 'val ue']
    junk = ['', 'a', '1', 'x,y', 'he said "no"', 'line\nbreak', '0', 'NaN', '-5', 'ü', '2020-01-01T00:00:00Z', '1e999', ' ', '#', '#x', '# 7', '\\', '\\"', "'", "it's", ';', '|', 'a\tb', '//', '--', '\ufeff', '\x00', '%', '=1+1']
    for _ in range(n):
        has = r.random() < .85
        if has:
            t, v = r.choice([('time', 'value'), ('time', 'value'), ('ts', 'v'), ('time', 'temp'), ('Time', 'Value'), ('host name', 'zähler'), ('value', 'time'), ('v', 'v'), ('#time', '#value'), ('x;y', 'a"b')])
            others = [x for x in names if x not in (t, v)]
            mark = r.random() < .1 and r.choice([';', '\t', '|', ':', '  ', "'"])
            if mark:       # names and texts full of what separates fields elsewhere
                others = ['a' + mark + 'b' + mark + q for q in ('', 'c', 'd' + mark, mark * 6, t + mark + v)]
            header = sorted({t, v}) + r.sample(others, r.choice([0, 0, 1, 2, 5] if not mark else [1, 2, 3]))
            if r.random() < .1:
                header.remove(r.choice([t, v]))
            r.shuffle(header)
            if header in ([], ['']):
                continue
        else:
            header, t, v, mark = [], 'time', 'value', False
        rows = []
        bad = r.random() < .3
        for _ in range(r.choice([0, 1, 2, 3, 5, 8, 20, 60])):
            x = r.random()
            p = r.choice(BADS) if bad and x < .1 else r.choice(ODDS) if x > .9 else r.choice(NUMS) if r.random() < .6 else repr(r.uniform(-1000, 1000))
            row = [p if h == v else r.choice(junk) if not mark or r.random() < .3 else mark.join(['0', '1', 'x', '2.5']) for h in header] if has else [p]
            if row == ['']:
                pass      # written as a quoted empty field
            elif has and bad and len(row) > 1 and r.random() < .05:
                row = row[:-1]
                if row == ['']:
                    row = ['x']
            rows.append(row)
        enc = lambda s: list(s.encode())
        f = {'has': has, 'header': [enc(h) for h in header], 'time': enc(t), 'value': enc(v), 'rows': []}
        for row in rows:
            f['rows'].append([cell(x) if not has or (q < len(header) and header[q] == v) else {'text': enc(x), 'is': 'bad', 'w': []} for q, x in enumerate(row)])
        f['bytes'] = list(put_file(f, r))
        out.append(f)
    return out


def c22(c):
    r = rng('C22')
    m = c.spec('CsvMC', 'CsvMC', consts=scale(None, {'Wide': 'TRUE'}))
    c.exhaustive.append('all CSV files of CsvMC')
    files = m.prints
    if vlib.THOROUGH:
        files = files + c.spec('CsvMC', 'CsvMC', consts={'MaxRows': '3'}).prints
    for b in range(0, len(files), 3000):
        c.validate('CsvTrace', c22_events(files[b:b + 3000], r), 'files of the specification')
    c.validate('CsvTrace', c22_events(random_files(r, scale(600, 8000)), r), 'random files')
    # long files: one sample per row, over several frames
    big = []
    for n in scale([300, 2049, 3000], [300, 2047, 2048, 2049, 5000, 10000, 20001]):
        has = n % 2 == 0
        f = {'has': has, 'header': [list(b'a'), list(b'value'), list(b'time')] if has else [], 'time': list(b'time'), 'value': list(b'value')}
        f['rows'] = [[cell('7')] * has + [cell(repr(q * 37 % 1001 / 8))] + [cell(str(q))] * has for q in range(n)]
        f['bytes'] = list(put_file(f, r))
        for bad in (['', 'x', '1;2', None] if n == 3000 or vlib.THOROUGH and n > 3000 else []):       # one bad row, far from the beginning
            g = dict(f, rows=[list(x) for x in f['rows']])
            k = r.randrange(n - 500, n)
            g['rows'][k][1 if has else 0] = cell(bad or '')
            if bad is None and has:
                g['rows'][k] = g['rows'][k][:1]
            g['bytes'] = list(put_file(g, r))
            big.append(g)
        big.append(f)
    # wide ones, and long cells and names
    enc = lambda s: list(s.encode())
    for n in scale([40, 300, 1100], [17, 33, 64, 65, 128, 129, 257, 300, 1025, 1100]):
        for at in (n - 1, r.randrange(n)):
            names = ['c%d' % q for q in range(n)]
            names[at] = r.choice(['value', 'v' * 300, 'x' * 5000])
            f = {'has': True, 'header': [enc(x) for x in names], 'time': enc(names[0] if at else names[1]), 'value': enc(names[at])}
            f['rows'] = [[cell(str(r.randrange(1000) / 8)) if q == at else {'text': enc(r.choice(['', '7', 'a,b'])), 'is': 'bad', 'w': []} for q in range(n)] for _ in range(3)]
            f['bytes'] = list(put_file(f, r))
            big.append(f)
    for n in scale([300, 70000], [255, 256, 300, 1024, 4096, 8192, 8193, 65536, 70000]):
        f = {'has': True, 'header': [enc('note'), enc('time'), enc('value')], 'time': enc('time'), 'value': enc('value')}
        f['rows'] = [[{'text': enc(r.choice(['n', 'a,', 'a"', 'n\n']) * (n // 2)), 'is': 'bad', 'w': []}, cell('1'), cell(r.choice(['4.5', '0' * 400 + '4.5', '4.5' + '0' * 400]))] for _ in range(4)]
        f['bytes'] = list(put_file(f, r))
        big.append(f)
    c.validate('CsvTrace', c22_events(big, r), 'long and wide files')


# ------------------------------------------------------------------ C23

OLDER = {'bro': b'BRRO' + b'\x01' * 3000, 'vsri': b'0\n86399\n' + b'1,0,0,1\n' * 900, 'wavbro': b'WBRO0000WBRO' + b'\x07' * 30000, 'csv': b'timestamp,value\n' + b'77,1\n' * 9000}
TMODES = ['auto', 'polynomial', 'idw']


def number(w, r):
    """a way to write the value"""
    v = gen.unhex(unword(w))[0]
    if v != v:
        return r.choice(['NaN', 'nan', '-NaN'])
    if v in (float('inf'), float('-inf')):
        return ('-' if v < 0 else '') + r.choice(['inf', 'Infinity', '1e999'])
    if v == int(v) and abs(v) < 1e15 and r.random() < .5:
        return '%d' % v if v or unword(w)[0] == '0' else '-0'
    return repr(v)


def rows_file(rows, r):
    order = ['timestamp', 'value'] if r.random() < .85 else ['value', 'timestamp']
    extra = r.random() < .1
    q = '"' if r.random() < .1 else ''
    eol = '\r\n' if r.random() < .2 else '\n'
    out = [','.join(order + ['note'] * extra)]
    for x in rows:
        f = {'timestamp': str(x['day'] * 86400000 + x['sec'] * 1000 + x['ms']), 'value': number(x['w'], r)}
        line = [q + f[o] + q for o in order] + ['z'] * extra
        if x['bad']:
            how = r.randrange(4)
            if how == 0:
                line = line[:1]
            else:
                line[how % 2] = r.choice(['x', '', '1;2', '--5', '1 2', '-'])
        out.append(','.join(line))
    t = eol.join(out)
    return (t + (eol if r.random() < .8 else '')).encode()


def c23_events(cases, r):
    """case: rows and settings"""
    for x in cases:
        x['file'] = rows_file(x['rows'], r)
        x['stale'] = r.random()
        x['base'] = r.choice(['x', 'x', 'x', 'out', 'a.b', 'sub/y'])
    libs = {}
    ask = [k for k, x in enumerate(cases) if x['e'] or x['mode'] not in TMODES]
    given = [''.join(unword(w['w']) for w in cases[k]['rows'] if w['fin']) for k in ask]
    for k, g, x in zip(ask, given, harness([pipe_req(cases[k]['mode'], cases[k]['e'], cases[k]['level'], g) for k, g in zip(ask, given)])):
        if 'out' in x:
            libs[k] = {'given': gen.words(g), 'got': gen.words(x['out'])}

    def one(k):
        x = cases[k]
        root = tempfile.mkdtemp(prefix='cc-')
        try:
            put_tree(root, {'x.csv': x['file'], 'sub': None})
            stale = x['stale'] < .3         # longer files of other runs are where the tool writes
            if stale:
                put_tree(root, {x['base'] + '.' + t: OLDER[t] for t in OLDER if t != 'csv' or x['base'] != 'x'})
            a = ['csv-compressor', '--output-vsri', '-e', str(x['e']), '--compressor', x['mode'], '-c', str(x['level'])]
            if x['raw']:
                a.append('--output-wavbrro')
            if x['base'] != 'x':
                a += ['-o', x['base'] + '.any']
            again = x['stale'] > .85        # what it writes is there already, but for a byte
            rr = random.Random(x['stale'])
            rc, _ = run_cmd(a + ['x.csv'], root)
            if again and rc == 0:
                cl.garble(root, [x['base'] + '.' + t for t in ('bro', 'vsri', 'wavbro')], rr)
                rc, _ = run_cmd(a + ['x.csv'], root)
            res = {'rc': rc, 'rc2': 0, 'args': a}
            if rc == 0:
                rawp = os.path.join(root, x['base'] + '.wavbro')
                if x['raw'] and os.path.exists(rawp):
                    res['rawb'] = open(rawp, 'rb').read()
                if not stale:
                    os.remove(root + '/x.csv')
                a = ['csv-compressor', '-u'] + (['--output-csv'] if x['raw'] else [])
                if again:
                    run_cmd(a + [x['base'] + '.bro'], root)
                    cl.garble(root, [x['base'] + '.' + t for t in ('csv', 'wbro')], rr)
                res['rc2'], _ = run_cmd(a + [x['base'] + '.bro'], root)
                try:
                    res['csv'] = open(os.path.join(root, x['base'] + '.csv'), 'rb').read()
                except OSError:
                    pass
            return res
        finally:
            shutil.rmtree(root)
    runs = parallel(one, range(len(cases)))
    raws = cl.library([('decompress', b'', None)] * 0)
    top = tempfile.mkdtemp(prefix='cc-')
    try:
        at = [k for k, x in enumerate(runs) if 'rawb' in x]
        for k in at:
            open('%s/%d' % (top, k), 'wb').write(runs[k]['rawb'])
        raws = dict(zip(at, harness([{'op': 'wfile', 'path': '%s/%d' % (top, k)} for k in at])))
    finally:
        shutil.rmtree(top)
    evs = []
    for k, (x, res) in enumerate(zip(cases, runs)):
        ev = {'rows': x['rows'], 'exact': x['e'] == 0 and x['mode'] in TMODES, 'rc': res['rc'], 'rc2': res['rc2'],
              'case': {'file': x['file'].decode(), 'args': res['args'] + ['x.csv']}}
        if k in libs:
            ev['lib'] = libs[k]
        if res['rc'] == 0 and x['raw']:
            ev['raw'] = gen.words(raws[k]['out']) if 'out' in raws.get(k, {}) else [[]]
        back = parse_rows(res.get('csv'), any(w['fin'] for w in x['rows']))
        if back is not None:
            ev['back'] = back
        evs.append(ev)
    return evs


def parse_rows(b, some):
    if b is None:
        return None
    if b == b'':
        return [] if not some else None      # no rows, and no header either
    out = []
    try:
        for row in csv.DictReader(io.StringIO(b.decode(), newline='')):
            out.append({'sec': int(row['timestamp']), 'w': gen.words('%016x' % gen.bits(float(row['value'])))[0]})
            if not -2**31 <= out[-1]['sec'] < 2**31:
                return None
    except (KeyError, ValueError, TypeError, UnicodeDecodeError):
        return None
    return out


def day_rows(r, n):
    """rows of a day"""
    kind = r.choice(['regular', 'regular', 'gaps', 'irregular', 'subsecond', 'repeats', 'twice', 'mixed', 'edges'])
    day = r.choice([0, 19000, 19782, 1, 11016, -1, -365, 25000, 20000])
    fam = r.choice(gen.FAMILIES)
    vals = gen.series(r, fam, n, 1e300)
    if r.random() < .3:
        vals = gen.with_nonfinite(r, vals)
    t = r.choice([0, 0, 1, 3600, 43200, 80000]) * 1000 + r.choice([0, 0, 1, 999, 500])
    step = r.choice([1000, 2000, 10000, 60000, 500, 250, 1500])
    rows = []
    for k, v in enumerate(vals):
        w = gen.words('%016x' % gen.bits(v))[0]
        rows.append({'day': day, 'sec': t // 1000, 'ms': t % 1000, 'fin': v == v and abs(v) != float('inf'), 'w': w, 'bad': False})
        if kind == 'regular':
            t += step
        elif kind == 'gaps':
            t += step * (1 if r.random() < .9 else r.randint(2, 50))
        elif kind == 'irregular':
            t += r.randint(0, 3 * step)
        elif kind == 'subsecond':
            t += r.choice([1, 10, 100, 333, 500])
        elif kind == 'repeats':
            t += r.choice([0, 0, 0, step])
        elif kind == 'twice':
            t += step if k % 2 else 0
        elif kind == 'edges':
            t += r.choice([1, 999, 1000, 1001, 999])
        else:
            t += r.choice([0, 1000, 1000, 1000, 2000, 999, 60000, 3600000])
        if t >= 86400000:
            t = 86399999
    return rows


def c23(c):
    r = rng('C23')
    consts = scale([None], [{'MaxRows': '5', 'Steps': '{0, 1, 2}', 'Starts': '{0, 86396}'}, None])
    for k in consts:
        m = c.spec('CsvCompMC', 'CsvCompMC', consts=k)
        c.exhaustive.append('all files of CsvCompMC with %s' % (k or 'the default bounds'))
        rows = [p['rows'] for p in m.prints]
        if not vlib.THOROUGH:
            rows = [x for q, x in enumerate(rows) if len(x) < 4 or q % 3 == 0]
        cases = [{'rows': [dict(w, day=d) for w in x], 'e': 0, 'mode': TMODES[q % 3], 'level': 0, 'raw': q % 5 == 0}
                 for q, x in enumerate(rows) for d in [r.choice([0, 19000, -1, 11016])]]
        for b in range(0, len(cases), 4000):
            c.validate('CsvCompTrace', c23_events(cases[b:b + 4000], r), 'files of the specification')
    cases = []
    for _ in range(scale(900, 12000)):
        n = r.choice([0, 1, 2, 3, 4, 5, 8, 13, 30, 60, 100, 130]) if r.random() < .97 else r.choice([300, 600, 2049, 2600])
        rows = day_rows(r, n)
        if r.random() < .15 and n >= 2:
            a, b = sorted(r.sample(range(n), 2))
            rows[a], rows[b] = rows[b], rows[a]
        if r.random() < .08 and n:
            r.choice(rows)['bad'] = True
        mode = r.choice(['auto', 'auto', 'polynomial', 'idw', 'fft', 'noop', 'constant'])
        if mode == 'fft':      # works in 32 bits
            rows = [x for x in rows if not x['fin'] or abs(gen.unhex(unword(x['w']))[0]) < 1e30]
        cases.append({'rows': rows, 'e': r.choice([0, 0, 0, 1, 5, 50]), 'mode': mode, 'level': r.choice(LEVELS) if mode == 'auto' else 0, 'raw': r.random() < .3})
    for b in range(0, len(cases), 3000):
        c.validate('CsvCompTrace', c23_events(cases[b:b + 3000], r), 'random files of a day')
    # something out of the ordinary, far from the beginning only
    cases = []
    for n in scale([3000], [1100, 3000, 9000, 20000]):
        for what in ('bad', 'earlier', 'earlier ms', 'nan', 'gap'):
            rows = [{'day': 19782, 'sec': k, 'ms': 0, 'fin': True, 'w': gen.words('%016x' % gen.bits((k * 37 % 1001) / 8))[0], 'bad': False} for k in range(n)]
            k = r.randrange(n - n // 10, n)
            if what == 'bad':
                rows[k]['bad'] = True
            elif what == 'earlier':
                rows[k]['sec'] -= 2
            elif what == 'earlier ms':       # in the same second
                rows[k] = dict(rows[k], sec=rows[k - 1]['sec'], ms=r.choice([0, 1]))
                rows[k - 1]['ms'] = 500
            elif what == 'nan':
                rows[k] = dict(rows[k], fin=False, w=[0, 0, 0, 32760])
            else:
                for x in rows[k:]:
                    x['sec'] += 1
            cases.append({'rows': rows, 'e': 0, 'mode': 'auto', 'level': 0, 'raw': True})
    c.validate('CsvCompTrace', c23_events(cases, r), 'late oddities')
    # whole days, a sample per second
    cases = []
    for n in scale([70000, 90000], [32767, 32769, 65535, 65536, 65537, 70000, 86400, 90000, 140000]):
        for step in ['burst'] if n > 86400 else scale([1], [1, 0]):         # in step, in pairs, many in one second
            rows, t = [], 0
            for k in range(n):
                rows.append({'day': 19782, 'sec': t, 'ms': 0, 'fin': True, 'w': gen.words('%016x' % gen.bits((k * 37 % 1001) / 8))[0], 'bad': False})
                t = min(86399, t + int((not 9000 <= k < n - 9000) if step == 'burst' else 1 if step or k % 2 else 0))
            cases.append({'rows': rows, 'e': 0, 'mode': scale('polynomial', r.choice(TMODES)), 'level': 0, 'raw': False})
    for x in cases:
        c.validate('CsvCompTrace', c23_events([x], r), 'whole days')


# ------------------------------------------------------------------ C25

def c25_events(files, r):
    con = Contents()
    names = [r.choice(['x.wav', 'x.wav', 'a.b.wav', 'sub/y.wav', 'x.y z.wav', 'WAV.wav', 'wav']) for _ in files]
    place = [r.random() for _ in files]

    def one(k):
        top = tempfile.mkdtemp(prefix='wav-')
        root = os.path.join(top, 'w')
        os.mkdir(root)
        out = cl.Elsewhere(top)
        try:
            n = names[k]
            o = n[:-3] + 'wbro'
            put_tree(root, {'sub': None, 'x.bro': b'other', 'z.wav': b'another', n: files[k]['bytes']})
            if place[k] < .15:
                put_tree(root, {o: b'older' * 1000})
            elif place[k] < .3:          # nearly what will be written
                run_cmd(['wav2wbro', n], root)
                cl.garble(root, [o], random.Random(place[k]))
            if place[k] > .8:
                put_tree(root, {a: b for a, b in cl.siblings(n, random.Random(place[k]), 8).items() if a != o})
            at = lambda: [e for e in snapshot(root, con) if bytes(e[0]).decode() != o]
            was = open(os.path.join(root, o), 'rb').read() if os.path.isfile(os.path.join(root, o)) else None
            before = at()
            t = n if place[k] < .6 else os.path.join(root, n)
            rc, _ = run_cmd(['wav2wbro', t], root if place[k] < .6 else '/', more=out.env())
            after = at() + [[cl.codes('../' + x), 'h0'] for x in out.left(['w'])]
            p = os.path.join(root, o)
            b = open(p, 'rb').read() if os.path.isfile(p) else None
            return before, after, rc, b, b != was
        finally:
            shutil.rmtree(top)
    runs = parallel(one, range(len(files)))
    top = tempfile.mkdtemp(prefix='wav-')
    try:
        at = [k for k, x in enumerate(runs) if x[3] is not None and x[4]]
        for k in at:
            open('%s/%d' % (top, k), 'wb').write(runs[k][3])
        outs = dict(zip(at, harness([{'op': 'wfile', 'path': '%s/%d' % (top, k)} for k in at])))
    finally:
        shutil.rmtree(top)
    evs = []
    for k, (f, (before, after, rc, b, made)) in enumerate(zip(files, runs)):
        ev = {'rc': rc, 'others': [before, after], 'made': made, 'head': list(f['bytes'][:16]), 'cut': f.get('cut', False),
              'case': {'bytes': f['bytes'].hex(), 'name': names[k]}}
        if 'frames' in f:
            ev['frames'] = f['frames']
        if 'out' in outs.get(k, {}):
            ev['out'] = gen.words(outs[k]['out'])
        evs.append(ev)
    return evs


EXTENSIBLE = b'\x16\0' + b'\x10\0' + bytes(4) + b'\x01\0\0\0\0\0\x10\0\x80\0\0\xaa\0\x38\x9b\x71'


def wav(ch, frames, rate=44100, extra=b'', more=b'', after=b''):
    """extra: other chunks before the data; more: what follows in the format chunk; after: chunks after the data"""
    le = lambda v, n: v.to_bytes(n, 'little')
    data = b''.join(le(w, 2) for f in frames for w in f)
    fmt = b'fmt ' + le(16 + len(more), 4) + le(65534 if len(more) > 2 else 1, 2) + le(ch, 2) + le(rate, 4) + le(rate * 2 * ch, 4) + le(2 * ch, 2) + le(16, 2) + more
    rest = b'WAVE' + fmt + extra + b'data' + le(len(data), 4) + data + after
    return b'RIFF' + le(len(rest), 4) + rest


def c25(c):
    r = rng('C25')
    m = c.spec('WavMC', 'WavMC', consts=scale(None, {'Words': '{0, 1, 2, 255, 256, 32767, 32768, 65535}'}))
    c.exhaustive.append('all files of WavMC')
    files = [{'bytes': bytes(p['bytes']), 'frames': p['frames']} for p in m.prints]
    if vlib.THOROUGH:
        m = c.spec('WavMC', 'WavMC', consts={'MaxFrames': '2', 'Words': '{0, 32768}'})
        files += [{'bytes': bytes(p['bytes']), 'frames': p['frames']} for p in m.prints]
    for b in range(0, len(files), 5000):
        c.validate('WavTrace', c25_events(files[b:b + 5000], r), 'files of the specification')
    files = []
    odd = ['7ff8000000000000', '7ff0000000000001', 'fff0000000000000', '7ff0000000000000', '8000000000000000', '0000000000000000', 'ffffffffffffffff', '7ff4000000000123',
           'fff8000000000001', '0000000000000001', '7fefffffffffffff', '7ff0000100000000', '7ff0000000010000', 'fff0000000000001', '000fffffffffffff']
    for _ in range(scale(700, 8000)):
        ch = r.choice([4, 4, 4, 4, 1, 2, 3])
        n = r.choice([0, 1, 2, 3, 5, 17, 60]) if r.random() < .97 else r.choice([2047, 2048, 2049, 5000])
        frames = []
        for _ in range(n):
            if ch == 4 and r.random() < .5:
                frames.append(gen.words(r.choice(odd))[0])
            elif ch == 4 and r.random() < .5:
                frames.append(gen.words('%016x' % gen.bits(r.uniform(-1e3, 1e3)))[0])
            else:
                frames.append([r.choice([0, 1, 0x7fff, 0x8000, 0xffff, 0x7ff8, r.getrandbits(16)]) for _ in range(ch)])
        kind = {}
        if r.random() < .3:             # other chunks, other forms of the format chunk
            kind = {'extra': r.choice([b'', b'LIST\x04\0\0\0INFO', b'fact\x04\0\0\0' + n.to_bytes(4, 'little')]), 'after': r.choice([b'', b'LIST\x04\0\0\0INFO', b'junk\x02\0\0\0xx']),
                    'more': r.choice([b'', b'', b'\0\0', EXTENSIBLE])}
        files.append({'bytes': wav(ch, frames, r.choice([8000, 44100, 1, 48000]), **kind), 'frames': frames})
    for n, ch in scale([(66000, 4)], [(66000, 4), (70000, 1), (140000, 2)]):
        files.append({'bytes': b'', 'frames': [[r.getrandbits(16) for _ in range(ch)] for _ in range(n)]})
        files[-1]['bytes'] = wav(ch, files[-1]['frames'])
    c.validate('WavTrace', c25_events(files, r), 'random files')
    # no WAV files, and WAV files cut short
    w = [wav(4, [gen.words(r.choice(odd))[0] for _ in range(n)]) for n in (0, 1, 3)] + [wav(1, [[5], [65535]])]
    files = [{'bytes': b} for b in (b'', b'R', b'RIFF', b'RIFF\0\0\0\0WAV', b'WBRO0000WBRO' + bytes(40), b'BRRO' + bytes(40), b'time,value\n1,2\n', bytes(12), bytes(4000))]
    for b in w:
        for p in (0, 1, 2, 3, 8, 9, 10, 11):
            for x in (1, 32, 128, 255):
                files.append({'bytes': b[:p] + bytes([b[p] ^ x]) + b[p + 1:]})
        files += [{'bytes': b[:k], 'cut': True} for k in range(len(b))]
    c.validate('WavTrace', c25_events(files, r), 'other files')
