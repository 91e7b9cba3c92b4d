"""Properties of the time index (C15 to C19)."""
import os, random
import vlib
from codec_checks import rng, scale
from vlib import harness

FAMS = ['regular', 'gaps', 'jitter', 'repeats', 'bursts', 'subsecond', 'alternate', 'steps', 'sparse', 'start0', 'dayend', 'mixed', 'zigzag', 'pairs', 'epoch', 'far']
MAX = 2147483647


def beyond(r, fam, n):
    """timestamps of more than a day: seconds since 1970, and jumps of any size up to the last second there is"""
    t = r.choice([1500000000, 1700000000, MAX - 20 * n, MAX - n]) if fam == 'epoch' else r.choice([0, 0, 5, 1000, 10**9])
    step = r.choice([1, 15, 60, 86400])
    o = []
    for k in range(n):
        o.append(min(t, MAX))
        if fam == 'epoch':
            t += step if r.random() < .9 else r.choice([0, 1, 2 * step, 86400, 31536000])
        else:
            x = r.random()
            if x < .3:
                step = r.choice([0, 1, 7, 3600, 10**6, 5 * 10**8, 10**9, 2 * 10**9, MAX - t if t < MAX else 0])
            t += step if x < .8 else r.choice([0, 1, 2])
    return o


def history(r, fam, n):
    """n non-decreasing timestamps of a day"""
    t = 0 if fam == 'start0' else r.choice([0, 1, 5, 60, r.randint(0, 80000)])
    if fam in ('epoch', 'far'):
        return beyond(r, fam, n)
    o = []
    step = r.choice([1, 1, 2, 5, 10, 15, 20, 60, 3600])
    if fam == 'dayend':
        t = max(0, 86399 - n * step)
    for k in range(n):
        o.append(t)
        if fam in ('regular', 'start0', 'dayend'):
            t += step
        elif fam == 'gaps':
            t += step if r.random() < .9 else step * r.randint(2, 30)
        elif fam == 'jitter':
            t += max(0, step + r.choice([0, 0, 0, 0, 1, -1]))
        elif fam == 'repeats':
            t += step if r.random() < .7 else 0
        elif fam == 'bursts':
            t += 0 if k % r.choice([3, 4, 5]) else r.randint(1, 40)
        elif fam == 'subsecond':
            t += 1 if k % r.choice([2, 3]) == 0 else 0
        elif fam == 'alternate':
            t += (1, 3)[k % 2]
        elif fam == 'steps':
            if k % r.choice([4, 7, 20]) == 0:
                step = r.choice([0, 1, 2, 5, 10])
            t += step
        elif fam == 'sparse':
            t += r.randint(1, 500)
        elif fam == 'zigzag':
            t += (1, 1, 2)[k % 3]
        elif fam == 'pairs':
            t += r.choice([0, 7, 7, 7])
        else:
            t += r.choice([0, 0, 1, 1, 1, 1, 2, 10, 100])
    return [min(x, 86399) for x in o]


def query(r, h, dense=False):
    """timestamps, positions and ranges around the samples of h"""
    if dense:
        lo, hi = -1, (max(h) if h else 3) + 2
        return {'op': 'query', 'lo': lo, 'hi': hi, 'xs': list(range(-1, len(h) + 2))}
    near = set()
    ks = {0, 1, 2, len(h) - 1, len(h) - 2, len(h) - 3} | {r.randrange(len(h)) for _ in range(12)} if h else set()
    # where the step changes
    ks |= set(r.sample([k for k in range(2, len(h)) if h[k] - h[k - 1] != h[k - 1] - h[k - 2]] or [0], 1)) if len(h) > 2 else set()
    turns = [k for k in range(2, len(h)) if h[k] - h[k - 1] != h[k - 1] - h[k - 2]]
    ks |= set(r.sample(turns, min(8, len(turns))))
    for k in ks:
        if 0 <= k < len(h):
            near |= {h[k] - 1, h[k], min(h[k] + 1, MAX)}
            if k and h[k] - h[k - 1] > 100:
                near |= {h[k - 1] + (h[k] - h[k - 1]) // 2, h[k] - 2}
    near |= {-1, 0, 86399, 86400, r.randint(0, 86400), -2147483648 + 1, 2147483647}
    ts = sorted(near)
    if len(ts) > 50:
        ts = sorted(r.sample(ts, 50))
    pts = [t for t in ts if -10 < t < MAX]
    ranges = [sorted((r.choice(pts), r.choice(pts))) for _ in range(30)]
    for k in r.sample(turns, min(10, len(turns))):       # the space between two samples, and one off it
        a, b = h[k - 1], h[k]
        ranges += [[x, y] for x, y in ((a + 1, b - 1), (a, b - 1), (a + 1, b), (a + 1, a + 1), (a, b)) if x <= y]
    if h:
        ranges += [[h[0] - 5, h[0] - 1], [h[-1] + 1, h[-1] + 9], [h[-1], h[-1]], [h[0], h[0]], [h[-1], h[-1] + 5], [h[0] - 1, h[-1] + 1], [h[0] - 3, h[0]]]
    ranges = [[min(a, MAX), min(b, MAX)] for a, b in ranges]
    return {'op': 'query', 'lo': 0, 'hi': 0, 'ts': ts, 'ranges': ranges, 'xs': sorted({-1, 0, 1, len(h) - 1, len(h), len(h) + 1, 2147483647} | {r.randrange(len(h) + 1) for _ in range(15)}
                                                                                 | set(turns[:5]))}


def record(c, sessions, keep=False):
    """sessions: lists of operations; keep: the text of saved files is recorded"""
    d = os.path.join(c.dir, 'idx')
    os.makedirs(d, exist_ok=True)
    req = []
    for k, s in enumerate(sessions):
        sub = os.path.join(d, str(k))
        if any(o['op'] in ('save', 'load', 'put') for o in s):
            os.makedirs(sub, exist_ok=True)
        req.append({'op': 'vsri', 'dir': sub, 'ops': s})
    out = []
    for s, res in zip(sessions, harness(req)):
        ev = {'ops': s, 'case': {'ops': s}}
        if 'obs' in res:
            ev['obs'] = [{k: list(v.encode()) if k == 'text' else v for k, v in o.items() if k != 'text' or keep} for o in res['obs']]
        else:
            ev['died'] = vlib_why(res)
        out.append(ev)
    return out


def vlib_why(res):
    return str(res.get('died') or res.get('panic') or 'no result')


def split(c, evs, what, weight=60000, module='VsriTrace'):
    b, n = [], 0
    for e in evs:
        b.append(e)
        n += len(str(e['ops'])) // 5 + 100
        if n > weight * 10:
            c.validate(module, b, what)
            b, n = [], 0
    if b:
        c.validate(module, b, what)


MONO = [{}, {'Times': '{0, 1, 2, 3}', 'MaxOps': '9', 'EmitFrom': '8'}, {'Times': '{0, 5, 10, 15, 16, 17, 30}', 'MaxOps': '6', 'EmitFrom': '4'}]
MONOBIG = [{}, {'Times': '{0, 1, 2, 3}', 'MaxOps': '14', 'EmitFrom': '8'}, {'Times': '{0, 5, 10, 15, 16, 17, 30}', 'MaxOps': '8', 'EmitFrom': '4'},
           {'Times': '{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}', 'MaxOps': '7', 'EmitFrom': '7'}, {'Times': '{1, 3, 4, 6, 8, 9, 12}', 'MaxOps': '8', 'EmitFrom': '5'}]


def mono(c):
    """every history of accepted timestamps of the specification"""
    out = []
    for consts in scale(MONO, MONOBIG):
        m = c.spec('VsriMC', 'VsriMC', consts=consts)
        c.exhaustive.append('all histories of VsriMC with %s' % (consts or 'the default bounds'))
        out += [[t for _, t in p['ops']] for p in m.prints]
    _SMALL[:] = [h for h in out if set(h) <= {0, 1, 2, 3}]
    return out


def sessions_of(c, r, tag):
    s = []
    for h in mono(c):
        s.append([{'op': 'append', 't': t} for t in h] + [query(r, h, True)])
    return s


_SMALL = []


def stretched(r, count):
    """histories of the specification with the timestamps put at increasing distances"""
    out = []
    for h in r.sample(_SMALL, min(count, len(_SMALL))):
        at = sorted(r.sample([0, 1, 2, 7, 10**6, 2**29, 2**30 - 1, 2**30, 2**30 + 1, 3 * 2**29, 2 * 10**9, MAX - 2, MAX - 1, MAX] + [r.randint(0, MAX) for _ in range(4)], 4))
        x = [at[t] for t in h]
        out.append([{'op': 'append', 't': t} for t in x] + [query(r, x)])
    return out


def random_sessions(r, count, refused=.1):
    s = []
    for k in range(count):
        n = r.choice([1, 2, 3, 4, 5, 8, 13, 30, 100, 300]) if k % 20 else r.choice([1000, 2000, 5000])
        h = history(r, FAMS[k % len(FAMS)], n)
        ts = []
        for t in h:
            if ts and r.random() < refused:
                ts.append(r.choice([t - 1, -1, 0, max(ts) - 1]))
            ts.append(t)
        cut = r.randrange(len(ts))
        ops = [{'op': 'appends', 'ts': ts[:cut]}, query(r, h[:max(0, min(len(h), cut // 2))]), {'op': 'appends', 'ts': ts[cut:]}, query(r, h)]
        s.append(ops)
    return s


def watched(r, count):
    """the same few questions after every timestamp: what is remembered of an answer must not outlive it"""
    out = []
    for k in range(count):
        h = r.choice(_SMALL) if k % 3 else history(r, FAMS[k % len(FAMS)], r.choice([3, 4, 6, 10, 20]))
        if k % 3 == 1:
            step = r.choice([2, 5, 60])
            h = [step * t for t in h]
        a = r.choice(h) + r.choice([-1, 0, 0, 1])
        q = {'op': 'query', 'lo': 0, 'hi': 0, 'ts': [r.choice(h) + r.choice([-1, 0, 0, 0, 1])], 'xs': [r.randrange(len(h) + 1)],
             'ranges': [[a, min(MAX, max(a, r.choice(h) + r.choice([-1, 0, 1, 3])))]]}
        ops = []
        for t in h:
            ops.append({'op': 'append', 't': t})
            if r.random() < .8:
                ops.append(q)
        out.append(ops + [q])
    return out


def long_histories(r):
    """more samples than a day has seconds, in runs longer than 16 bits count"""
    step = r.choice([1, 2, 60, 0])
    out = [list(range(r.choice([0, 5]), 86400 + r.randint(10, 300))), [7 + step * k for k in range(66000)] + [4000000 + 3 * k for k in range(70000)],
           [k for k in range(r.randint(50, 2000))] + [2500] * 66000 + [2500 + 10 * k for k in range(1, 25000)],
           [k - k % 2 for k in range(200)] + [300 + 15 * k for k in range(90000)],
           [k // 2 * 10 + k % 2 * 3 for k in range(scale(20000, 40000))]]         # thousands of runs
    return out


def thin(r, h):
    """few questions, around the places where counts run over"""
    ks = {0, 1, len(h) - 1, len(h) - 2, 511, 512, 513, 8191, 8192, 16384, 32767, 32768, 65535, 65536, 86399, 86400, r.randrange(len(h)), r.randrange(len(h))}
    ks |= set([k for k in range(2, len(h)) if h[k] - h[k - 1] != h[k - 1] - h[k - 2]][:6])
    ks = sorted(k for k in ks if k < len(h))
    ts = sorted({h[k] + d for k in ks for d in (0, 1)})
    pts = [h[k] for k in ks]
    ranges = [sorted((r.choice(pts), r.choice(pts) + r.choice([0, 1]))) for _ in range(6)] + [[h[k - 1] + 1, h[k] - 1] for k in ks if k and h[k] - h[k - 1] > 2] + [[h[-1] + 1, h[-1] + 9]]
    return {'op': 'query', 'lo': 0, 'hi': 0, 'ts': ts, 'ranges': ranges, 'xs': sorted(set(ks) | {-1, len(h), len(h) + 1})}


def long_sessions(r, refused=False):
    out = []
    for h in long_histories(r):
        cut = r.randint(1, len(h) - 1)
        ops = [{'op': 'appends', 'ts': h[:cut]}, {'op': 'appends', 'ts': h[cut:]}]
        if refused:
            ops += [{'op': 'appends', 'ts': [h[-1] - 1, h[-1] + 1, h[-1], h[-1] + 2]}]
            h = h + [h[-1] + 1, h[-1] + 2]
        out.append(ops + [thin(r, h)])
    return out


def c_index(c):
    r = rng(c.prop)
    split(c, record(c, sessions_of(c, r, c.prop)), 'histories of the specification')
    split(c, record(c, stretched(r, scale(300, 4000))), 'histories of the specification, stretched')
    split(c, record(c, random_sessions(r, scale(600, 12000))), 'random histories')
    split(c, record(c, watched(r, scale(2500, 30000))), 'the same questions all along')
    split(c, record(c, long_sessions(r)), 'long histories')


def c16(c):
    r = rng('C16')
    s = []
    m = c.spec('VsriMC', 'VsriMC', consts={'Times': '{%s}' % scale('0, 2, 3, 7', '0, 2, 3, 4, 7'), 'MaxOps': scale('5', '6'), 'Refusals': 'TRUE'})
    c.exhaustive.append('all histories of %s accepted and refused timestamps' % scale(5, 6))
    for p in m.prints:
        ops, hi = [], None
        q = {'op': 'query', 'lo': -1, 'hi': 9, 'xs': list(range(-1, 7))}
        for _, t in p['ops']:
            if hi is not None and t < hi and ops[-1] != q:
                ops.append(q)
            ops.append({'op': 'append', 't': t})
            ops.append(q) if hi is not None and t < hi else None
            hi = t if hi is None else max(hi, t)
        ops.append(q)
        s.append(ops)
    split(c, record(c, s), 'histories of the specification')
    s = random_sessions(r, scale(500, 8000), .3)
    for k in range(scale(300, 3000)):           # refusals one at a time, at every kind of distance
        h = history(r, r.choice(FAMS), r.choice([1, 2, 3, 5, 20, 60]))
        q = query(r, h)
        ops = [{'op': 'appends', 'ts': h}, q]
        for d in (1, 2, r.randint(1, 100), h[-1], h[-1] + 1, h[-1] - h[0]):
            if d > 0:
                ops += [{'op': 'append', 't': h[-1] - d}, q]
        ops += [{'op': 'append', 't': h[-1]}, {'op': 'append', 't': min(h[-1] + 1, MAX)}, query(r, h)]
        s.append(ops)
    for t in (-1, -5, 0):
        s.append([{'op': 'append', 't': t}, {'op': 'append', 't': -1}, {'op': 'append', 't': 3}, {'op': 'append', 't': 2}, query(r, [3], True)])
    split(c, record(c, s), 'random histories')
    split(c, record(c, long_sessions(r, True)), 'long histories')


def survivors(ops):
    mem, disk = [], []
    for o in ops:
        if o['op'] == 'append':
            mem = mem + [o['t']]
        elif o['op'] == 'appends':
            mem = mem + o['ts']
        elif o['op'] == 'save':
            disk = mem
        elif o['op'] == 'load':
            mem = disk
        elif o['op'] == 'new':
            mem = []
    return mem


def with_reference(c, sessions):
    refs = [[{'op': 'appends', 'ts': survivors(s)}, [o for o in s if o['op'] == 'query'][-1]] for s in sessions]
    evs = record(c, sessions)
    for e, x in zip(evs, record(c, refs)):
        if 'died' in x:
            e['died'] = x['died']
        else:
            e['ref'] = {'ops': x['ops'], 'obs': x['obs']}
    return evs


def c19(c):
    r = rng('C19')
    m = c.spec('VsriMC', 'VsriMC', consts={'Times': scale('{0, 2, 3, 7}', '{0, 2, 3, 4, 7}'), 'MaxOps': scale('5', '6'), 'Refusals': 'TRUE', 'Disk': 'TRUE', 'EmitFrom': '2'})
    c.exhaustive.append('all interleavings of %s appends, saves and reloads' % scale(5, 6))
    s = []
    for p in m.prints:
        kinds = [o for o, _ in p['ops']]
        if 'load' not in kinds and kinds[-1] != 'save':
            continue
        ops = [{'op': 'append', 't': t} if o == 'append' else {'op': o, 'via': 'flush' if len(s) % 2 else 'to'} for o, t in p['ops']]
        q = {'op': 'query', 'lo': -1, 'hi': 9, 'xs': list(range(-1, 7))}
        ops.append(q)
        if kinds[-1] == 'save':
            ops.append({'op': 'where', 'lo': -1, 'hi': 9})
        s.append(ops)
    split(c, with_reference(c, s), 'interleavings of the specification')
    s = []
    for k in range(scale(500, 8000)):
        n = r.choice([1, 2, 3, 5, 10, 40, 200]) if k % 20 else 3000
        h = history(r, FAMS[k % len(FAMS)], n)
        ops, a, saved = [], 0, 0
        while a < len(h):
            b = min(len(h), a + r.choice([1, 1, 2, 3, 10, n]))
            ops.append({'op': 'appends', 'ts': h[a:b]})
            a = b
            x = r.random()
            if x < .5:
                ops.append({'op': 'save', 'via': r.choice(['flush', 'to'])})
                saved = a
                if r.random() < .8:
                    ops.append({'op': 'load'})
            elif x < .6 and any(o['op'] == 'save' for o in ops):
                ops.append({'op': 'load'})
                if r.random() < .7:
                    a = saved               # what was lost is appended again
            elif x < .68 and any(o['op'] == 'save' for o in ops):
                ops.append({'op': 'new'})       # a shorter index over a longer file
                a = r.choice([a, max(a, len(h) - r.choice([0, 1, 2, 5])), r.randrange(len(h))])
        ops.append({'op': 'save', 'via': r.choice(['flush', 'to'])})
        q = query(r, h)
        if r.random() < .5:
            ops += [q, {'op': 'where', 'lo': 0, 'hi': 0, 'ts': q['ts']}, {'op': 'load'}]
        else:
            ops += [{'op': 'load'}, {'op': 'appends', 'ts': [min(h[-1] + k, MAX) for k in (0, 3, 6, 1)]}]
        ops.append(query(r, h))
        s.append(ops)
    split(c, with_reference(c, s), 'random interleavings')
    s = []
    for h in long_histories(r):
        cut = r.randint(1, len(h) - 1)
        q = thin(r, h)
        s.append([{'op': 'appends', 'ts': h[:cut]}, {'op': 'save', 'via': 'to'}, {'op': 'load'}, {'op': 'appends', 'ts': h[cut:]}, {'op': 'save', 'via': 'flush'}, q,
                  {'op': 'where', 'lo': 0, 'hi': 0, 'ts': q['ts']}, {'op': 'load'}, q])
    split(c, with_reference(c, s), 'long histories')


# ------------------------------------------------------------------ files (C26)

def readers(c, r, files):
    """files: (samples, text)"""
    s, refs = [], []
    for h, text in files:
        ask = thin if len(h) > 10000 else query
        q = ask(r, h) if ask == thin else query(r, h, h[-1] < 30)
        more = [h[-1] - 1, h[-1], h[-1] + 1, h[-1] + 2, h[-1] + 4, h[-1] + 6, h[-1] + 6]
        if len(h) > 1 and r.random() < .5:
            more = [h[-1] + (h[-1] - h[-2])] * 2 + more[2:]
            more[1] += h[-1] - h[-2]
        more = [min(t, MAX) for t in more]
        q2 = ask(r, h + more)
        w = {'op': 'where', 'lo': q['lo'], 'hi': q['hi']}
        if 'ts' in q:
            w['ts'] = q['ts']
        a = {'op': 'appends', 'ts': more}
        s.append([{'op': 'put', 'text': list(text)}, {'op': 'load'}, q, w, a, q2])
        refs.append([{'op': 'appends', 'ts': h}, q, a, q2])
    evs = record(c, s)
    for e, x in zip(evs, record(c, refs)):
        e['k'] = 'reader'
        if 'died' in x:
            e['died'] = x['died']
        else:
            e['ref'] = {'ops': x['ops'], 'obs': x['obs']}
    return evs


def any_runs(r, h, p=.97):
    """the samples, divided into runs at will"""
    out, k = [], 0
    while k < len(h):
        n = 1
        if k + 1 < len(h) and r.random() < .85:
            n, m = 2, h[k + 1] - h[k]
            while k + n < len(h) and h[k + n] - h[k + n - 1] == m and r.random() < p:
                n += 1
        out.append('%d,%d,%d,%d\n' % (h[k + 1] - h[k] if n > 1 else 0, k, h[k], n))
        k += n
    return ('%d\n%d\n' % (h[0], h[-1]) + ''.join(out)).encode()


def c26(c):
    r = rng('C26')
    files = []
    for consts in scale([{'MaxOps': '5'}], [{'MaxOps': '6'}, {'Times': '{0, 1, 2, 3}', 'MaxOps': '8', 'EmitFrom': '6'}]):
        m = c.spec('VsriFileMC', 'VsriFileMC', consts=consts)
        c.exhaustive.append('all files of VsriFileMC with %s' % consts)
        files += [(p['h'], p['text']) for p in m.prints]
    split(c, readers(c, r, files), 'files of the specification', module='VsriFileTrace')
    files = []
    for k in range(scale(400, 4000)):
        h = history(r, FAMS[k % len(FAMS)], r.choice([1, 2, 3, 5, 8, 20, 60, 200]) if k % 40 else 2000)
        files.append((h, any_runs(r, h)))
    split(c, readers(c, r, files), 'random files', module='VsriFileTrace')
    split(c, readers(c, r, [(h, any_runs(r, h, p)) for h in long_histories(r)[:-1] for p in (1, .9998)]), 'long files', module='VsriFileTrace')
    # what is written
    m = c.spec('VsriMC', 'VsriMC', consts={'Times': scale('{0, 2, 3, 7}', '{0, 2, 3, 4, 7}'), 'MaxOps': scale('5', '6'), 'Refusals': 'TRUE', 'Disk': 'TRUE', 'EmitFrom': '2'})
    c.exhaustive.append('all interleavings of %s appends, saves and reloads' % scale(5, 6))
    s = []
    for p in m.prints:
        if p['ops'][-1][0] == 'save':
            s.append([{'op': 'append', 't': t} if o == 'append' else {'op': o, 'via': 'flush' if len(s) % 2 else 'to'} for o, t in p['ops']])
    s.append([{'op': 'save', 'via': 'to'}, {'op': 'load'}, {'op': 'append', 't': 4}, {'op': 'save', 'via': 'flush'}])
    for k in range(scale(400, 4000)):
        h = history(r, FAMS[k % len(FAMS)], r.choice([1, 2, 3, 5, 10, 40, 200]) if k % 40 else 3000)
        ops, a = [], 0
        while a < len(h):
            b = min(len(h), a + r.choice([1, 2, 3, 10, len(h)]))
            ops.append({'op': 'appends', 'ts': h[a:b]})
            a = b
            x = r.random()
            if x < .4:
                ops.append({'op': 'save', 'via': r.choice(['flush', 'to'])})
                if r.random() < .5:
                    ops.append({'op': 'load'})
            elif x < .5:
                ops += [{'op': 'new'}]
        s.append(ops + [{'op': 'save', 'via': r.choice(['flush', 'to'])}])
    for h in long_histories(r)[:-1]:
        cut = r.randint(1, len(h) - 1)
        s.append([{'op': 'appends', 'ts': h[:cut]}, {'op': 'save', 'via': 'to'}, {'op': 'load'}, {'op': 'appends', 'ts': h[cut:]}, {'op': 'save', 'via': 'flush'}])
    evs = record(c, s, keep=True)
    for e in evs:
        e['k'] = 'writer'
    split(c, evs, 'what is written', module='VsriFileTrace')


c15 = c17 = c18 = c_index
