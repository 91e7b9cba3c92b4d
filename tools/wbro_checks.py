"""Raw-series files (C14)."""
import os
import gen, vlib
from codec_checks import rng, scale
from vlib import harness

ODD = ['7ff8000000000000', '7ff0000000000001', 'fff0000000000000', '7ff0000000000000', '8000000000000000', '0000000000000000', 'ffffffffffffffff',
       '7ff4000000000123', 'fff8000000000001', '0000000000000001', '3ff0000000000001', '7fefffffffffffff', '0123456789abcdef']


def record(c, sessions, full):
    d = os.path.join(c.dir, 'wbro')
    req = []
    for k, s in enumerate(sessions):
        sub = os.path.join(d, '%d-%d' % (len(c.runs), k))
        os.makedirs(sub, exist_ok=True)
        req.append({'op': 'wbro', 'dir': sub, 'ops': s, 'full': full})
    out = []
    for s, res in zip(sessions, harness(req)):
        ops = []
        for o in s:
            o = dict(o)
            if full and 'data' in o:
                o = {'op': o['op'], 'words': gen.words(o['data'])}
            elif 'bytes' in o:
                o = {'op': 'put', 'put': gen.blist(o['bytes'])}
            ops.append(o)
        ev = {'ops': ops, 'full': full, 'case': {'ops': s, 'full': full}}
        if 'obs' not in res:
            ev['died'] = str(res.get('died', 'no result'))
        else:
            ev['obs'] = []
            for o in res['obs']:
                o = dict(o)
                if 'data' in o:
                    o['data'] = gen.words(o['data'])
                if 'bytes' in o:
                    o['bytes'] = gen.blist(o['bytes'])
                ev['obs'].append(o)
        out.append(ev)
    return out


def series(r, n):
    s = []
    for _ in range(n):
        s.append(r.choice(ODD) if r.random() < .4 else '%016x' % r.getrandbits(64))
    return ''.join(s)


def finish(s):
    """what is looked at in the end"""
    same = s[-1]['op'] in ('save', 'reload')
    have = any(o['op'] in ('save', 'bulk') for o in s)
    return s + [{'op': 'look'}] + ([{'op': 'read'}] if have else []) + ([{'op': 'file'}] if have else []) + [{'op': 'look'}] + ([] if same else [{'op': 'save'}, {'op': 'file'}, {'op': 'read'}])


def c14(c):
    r = rng('C14')
    consts = [{}, {'Counts': '{1, 1023, 2047, 2048, 5000}', 'Bulks': '{1, 2048}', 'MaxOps': '5', 'EmitFrom': '5'}] if THOROUGH() else [None]
    for k in consts:
        m = c.spec('WbroMC', 'WbroMC', consts=k)
        c.exhaustive.append('all interleavings of append, save, bulk write and reload of WbroMC with %s' % (k or 'the default bounds'))
        s = [finish(p['ops']) for p in m.prints]
        if not THOROUGH():
            s = [x for q, x in enumerate(s) if len(m.prints[q]['ops']) < 4 or q % 4 == 0]
        for b in range(0, len(s), 6000):
            c.validate('WbroTrace', record(c, s[b:b + 6000], False), 'interleavings of the specification')
    # every length around the blocks
    s = []
    for n in list(range(0, 40)) + [k * 2048 + d for k in scale([1, 2, 3], [1, 2, 3, 4, 10, 64]) for d in (-2, -1, 0, 1, 2)] + scale([65535, 65536, 70000], [65535, 65536, 65537, 70000, 131072, 200000, 1000000]):
        s.append([{'op': 'append', 'from': 0, 'n': n}, {'op': 'save'}, {'op': 'look'}, {'op': 'file'}, {'op': 'read'}])
        s.append([{'op': 'bulk', 'from': 0, 'n': n}, {'op': 'read'}, {'op': 'reload'}, {'op': 'look'}, {'op': 'append', 'from': n, 'n': 3}, {'op': 'look'}, {'op': 'save'}, {'op': 'file'}, {'op': 'read'}])
    c.validate('WbroTrace', record(c, s, False), 'lengths')
    # in full: every bit pattern, and the layout
    s = []
    for k in range(scale(400, 6000)):
        ops, mem, file = [], 0, None
        for _ in range(r.choice([1, 2, 3, 4, 6])):
            x = r.random()
            n = r.choice([0, 1, 2, 3, 5, 17, 60]) if r.random() < .97 else r.choice([2047, 2048, 2049])
            if x < .5:
                ops.append({'op': 'append', 'data': series(r, n)})
                mem += n
            elif x < .7:
                ops.append({'op': 'save'})
                file = mem
            elif x < .8:
                ops.append({'op': 'bulk', 'data': series(r, n)})
                file = n
            elif file is not None:
                ops.append({'op': 'reload'})
                mem = file
        if ops:
            s.append(finish(ops))
    # files without the marks, and files with other digits between them
    head = [bytearray(b'WBRO0000WBRO')]
    for p in (0, 1, 2, 3, 8, 9, 10, 11):
        b = bytearray(head[0])
        b[p] ^= r.choice([1, 32, 255])
        head.append(b)
    for p in (4, 5, 6, 7):
        b = bytearray(head[0])
        b[p] = r.choice([0, 49, 255])
        head.append(b)
    body = lambda n: bytes(12) + layout(r, n)
    for b in head:
        for n in (0, 1, 3):
            x = bytes(b) + body(n)[12:]
            s.append([{'op': 'put', 'bytes': x.hex()}, {'op': 'read'}])
    for x in (b'', b'W', b'WBRO', b'WBRO0000WBR', b'RIFF0000WAVE', b'WBRO0000', b'WBRO', b'BRRO' + bytes(40), bytes(12), bytes(4000), b'WBRO0000WBRo' + bytes(28)):
        s.append([{'op': 'put', 'bytes': x.hex()}, {'op': 'read'}])
    for b in range(0, len(s), 400):
        c.validate('WbroTrace', record(c, s[b:b + 400], True), 'in full')
    # files of the specification's layout
    m = c.spec('WbroGen', 'WbroGen', consts={'Big': 'TRUE'} if THOROUGH() else None)
    c.exhaustive.append('all files of WbroGen')
    s = [[{'op': 'put', 'bytes': bytes(p['bytes']).hex()}, {'op': 'read'}] for p in m.prints]
    c.validate('WbroTrace', record(c, s, True), 'files of the specification')


def layout(r, n):
    """a body, as the specification lays it out (one block)"""
    s = series(r, n)
    b = b''.join(int(s[k:k + 16], 16).to_bytes(8, 'little') for k in range(0, len(s), 16))
    le = lambda v: v.to_bytes(4, 'little', signed=True)
    return b + (le(-8 * n) + le(n) if n else b'') + le(-8 if n else 0) + le(1 if n else 0) + le(n) + bytes([5, 0, 0, 0])


def THOROUGH():
    return vlib.THOROUGH
