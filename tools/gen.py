"""Series for the conformance runs. Everything is drawn from one seeded generator."""
import math, struct

LENGTHS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 16, 17, 19, 20, 21, 29, 30, 31, 63, 64, 99, 100, 101, 126, 127, 128, 129, 130, 144, 162,
           199, 200, 249, 250, 251, 252, 255, 256, 257, 299, 300, 301, 324, 399, 400, 401, 486, 500, 510, 511, 512, 513, 514, 600, 640,
           767, 768, 1000, 1023, 1024, 1025, 1030, 1152, 1300, 1535, 1536, 1537, 1600, 2047, 2048, 2049, 2100, 2560, 3000]
BOUNDARY = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.5, 127.0, 128.0, -128.0, -129.0, 250.0, 251.0, 254.0, 255.0, 256.0, 257.0,
            32766.0, 32767.0, 32768.0, -32767.0, -32768.0, -32769.0, 65535.0, 65536.0, 125.0, 126.0, -125.0, -126.0,
            2147483646.0, 2147483647.0, 2147483648.0, -2147483647.0, -2147483648.0, -2147483649.0, 4294967295.0, 4294967296.0,
            9007199254740991.0, 9007199254740992.0, 9.3e18, -9.3e18, 1e-5, 5e-6, 1e-300, 5e-324, -5e-324, 1e30, 255.5, 32767.5, 0.1, 1 / 3,
            1.0000000000000002, 0.9999999999999999, 123456.789, 2147483647.5]
FAMILIES = ['smallint', 'byte', 'negint', 'wideint', 'i32', 'walk', 'metric', 'sine', 'sine0', 'zeros', 'runs', 'steps', 'spikes', 'alternate',
            'twovalues', 'boundary', 'tiny', 'mixed', 'ramp', 'const', 'almostconst', 'noise', 'big', 'fewdistinct', 'sparse', 'edges',
            'outlierlast', 'outlierfirst', 'smallstart', 'hugeint', 'decimals', 'minusconst', 'twoparts', 'twoparts']


def bits(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def hexs(d):
    return ''.join('%016x' % bits(x) for x in d)


def unhex(s):
    return [struct.unpack('>d', bytes.fromhex(s[i:i + 16]))[0] for i in range(0, len(s), 16)]


def words(s):
    """16 hex digits per sample -> words, least significant first"""
    return [[int(s[i + 12:i + 16], 16), int(s[i + 8:i + 12], 16), int(s[i + 4:i + 8], 16), int(s[i:i + 4], 16)]
            for i in range(0, len(s), 16)]


def blist(h):
    return list(bytes.fromhex(h))


def series(r, fam, n, limit=1e300):
    d = _series(r, fam, n)
    return [x if abs(x) <= limit else math.copysign(limit, x) for x in d]


def _series(r, fam, n):
    u = r.uniform
    if fam == 'smallint':
        return [float(r.randint(0, 9)) for _ in range(n)]
    if fam == 'byte':
        return [float(r.randint(0, 255)) for _ in range(n)]
    if fam == 'negint':
        return [float(r.randint(-300, 300)) for _ in range(n)]
    if fam == 'wideint':
        return [float(r.randint(-40000, 40000)) for _ in range(n)]
    if fam == 'i32':
        return [float(r.randint(-2**31, 2**31 - 1)) for _ in range(n)]
    if fam == 'hugeint':
        k = r.choice([2**33, 2**52, 2**53, 2**60])
        return [float(r.randint(-k, k)) for _ in range(n)]
    if fam == 'walk':
        x, o = u(-10, 100), []
        for _ in range(n):
            x += r.gauss(0, 1)
            o.append(x)
        return o
    if fam == 'metric':
        x, o = u(10, 100), []
        for _ in range(n):
            x = max(0.0, x + r.gauss(0, 2))
            o.append(round(x, 2))
        return o
    if fam in ('sine', 'sine0'):
        p, a, m = u(5, 200), u(1, 50), (0.0 if fam == 'sine0' else u(60, 200))
        return [m + a * math.sin(2 * math.pi * k / p) + (r.gauss(0, .05) if r.random() < .5 else 0) for k in range(n)]
    if fam == 'zeros':
        return [0.0 if r.random() < .3 else round(u(0, 20), r.choice([0, 1, 3])) for _ in range(n)]
    if fam == 'sparse':
        return [u(1, 100) if r.random() < .03 else 0.0 for _ in range(n)]
    if fam == 'runs':
        o = []
        while len(o) < n:
            o += [r.choice([0.0, 1.0, -1.0, 7.25, 300.0, 70000.0, u(-5, 5)])] * r.choice([1, 1, 2, 3, 5, 40, 260])
        return o[:n]
    if fam == 'steps':
        o, x = [], float(r.randint(1, 50))
        while len(o) < n:
            o += [x] * r.randint(5, 60)
            x += r.choice([-3, 4, 10, 100])
        return o[:n]
    if fam == 'spikes':
        return [r.choice([5.0, 5.1, 5.2]) if r.random() < .98 else u(1e3, 1e5) for _ in range(n)]
    if fam == 'alternate':
        a = u(1, 100)
        return [a if k % 2 else -a for k in range(n)]
    if fam == 'twovalues':
        a, b = r.choice([(0.0, 1.0), (1.0, 1000.0), (-3.0, 3.5), (0.0, 1e9)])
        return [r.choice([a, b]) for _ in range(n)]
    if fam == 'boundary':
        return [r.choice(BOUNDARY) for _ in range(n)]
    if fam == 'edges':
        s = r.sample(BOUNDARY, 3)
        return [r.choice(s) for _ in range(n)]
    if fam == 'tiny':
        e = r.choice([1e-5, 1e-7, 1e-12, 1e-100, 1e-310])
        return [u(1, 10) * e for _ in range(n)]
    if fam == 'mixed':
        return [r.gauss(0, 1) * 10.0**r.randint(-9, 12) for _ in range(n)]
    if fam == 'ramp':
        a, b = u(-5, 5), u(-1e3, 1e3)
        return [a * k + b for k in range(n)]
    if fam == 'const':
        return [r.choice(BOUNDARY)] * n
    if fam == 'minusconst':
        return [r.choice([-0.0, -1.0, -2.5, -1e-9, -70000.0, -2**31 + 0.0])] * n
    if fam == 'almostconst':
        a = r.choice(BOUNDARY)
        o = [a] * n
        if n:
            o[r.randrange(n)] = a * (1 + r.choice([1e-15, 1e-8, 1e-3])) + r.choice([0.0, 1e-3, 1.0])
        return o
    if fam == 'noise':
        return [u(-1, 1) for _ in range(n)]
    if fam == 'big':
        e = r.choice([1e9, 1e15, 1e20, 1e30, 1e100, 1e299])
        return [u(-1, 1) * e for _ in range(n)]
    if fam == 'fewdistinct':
        s = [round(u(-1000, 1000), r.choice([0, 2])) for _ in range(r.randint(2, 6))]
        return [r.choice(s) for _ in range(n)]
    if fam == 'outlierlast':
        o = [10.0 + math.sin(k / 20) for k in range(n)]
        if n:
            o[-1] = u(500, 1e6)
        return o
    if fam == 'outlierfirst':
        o = [10.0 + math.sin(k / 20) for k in range(n)]
        if n:
            o[0] = u(500, 1e6)
        return o
    if fam == 'smallstart':
        # the part a sample of the data sees is easier than the rest
        return [50.0 + math.sin(k / 30) if k < 140 else u(0.5, 5000) for k in range(n)]
    if fam == 'twoparts':
        # a part that is unlike the rest, at the beginning, at the end or in every other place
        a, b = r.sample(['runs', 'ramp', 'walk', 'smallint', 'sine', 'noise', 'steps', 'mixed', 'zeros', 'const', 'decimals'], 2)
        k = r.choice([n // 2, n // 4, n - n // 4, min(n, 128), min(n, 512), max(0, n - 3)])
        x, y = _series(r, a, n), _series(r, b, n)
        return x[:k] + y[k:] if r.random() < .8 else [y[q] if q % 2 else x[q] for q in range(n)]
    if fam == 'decimals':
        return [round(u(0, 1), r.choice([3, 6, 9])) for _ in range(n)]
    raise ValueError(fam)


def with_nonfinite(r, d):
    o = []
    for x in d:
        while r.random() < .1:
            o.append(r.choice([math.nan, math.inf, -math.inf]))
        o.append(x)
    if r.random() < .5:
        o.append(math.nan)
    return o


def spread(r, budget, lengths=LENGTHS, families=FAMILIES, cap=None):
    """(family, length) pairs that visit every family and every length, then random ones, within a number of samples"""
    ls = [n for n in lengths if cap is None or n <= cap]
    r.shuffle(ls)
    fs = list(families)
    r.shuffle(fs)
    out, used, k = [], 0, 0
    for k in range(max(len(ls), len(fs))):
        n = ls[k % len(ls)]
        out.append((fs[k % len(fs)], n))
        used += n
    while used < budget:
        n = r.choice(ls) if r.random() < .6 else int(10 ** r.uniform(0, math.log10(max(ls))))
        out.append((r.choice(fs), n))
        used += n + 5
    return out
