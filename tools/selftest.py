"""Self test of the specification's arithmetic (spec/BigNat.tla, spec/F64.tla) against Python's exact fractions."""
import json, math, os, random, struct, sys, tempfile
from fractions import Fraction as F
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

random.seed(int(os.environ.get('VERIF_SEED', '1')))
words = lambda x: list(struct.unpack('<4H', struct.pack('<d', x)))


def f32(x):
    try:
        return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def rnd():
    k = random.random()
    if k < .2:
        return float(random.randint(-300, 300))
    if k < .4:
        return random.randint(-10**6, 10**6) / random.choice([1, 2, 10, 100, 1e5])
    if k < .5:
        return random.choice([0.0, -0.0, 1e-320, 5e-324, 2.0**31, -2.0**31, 2.0**63, -2.0**63, 1e300, 1e-300, 255., 256.,
                              0.5, -0.5, 1.5, 2.5, 1e30, 3.4e38, 3.5e38, 1.4e-45, 7e-46, 2**53 + 2.0, 4503599627370497.5])
    x = struct.unpack('<d', struct.pack('<Q', random.getrandbits(64)))[0]
    if k < .7 and math.isfinite(x):
        return x
    return random.gauss(0, 1) * 10**random.randint(-10, 10)


def case():
    x = rnd()
    y = random.choice([rnd(), x * (1 + random.gauss(0, 1) * 10**random.randint(-12, 7)), x])
    if not math.isfinite(y):
        y = x
    if x == y:
        rel = [0, 0]
    elif x == 0:
        rel = [-1, 0]
    else:
        r = abs(F(y) - F(x)) / abs(F(x))
        u = max(1, int(r * 2**24))
        rel = [u >> 24, u & 0xffffff] if u >> 24 < 1 << 20 else [1 << 20, 0]
    n = random.getrandbits(random.randint(1, 64))
    f = f32(x)
    ri = (abs(F(x)) + F(1, 2)).__floor__()
    return dict(x=words(x), y=words(y), isint=F(x).denominator == 1, f32=words(f),
                f32w=list(struct.unpack('<2H', struct.pack('<f', f))), less=x < y, big=ri >= 2**63,
                round=words(math.copysign(float(ri), x) if ri < 2**63 else 0.0), rel=rel,
                nb=list(struct.pack('<Q', n)), nf=words(float(n)),
                units=list(int(abs(F(x)) * 2**24).to_bytes(140, 'little')) if abs(x) < 2.0**1000 else None)


def main():
    cases = []
    while len(cases) < 4000:
        c = case()
        if c['units'] is not None:
            cases.append(c)
    spoil = '--spoil' in sys.argv
    if spoil:       # the self test must be able to fail
        cases[7]['nf'][0] ^= 1
        cases[9]['rel'][0] += 3
    d = tempfile.mkdtemp()
    p = os.path.join(d, 'c.json')
    json.dump(cases, open(p, 'w'))
    r = vlib.tlc('F64Test', 'F64Test', env={'TRACE': p})
    os.remove(p)
    os.rmdir(d)
    print(r.ok, r.prints[:5], 'wall %.1f' % r.wall, r.distinct)
    if not r.ok:
        print(r.out[-2000:])
    return 0 if r.ok and len(r.prints) == (2 if spoil else 0) else 1


sys.exit(main())
