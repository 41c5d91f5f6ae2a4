"""Case generators: seeded families of calls aimed at each property.

Every family returns a list of cases dict(f=format units, a=argument records[, tz, rep]).
They only choose inputs; what the library has to print is decided by the specification.
"""
import math, random, struct
from fractions import Fraction
from vals import *

INTS = 'diuoxX'
FLOATS = 'fFeEgGaA'
ALLSPEC = 'diuoxXfFeEgGaAcsSp'
I31, I63 = 2 ** 31, 2 ** 63


def case(f, a, **k):
    return dict(f=U(f) if isinstance(f, str) else f, a=a, **k)


def rflags(r):
    k = r.random()
    if k < .3:
        return ''
    fl = list(r.choice(ALLFLAGS))
    r.shuffle(fl)
    return ''.join(fl)


def rwidth(r, big=False):
    return r.choice(['', '', '', '1', '2', '3', '5', '8', '12', '20', '40'] + (['127', '300'] if big else []))


def big_field(r):
    """Widths and precisions far beyond ordinary use, next to powers of two and ten."""
    return str(r.choice([100, 128, 255, 256, 257, 400, 511, 512, 1000, 1023, 1024, 1025, 1100, 2048, 2500, 4096]) + r.randrange(-1, 2))


def rprec(r):
    return r.choice(['', '', '', '.', '.0', '.1', '.2', '.3', '.4', '.5', '.6', '.7', '.9', '.10', '.12', '.15', '.17', '.20', '.30'])


def surround(r, f, a):
    """Sometimes put the directive between literals and other directives."""
    if r.random() < .55:
        return f, a
    pre, post = r.choice([('', ''), ('a', 'b'), ('%%', '%%'), ('[', ']'), ('%d,', ''), ('', ' %s'), ('%s:', '%n'), ('%-3d|', '|%c')])
    a = list(a)
    for part, front in ((pre, True), (post, False)):
        extra = {'%d,': Int(7), ' %s': Str('end'), '%s:': Str('k'), '%n': Int(0), '%-3d|': Int(-4), '|%c': Char('z')}.get(part)
        if extra is not None:
            a = [extra] + a if front else a + [extra]
    return pre + f + post, a


# ------------------------------------------------------------------ integers
BOUND = {'byte': 7, 'short': 15, 'int': 31, 'long': 63}
MK = {'byte': Byte, 'short': Short, 'int': Int, 'long': Long, 'bigint': BigInt}


def int_values(t, r, n):
    if t == 'bigint':
        vs = {0, 1, -1, 9, 10, -10, 99, 100}
        for b in (7, 8, 15, 16, 31, 32, 62, 63, 64, 65, 96, 127, 128, 200):
            for d in (-1, 0, 1):
                vs |= {2 ** b + d, -(2 ** b) + d}
        for k in (9, 10, 18, 19, 20, 38, 60):
            for d in (-1, 0, 1):
                vs |= {10 ** k + d, -(10 ** k) + d}
        for _ in range(n):
            vs.add(r.choice([1, -1]) * r.getrandbits(r.randrange(1, 260)))
        return sorted(vs)
    b = BOUND[t]
    lo, hi = -(2 ** b), 2 ** b - 1
    vs = {lo, lo + 1, hi, hi - 1, 0, 1, -1}
    for k in range(b):
        for d in (-1, 0, 1):
            vs |= {2 ** k + d, -(2 ** k) + d}
    k = 10
    while k <= hi:
        for d in (-1, 0, 1):
            vs |= {k + d, -k + d}
        k *= 10
    for _ in range(n):
        vs.add(r.choice([1, -1]) * r.getrandbits(r.randrange(1, b + 1)))
    return sorted(v for v in vs if lo <= v <= hi)


def ints(r, n):
    """Every integer type: all boundary values times every specifier, then random directives."""
    out = []
    for t in ('byte', 'short', 'int', 'long', 'bigint'):
        vals = int_values(t, r, 60 if t != 'byte' else 0)
        if t == 'byte':
            vals = list(range(-128, 128))
        for v in vals:
            for c in INTS:
                a = MK[t](v)
                if t != 'bigint' and r.random() < .5:
                    a['prim'] = 1
                elif r.random() < .3:
                    a['how'] = 'typed'
                out.append(case('%' + r.choice(['', '#', '+', ' ', '#.0', '.0', '08', '-9']) + c, [a]))
    for v in list(range(0, 65536, 4093)) + [0, 1, 48, 65, 127, 128, 255, 256, 0xd800, 0xdfff, 0xfffe, 0xffff]:
        for c in INTS:
            out.append(case('%' + c, [Char(v, prim=r.randrange(2))]))
    for v in (0, 1):
        for c in INTS:
            for fl in ('', '#', '+', '.0', '.3', '05', '#.0'):
                out.append(case('%' + fl + c, [Bool(v, prim=r.randrange(2))]))
    for b in (320, 511, 512, 513, 1023, 1024, 1025, 2048, 3321, 3322, 4096, 6000, 8192, 10000):
        for c in INTS:
            v = r.choice([2 ** b, 2 ** b - 1, 2 ** b | r.getrandbits(b), 10 ** (b * 3 // 10)])
            out.append(case('%' + r.choice(['', '#', '+', ' ', '.%d' % (b // 2), '%d' % b, '-%d' % b, '0%d' % b]) + c, [BigInt(v if c not in 'di' or r.random() < .5 else -v)]))
    pools = {t: int_values(t, r, 100) for t in MK}
    for _ in range(n):
        t = r.choice(list(MK))
        v = r.choice(pools[t]) if r.random() < .7 else r.choice([0, 0, 1, -1, 5, -5, 8, 15, 16, 255 if t != 'byte' else 127])
        f = '%' + rflags(r) + rwidth(r) + rprec(r) + r.choice(INTS)
        if r.random() < .01:
            f = '%' + rflags(r) + r.choice([big_field(r), '']) + '.' + big_field(r) + r.choice(INTS)
        a = MK[t](v)
        if t != 'bigint' and r.random() < .5:
            a['prim'] = 1
        out.append(case(*surround(r, f, [a])))
    return out


# ------------------------------------------------------------------ doubles
def ulp_neighbours(x, k=1):
    b = dbits(x)
    return [struct.unpack('<d', struct.pack('<Q', b + d))[0] for d in range(-k, k + 1) if 0 <= b + d < 0x7ff0000000000000]


def decimalish(r):
    """A double written with few digits: carries, ties and exact halves happen here."""
    k = r.randrange(10)
    if k == 0:
        s = '9' * r.randrange(1, 17) + r.choice(['', '4', '5', '6', '49', '50', '51'])
    elif k == 1:
        s = str(r.randrange(1, 10 ** r.randrange(1, 17))) + r.choice(['5', '50', '500', '49', '499', '51'])
    elif k == 2:
        s = str(r.randrange(1, 10 ** r.randrange(1, 8))) + '0' * r.randrange(8) + r.choice(['1', '5', '9'])
    elif k == 3:
        s = r.choice(['1', '10', '100', '1000000', '123456', '999999', '9999995', '99999949'])
    else:
        s = str(r.randrange(1, 10 ** r.randrange(1, 18)))
    e = r.choice([0, 0, -len(s), 1 - len(s), 2 - len(s), -len(s) // 2, r.randrange(-25, 10), r.randrange(-12, 4), r.randrange(-330, 300)])
    return float('%se%d' % (s, e))


def rdouble(r):
    k = r.randrange(12)
    if k < 5:
        x = decimalish(r)
    elif k == 5:
        x = r.randrange(0, 2000) / r.choice([1, 2, 4, 8, 16, 32, 64, 128, 1024])
    elif k == 6:
        x = float(r.getrandbits(r.randrange(1, 70)))
    elif k == 7:
        x = math.ldexp(1 + r.getrandbits(52) / 2 ** 52, r.randrange(-40, 60))
    elif k == 8:
        x = r.choice([0.0, 1.0, 0.5, 0.1, 0.25, 2.5, 10.0, 1e-4, 1e-5, 9.5, 99.5, 0.00009999995, 999999.5, 123456.5, 1e6, 1e21, 1e22, 1e23, 9.007199254740993e15, 4.9e-324, 2.2250738585072014e-308, 1.7976931348623157e308])
    elif k == 9:
        x = r.choice(ulp_neighbours(10.0 ** r.randrange(-20, 22)))
    elif k == 10:
        b = r.getrandbits(63)
        if b >= 0x7ff0000000000000:
            b = 0x7fe0000000000001
        x = struct.unpack('<d', struct.pack('<Q', b))[0]
    else:
        x = r.uniform(0, 10 ** r.randrange(-5, 9))
    if x == math.inf:
        x = 1.7976931348623157e308
    return -x if r.random() < .3 else x


def darg(r, x):
    if r.random() < .12 and (x == 0 or 1e-44 < abs(x) < 3e38):
        return Float(x, prim=r.randrange(2))
    return Double(x, prim=r.randrange(2))


def first_in_range(a, m, lo, hi):
    """Least x >= 0 with lo <= a*x mod m <= hi, or None."""
    a %= m
    if lo > hi or hi < 0:
        return None
    if lo <= 0:
        return 0
    stack = []
    # iterative Euclid-like descent
    def solve(a, m, lo, hi):
        if lo == 0:
            return 0
        if a == 0:
            return None
        x = -(-lo // a)
        if x * a <= hi:
            return x
        # no multiple of a in [lo, hi]: go down
        if 2 * a > m:
            y = solve(m - a, m, m - hi, m - lo)
            return y
        k = solve(a - m % a if m % a else 0, a, lo % a, hi % a)
        if k is None:
            return None
        t = lo + m * k
        x = -(-t // a)
        return x if x * a - m * k <= hi else None
    return solve(a, m, lo, hi)


def hard_doubles(r, per):
    """For each binary exponent, significands whose decimal expansion comes as close as possible
    to a digit boundary or the middle between two 16/17-digit decimals."""
    out = []
    for q in range(-1074, 972):
        e = int(math.floor((q + 52.5) * math.log10(2)))
        for _ in range(per):
            k = e - r.choice([15, 16, 17])
            half = r.choice([1, 2, 4])
            # c*2^q*half/10^k close to an integer
            num = (2 ** q if q >= 0 else 1) * (10 ** -k if k < 0 else 1) * half
            den = (2 ** -q if q < 0 else 1) * (10 ** k if k > 0 else 1)
            a = num % den
            delta = max(1, den >> 51)
            start = 2 ** 52 + r.getrandbits(51)
            off = (num * start) % den
            sgn = r.choice([0, 1])
            lo = (-off) % den if sgn == 0 else (-off - delta) % den
            hi = lo + delta
            if hi >= den:
                hi = den - 1
            x = first_in_range(a, den, lo, hi)
            if x is not None and start + x < 2 ** 53:
                c = start + x
                out.append(struct.unpack('<d', struct.pack('<Q', ((q + 1075) << 52) | (c - 2 ** 52)))[0])
    return out


def edge_doubles(r, per):
    """For each decimal exponent k, doubles for which an end of the rounding interval comes as close as
    possible to a multiple of 10^k or 10^(k+1), or the value to the middle of two multiples of 10^k,
    from below and from above: the doubles that depend on the last bits of a power of ten."""
    by = {}
    for q in range(-1074, 972):
        by.setdefault((q * 1262611) >> 22, []).append(q)     # floor(log10(2^q))
    out = []
    for k, qs in sorted(by.items()):
        for d, z in ((-1, 1), (1, 1), (-1, 0), (1, 0), (0, 0)):
            for side in (0, 1):
                for _ in range(per):
                    q, t = r.choice(qs), k + z
                    # (2c + d) * 2^(q-1) / 10^t close to an integer; for d = 0 close to a half
                    num = (2 ** (q - 1) if q > 0 else 1) * (10 ** -t if t < 0 else 1)
                    den = (2 ** (1 - q) if q <= 0 else 1) * (10 ** t if t > 0 else 1)
                    delta = max(1, den >> 49)
                    start = 2 ** 52 + r.getrandbits(51)
                    off = num * (2 * start + d) % den
                    lo = ((den // 2 if d == 0 else 0) - off - (0 if side else delta)) % den
                    x = first_in_range(2 * num % den, den, lo, min(lo + delta, den - 1))
                    if x is not None and start + x < 2 ** 53:
                        m = start + x - 2 ** 52
                        out.append(struct.unpack('<d', struct.pack('<Q', ((q + 1075) << 52) | m))[0])
    return out


def exponent_sweep(r, per):
    """Boundary significands for every binary exponent, subnormals by magnitude."""
    out = []
    for q in range(-1074, 972):
        ms = [0, 2 ** 52 - 1] if per < 4 else [0, 1, 2 ** 52 - 1, 2 ** 51]
        ms += [r.getrandbits(52) for _ in range(max(0, per - len(ms)))]
        for m in ms[:per]:
            out.append(((q + 1075) << 52) | m)
    for b in range(52):
        out += [1 << b, (1 << b) + 1, (2 << b) - 1]
    return [struct.unpack('<d', struct.pack('<Q', b))[0] for b in out]


def shortest(r, n, per=2):
    out = []
    xs = exponent_sweep(r, per) + hard_doubles(r, max(1, per // 2)) + edge_doubles(r, max(1, per // 2))
    for x in xs:
        x = -x if r.random() < .2 else x
        f = r.choice(['%.16e', '%.17e', '%.20e', '%.17g', '%.18g', '%#.19g', '%.16e', '%.17e'])
        if 1e-30 < abs(x) < 1e30 and r.random() < .6:
            f = r.choice(['%.20f', '%.40f', '%.25f'])
        out.append(case(f, [Double(x, prim=r.randrange(2))]))
    for _ in range(n):
        k = r.randrange(6)
        if k == 0:
            x = struct.unpack('<f', struct.pack('<I', r.choice([r.getrandbits(31) % 0x7f800000, r.choice([1, 0x7f7fffff, 0x00800000, 0x3dcccccd])])))[0]
            a = Float(x)
        elif k == 1:
            a = Double(r.choice(ulp_neighbours(float('1e%d' % r.randrange(-307, 309)), 2)))
        elif k == 2:
            a = Double(float(r.getrandbits(r.randrange(50, 64))))
        elif k == 3:
            a = Double(decimalish(r))
        else:
            a = DoubleBits(r.getrandbits(63) % 0x7ff0000000000000)
        f = r.choice(['%.16e', '%.17e', '%.18e', '%.17g', '%.330f' if r.random() < .1 else '%.24f', '%e', '%.15e', '%g'])
        out.append(case(f, [a]))
    return out


def fixed_sci(r, n):
    out = []
    for x in (0.0, -0.0, 0.5, 1.5, 2.5, 0.05, 0.15, 0.25, 0.35, 0.125, 0.375, 0.0625, 9.5, 9.95, 9.995, 99.5, 99.95, 999.9999, 1e-7, 5e-7, 4.9e-324, 1e15, 1e16, 123456789.125):
        for p in ('', '.', '.0', '.1', '.2', '.3', '.6', '.10', '.17'):
            for c in 'feFE':
                for fl in ('', '#'):
                    out.append(case('%' + fl + p + c, [Double(x)]))
    for _ in range(n):
        x = rdouble(r)
        c = r.choice('feFE')
        p = rprec(r)
        if r.random() < .01:
            p = '.' + r.choice(['340', big_field(r)])
        if c in 'fF' and abs(x) > 1e30 and r.random() < .9:
            x = x % 1e18
        f = '%' + rflags(r) + rwidth(r) + p + c
        out.append(case(*surround(r, f, [darg(r, x)])))
    return out


def general(r, n):
    out = []
    for x in (0.0, -0.0, 1.0, 100000.0, 999999.0, 999999.4, 999999.5, 1e6, 1e-4, 0.00009999995, 0.000099999949, 0.0001, 1e-5, 9.5, 9.96, 99.6, 0.95, 1e100, 123456.789, 100.0, 120.0, 1e15, 1e17, 1e18):
        for p in ('', '.', '.0', '.1', '.2', '.3', '.5', '.6', '.7', '.17', '.20'):
            for c in 'gG':
                for fl in ('', '#'):
                    out.append(case('%' + fl + p + c, [Double(x)]))
    for _ in range(n):
        k = r.randrange(10)
        P = r.choice([1, 1, 2, 3, 4, 5, 6, 6, 7, 8, 10, 15, 16, 17, 18, 20, 25])
        if k < 4:       # around the two thresholds
            e = r.choice([-5, -4, -4, -3, P - 2, P - 1, P - 1, P, P + 1])
            m = r.choice(['9' * r.randrange(1, 17) + r.choice(['4', '5', '6', '']), '1', '10', str(r.randrange(1, 10 ** 9)), '5', '95', '99999999999'])
            x = float('%s.%se%d' % (m[0], m[1:17] or '0', e))
        else:
            x = rdouble(r)
        if r.random() < .3:
            x = -x
        if r.random() < .25:
            s = repr(abs(x))
            from decimal import Decimal
            d = Decimal(s)
            tup = d.as_tuple()
            u = int(''.join(map(str, tup.digits)))
            if tup.exponent > 60 or tup.exponent < -80:
                u, ex = u, 0
            else:
                ex = tup.exponent
            z = r.randrange(0, 4)
            a = BigDec((-1 if x < 0 else 1) * u * 10 ** z, -ex + z)
        else:
            a = darg(r, x)
        p = '' if P == 6 and r.random() < .7 else '.%d' % P
        if r.random() < .01:
            p = '.' + big_field(r)
        f = '%' + rflags(r) + rwidth(r) + p + r.choice('gG')
        out.append(case(*surround(r, f, [a])))
    return out


def hexfloat(r, n):
    out = []
    specials = [0, 1, 2, 3, (1 << 52) - 1, 1 << 52, (1 << 52) + 1, (2 << 52) - 1, 0x3ff0000000000000, 0x3fffffffffffffff, 0x7fefffffffffffff, 0x4000000000000000, 0x3ff8000000000000]
    for b in specials:
        for p in ('', '.0') + tuple('.%d' % i for i in range(1, 16)):
            for c in 'aA':
                out.append(case('%' + p + c, [DoubleBits(b)]))
                out.append(case('%' + p + c, [DoubleBits(b | 1 << 63)]))
    for _ in range(n):
        p = r.randrange(0, 15)
        e = r.choice([r.randrange(0, 2047), r.randrange(0, 3), r.randrange(1020, 1027), 0])
        f = r.getrandbits(52)
        k = r.randrange(6)
        q = max(1, p)
        if k < 3 and 1 <= q <= 12:      # exactly half way, or one off
            cut = 52 - 4 * q
            f = (f >> cut << cut) | 1 << (cut - 1)
            f += r.choice([0, 0, 0, -1, 1])
        elif k == 3 and 1 <= q <= 12:   # carries
            cut = 52 - 4 * q
            f = ((1 << 52) - 1) & ~((1 << cut) - 1) | r.choice([1 << (cut - 1), (1 << cut) - 1, (1 << (cut - 1)) - 1, 0])
        elif k == 4:
            f = r.getrandbits(4 * r.randrange(1, 13)) << (52 - 4 * r.randrange(1, 13)) if r.random() < .5 else 1 << r.randrange(52)
            f &= (1 << 52) - 1
        bits = e << 52 | f
        if e == 0 and r.random() < .6:  # subnormal with a tie after normalisation
            w = r.randrange(1, 53)
            c = 1 << (w - 1) | r.getrandbits(w) % (1 << (w - 1)) if w > 1 else 1
            bits = c
            drop = w - 1 - 4 * q
            if drop > 0 and r.random() < .7:
                c = c >> drop << drop | 1 << (drop - 1)
                bits = c
        bits |= r.getrandbits(1) << 63
        if r.random() < .01:
            p = int(big_field(r))
        ps = '' if p == 14 else r.choice(['.%d' % p, '.%d' % p, '.%d' % (p + 13) if p > 10 else '.%d' % p])
        a = DoubleBits(bits, prim=r.randrange(2))
        if r.random() < .08:
            a = FloatBits(r.getrandbits(31) % 0x7f800000)
        fm = '%' + rflags(r) + rwidth(r) + ps + r.choice('aA')
        out.append(case(*surround(r, fm, [a])))
    for v in (BigInt(5), BigDec(15, 1), BigInt(0), BigDec(0, 0), Int(5), Long(-(2 ** 63)), Char('A'), Bool(1), Str('0.5')):
        for c in 'aA':
            for p in ('', '.0', '.3', '.20'):
                out.append(case('x%' + p + c, [v]))
    return out


def rbigdec(r):
    k = r.randrange(9)
    s = r.choice([1, 1, -1])
    if k == 0:
        return BigDec(0, r.choice([0, 1, 5, -3, 20, -20, 7]))
    if k == 1:
        u = int('9' * r.randrange(1, 40) + r.choice(['', '4', '5', '49', '5000', '51']))
    elif k == 2:
        u = r.randrange(1, 10 ** r.randrange(1, 40)) * 10 ** r.randrange(0, 12)
    elif k == 3:
        u = int(str(r.randrange(1, 10 ** r.randrange(1, 25))) + '5' + '0' * r.randrange(0, 6) + r.choice(['', '', '1']))
    elif k == 4:
        u = 2 ** r.randrange(0, 160) + r.choice([-1, 0, 1])
    else:
        u = r.getrandbits(r.randrange(1, 200))
    n = len(str(u))
    sc = r.choice([0, n, n - 1, n + 3, n + 5, 1, 2, -1, -5, r.randrange(-30, 60), r.randrange(-10, 30)])
    if r.random() < .08:
        sc = r.choice([99, 100, 101, -99, -100, 400, 999, 1000, 1001, -1000, r.randrange(-1200, 1200)]) + r.choice([0, n, n - 1])
    return BigDec(s * u, sc)


def tie(r):
    """A decimal exactly half way (or one unit off) at precision p of %f; any p up to 60."""
    p = r.choice([0, 1, 2, 6, r.randrange(0, 60), r.randrange(14, 24)])
    head = r.choice([0, r.randrange(0, 10 ** r.randrange(1, 30)), 10 ** r.randrange(1, 40) - 1])
    z = r.randrange(0, 8)
    u = int(str(head) + '5' + '0' * z) + (r.choice([-1, 0, 1]) if z else r.choice([-1, 0, 0, 0, 1]))
    return p, BigDec(r.choice([1, -1]) * u, p + 1 + z)


def huge_scale(r):
    """Exponents around and beyond the int range: value u * 10^-sc * 10^hx."""
    u = r.choice([1, 5, 9, 12, 99, 999, 123, 9999999999, 10 ** r.randrange(1, 30), r.randrange(1, 10 ** r.randrange(1, 30))])
    neg = r.random() < .5
    h = r.choice([2 ** 31 - 1, 2 ** 31 - 2, 2 ** 31 - 20, 10 ** 9, 10 ** 8, 123456789]) if neg else r.choice([2 ** 31, 2 ** 31 - 1, 2 ** 31 - 20, 10 ** 9, 10 ** 8, 123456789])
    return BigDec(r.choice([1, -1]) * u, 0, hx=dict(neg=neg, m=limbs(h)))


def far_scale(r):
    """Decimals of thousands of digits, on either side of the point."""
    out = []
    for k in (1500, 4095, 4096, 4097, 5000, 9000, 12000):
        for sc in (-k, k):
            u = r.choice([1, 7, 95, 123456789, 10 ** 9 - 1]) * r.choice([1, -1])
            f = r.choice(['%f', '%.0f', '%F', '%.3f'] if sc < 0 else ['%%.%df' % (k + r.randrange(-3, 3)), '%%.%dF' % (k - 1), '%f'])
            out.append(case(*surround(r, f, [BigDec(u, sc)])))
            out.append(case(*surround(r, r.choice(['%e', '%g', '%.3E', '%#g']), [BigDec(u, sc)])))
    for k in (1000, 2500, 4097):
        u = r.randrange(10 ** (k - 1), 10 ** k)
        for f, sc in (('%e', 0), ('%.0f', 0), ('%%.%df' % (k - 1), k - 2), ('%%.%de' % (k - 2), 3), ('%%.%dg' % (k + 5), k // 2), ('%%.%df' % (k // 3), k // 2)):
            out.append(case(f, [BigDec(u, sc)]))
        out.append(case('%f|%e', [BigInt(u), BigInt(-u)]))
    return out


def bigdec(r, n):
    out = far_scale(r)
    for sc in range(-12, 13):
        for u in (0, 1, 5, 10, 95, 100, 999, 123000, 10 ** 9, 10 ** 10, 9999999999, 12345678901234567890):
            for f in ('%f', '%e', '%g', '%.0f', '%.0e', '%.2f', '%.3e', '%.3g', '%#g', '%#.0f', '%G', '%.15g'):
                if r.random() < .5:
                    out.append(case(f, [BigDec(u if r.random() < .7 else -u, sc)]))
    for k in range(0, 45):
        for v in (10 ** k, 10 ** k - 1, 10 ** k + 1, 5 * 10 ** k, 95 * 10 ** k):
            for f in ('%e', '%.0e', '%f', '%g', '%.3e', '%.20g'):
                out.append(case(f, [BigInt(v if r.random() < .7 else -v)]))
    for _ in range(n):
        k = r.random()
        if k < .15:
            a = BigInt(r.choice([1, -1]) * r.getrandbits(r.randrange(1, 220)))
        else:
            a = rbigdec(r)
            if k < .3:      # numerically equal twin in the same call: must print the same
                z = r.randrange(1, 8)
                m = sum(d * 10000 ** i for i, d in enumerate(a['m']))
                b = BigDec((-m if a['neg'] else m) * 10 ** z, a['sc'] + z)
                d = '%' + rprec(r) + r.choice('fFeEgG')
                out.append(case(d + '|' + d, [a, b]))
                continue
            if k < .4:
                p, a = tie(r)
                c = r.choice('fffFeg')
                out.append(case(*surround(r, '%' + rflags(r) + '.%d' % (p if c in 'fF' else max(0, p + r.randrange(-2, 12))) + c, [a])))
                continue
            if k < .43:
                a = huge_scale(r)
                f = '%' + rflags(r) + rwidth(r) + rprec(r) + r.choice('fFeEgGd' if a['hx']['neg'] else 'eEgG')
                out.append(case(*surround(r, f, [a])))
                continue
        p = rprec(r)
        if r.random() < .15:
            p = '.%d' % r.randrange(0, 60)
        if r.random() < .01:
            p = '.' + big_field(r)
        f = '%' + rflags(r) + rwidth(r) + p + r.choice('fFeEgG')
        if r.random() < .2:
            a['how'] = 'typed'
        out.append(case(*surround(r, f, [a])))
    return out


# ------------------------------------------------------------------ text
WORDS = ['', 'a', 'z', 'A', 'hello', 'Hello, World', 'naïve', 'ßıİǅ', 'é́', '\U0001d4b3x', '\ud800', '%d%s', '{}`@[', 'x' * 65, 'σς', 'ﬁn', 'tab\tnl\n', '\x00\x7f', 'ijĳ', 'ABCxyz', '0123456789']
CS = ['String', 'sb', 'sbuf', 'buf', 'chars', 'seq', 'seqcat']


def rtext(r, n=None):
    n = r.choice([0, 1, 2, 3, 5, 8, 13, 30, 64]) if n is None else n
    return [r.choice([r.randrange(97, 123), r.randrange(65, 91), r.randrange(32, 127), r.randrange(0, 65536), r.choice([0x61, 0x7a, 0x60, 0x7b, 0xe9, 0xdf, 0x131, 0x130, 0xd800, 0xdc00, 0x3b1, 0xff41])]) for _ in range(n)]


def rarr(r):
    k = r.randrange(9)
    n = r.choice([0, 1, 2, 3, 4, 5, 7])
    if k == 0:
        n = r.choice([n, n, r.randrange(130)])
        return ByteArr([r.randrange(256) for _ in range(n)])
    if k == 1:
        return CharArr(''.join(chr(r.randrange(32, 127)) for _ in range(n)))
    if k == 2:
        return Arr('int', [Int(r.randrange(-I31, I31)) for _ in range(n)])
    if k == 3:
        return Arr('long', [Long(r.randrange(-I63, I63)) for _ in range(n)])
    if k == 4:
        return Arr('boolean', [Bool(r.randrange(2)) for _ in range(n)])
    if k == 5:
        return Arr('short', [Short(r.randrange(-32768, 32768)) for _ in range(n)])
    if k == 6:
        return Arr('String', [Str(r.choice(['a', '', 'bc, d', '[x]'])) if r.random() < .8 else Null() for _ in range(n)])
    if k == 7:
        return Arr('double', [Double(r.choice([0.5, -1.25, 1e10, 0.0])) for _ in range(n)])
    return Arr('Object', [r.choice([Int(3), Str('q'), Null(), Bool(1)]) for _ in range(n)])


def long_texts(r):
    """Texts and arrays far longer than usual."""
    out = []
    for n in (1001, 1025, 2049, 4097, 9000):
        for a in (() if n > 5000 else (Arr('int', [Int(r.randrange(-99, 99)) for _ in range(n)]), Arr('Object', [r.choice([Int(3), Str('q'), Null(), Bool(1)]) for _ in range(n)]),
                  Arr('String', [Str(r.choice(['a', '', 'bc'])) for _ in range(n)]), Arr('boolean', [Bool(r.randrange(2)) for _ in range(n)]),
                  Arr('long', [Long(r.randrange(9)) for _ in range(n)]), Arr('short', [Short(r.randrange(9)) for _ in range(n)]))) + (
                  ByteArr([r.randrange(256) for _ in range(n)]), CharArr(''.join(chr(r.randrange(32, 127)) for _ in range(n))),
                  Str(rtext(r, n), cs=r.choice(CS)), Str([r.randrange(97, 123) for _ in range(n)], cs=r.choice(CS))):
            f = r.choice(['%s', '%S', '%.' + str(n - 1) + 's', '%-9500s|', '%.4096S', '%s'])
            out.append(case(*surround(r, f, [a])))
            if a['t'] == 'arr' and a.get('el') in ('Object', 'String'):
                out.append(case('%s', [a]))
    return out


def texts(r, n):
    out = long_texts(r)
    for w in WORDS:
        for f in ('%s', '%S', '%.1s', '%.2S', '%.0s', '%10s', '%-10S', '%5.3s', '%c'):
            for cs in CS:
                out.append(case('<' + f + '>', [Str(w, cs=cs)]))
    for c in list(range(0, 65536, 977)) + list(range(0, 260)) + [0xd800, 0xdc00, 0xffff]:
        out.append(case(r.choice(['%c', '%3c', '%-3c|', '%s', '%S']), [Char(c, prim=r.randrange(2))]))
    for n_ in (0, 1, 2, 3, 4, 5, 6, 48, 49, 56, 57, 58, 60, 75, 76, 77, 100, 255, 300):
        for f in ('%s', '%S', '%.3s', '%9s'):
            out.append(case(f, [ByteArr([(37 * i + 250) % 256 for i in range(n_)])]))
    for _ in range(n):
        k = r.randrange(12)
        if k < 5:
            a = Str(rtext(r), cs=r.choice(CS))
        elif k == 5:
            a = r.choice([Null(), Null(how='typed', nt='str'), Null(how='typed', nt='int'), Obj('obj #1'), Obj('été'), Obj('')])
        elif k == 6:
            a = rarr(r)
        elif k == 7:
            a = r.choice([Int(r.randrange(-I31, I31)), Long(-I63), BigInt(-(10 ** 30)), Bool(r.randrange(2)), Byte(-128), Short(32767)])
        elif k == 8:
            a = r.choice([BigDec(12345, 2), BigDec(1, -5), Double(1e10), Double(0.1), Float(0.5), Double(math.nan), Double(-math.inf)])
        elif k == 9:
            a = r.choice([Int(65), Int(-1), Int(65536 + 97), Long(2 ** 40 + 66), Byte(-1), Double(97.5), Str('xyz'), Str(''), BigInt(10 ** 20), Char(r.randrange(65536)), Bool(1), BigDec(975, 1), Num(120)])
            f = '%' + rflags(r) + rwidth(r) + 'c'
            out.append(case(*surround(r, f, [a])))
            continue
        elif k == 10:   # upper-case versions of other conversions
            c = r.choice('XEGAFT')
            a = {'X': Long(r.getrandbits(60)), 'E': Double(rdouble(r)), 'G': Double(rdouble(r)), 'A': Double(rdouble(r)),
                 'F': Double(r.choice([math.nan, math.inf, -math.inf, 1.5])), 'T': DT('odt', 2024, r.randrange(1, 13), 5, 13, 1, 2, 0, 3600)}[c]
            out.append(case(*surround(r, '%' + rflags(r) + rwidth(r) + c + r.choice(["{MMM 'of' EEEE}", "{d 'x'}", '']) if c == 'T' else '%' + rflags(r) + rwidth(r) + c, *[[a]])))
            continue
        else:
            a = Str(r.choice(WORDS), cs=r.choice(CS), how='typed')
        f = '%' + rflags(r) + rwidth(r, True) + r.choice(['', '', '.', '.0', '.1', '.2', '.3', '.7', '.30', '.100']) + r.choice('sS')
        if r.random() < .01:
            f = '%' + rflags(r) + big_field(r) + r.choice('sSc')
        out.append(case(*surround(r, f, [a])))
    return out


# ------------------------------------------------------------------ layout
def layout(r, n):
    """Width, flags and sign against every conversion."""
    out = []
    small = {'d': [Int(0), Int(7), Int(-7), Long(-12345)], 'i': [Byte(-1)], 'u': [Int(42), Byte(-1)], 'o': [Int(0), Int(8)], 'x': [Int(0), Int(255)],
             'X': [Long(-1)], 'f': [Double(1.5), Double(-0.0), Double(math.nan), Double(math.inf), Double(-math.inf), BigDec(-25, 1), BigDec(0, 3), Float(-2.0)],
             'e': [Double(-12.5), Double(0.0), BigInt(-7)], 'g': [Double(100.0), Double(-1e-9), Double(-0.0), BigDec(5, 1)],
             'a': [Double(1.0), Double(-2.5), Double(math.nan)], 'A': [Double(-math.inf), Double(0.75)], 'c': [Char('x')], 's': [Str('ab'), Null(), Str('')],
             'S': [Str('long text')], 't': [DT('ld', 2024, 2, 29)], 'T': [DT('ld', 999, 12, 1)], 'p': [Null(), Str('s')], 'F': [Double(math.nan), Double(2.0)], 'E': [Double(5e-5)], 'G': [Double(5e-5)]}
    for c, args in small.items():
        for fl in ALLFLAGS:
            for w in ('', '1', '4', '9', '17'):
                ps = ['', '.0', '.2'] if c not in 'tTpc' else ['']
                for p in ps:
                    if w == '1' and r.random() < .5:
                        continue
                    a = r.choice(args)
                    out.append(case('%' + fl + w + p + c, [a]))
    for _ in range(n):
        c = r.choice('diuoxXfFeEgGaAcsSp')
        a = rarg_for(r, c)
        w = r.choice(['*', str(r.randrange(0, 45)), str(r.choice([63, 64, 65, 100, 127, 128, 255, 256])), big_field(r) if r.random() < .2 else '16'])
        args = []
        if w == '*':
            args.append(Int(r.randrange(-45, 46)))
        p = rprec(r)
        if r.random() < .1:
            p = '.*'
            args.append(Int(r.randrange(-5, 20)))
        out.append(case(*surround(r, '%' + rflags(r) + w + p + c, args + [a])))
    return out


def rarg_for(r, c):
    if c in INTS:
        t = r.choice(list(MK))
        b = BOUND.get(t, 100)
        v = r.choice([1, -1]) * r.getrandbits(r.randrange(1, b + 1))
        if r.random() < .2:
            v = 0
        return MK[t](v)
    if c in FLOATS:
        k = r.random()
        if k < .2:
            return Double(r.choice([math.nan, math.inf, -math.inf, 0.0, -0.0]), prim=r.randrange(2))
        if k < .35 and c not in 'aA':
            return rbigdec(r)
        if k < .4 and c not in 'aA':
            return BigInt(r.choice([1, -1]) * r.getrandbits(80))
        return darg(r, decimalish(r) % 1e12 * r.choice([1, -1]))
    if c == 'c':
        return r.choice([Char(r.randrange(65536)), Int(r.randrange(32, 127)), Str('qrs')])
    if c in 'sS':
        return r.choice([Str(rtext(r)), Null(), Int(r.randrange(1000)), Str(r.choice(WORDS))])
    if c in 'tT' and r.random() < .9:
        return rmoment(r)
    return r.choice([Str('p'), Null(), Obj('o'), Int(5), Long(6)])


# ------------------------------------------------------------------ conversions matrix
def every_arg(r):
    """One argument of every type, boundary-biased."""
    out = []
    for t in ('byte', 'short', 'int', 'long', 'bigint'):
        vs = int_values(t, r, 3)
        out += [MK[t](v, prim=(r.randrange(2) if t != 'bigint' else 0)) for v in r.sample(vs, 6)] + [MK[t](vs[0]), MK[t](vs[-1]), MK[t](65)]
    out += [Bool(0), Bool(1, prim=1), Char(0), Char(65535), Char('7'), Char(0xd800)]
    for x in (0.0, -0.0, 0.5, -0.5, 0.4999999999999999, 1.5, 2.5, -1.5, -2.5, 2147483647.0, 2147483647.5, 2147483648.0, -2147483648.0, -2147483649.0, 9.223372036854775e18, 9.223372036854775807e18, -9.223372036854775808e18, 1e19, -1e19, 1e300, -1e300, math.nan, math.inf, -math.inf, 4.9e-324, 97.0, 3.99, -3.99):
        out.append(Double(x, prim=r.randrange(2)))
        if x in (0.0, 0.5, -0.5, 1.5, 2.5, -2.5, 2147483648.0, -2147483648.0, 97.0, math.inf, -math.inf) or x != x:
            out.append(Float(x))
    out += [Float(3.99), Float(1e30), Float(-1e30), Float(16777217.0), Float(2147483520.0)]
    for u, sc in ((0, 0), (0, 5), (15, 1), (-15, 1), (199, 2), (-199, 2), (2 ** 63, 0), (2 ** 70 * 10 + 7, 1), (1, 30), (12, -3), (970, 1), (-(2 ** 31), 0), (2 ** 32 + 5, 0)):
        out.append(BigDec(u, sc))
    for s in ('0', '7', '-7', '+7', '007', '2147483647', '2147483648', '-2147483648', '-2147483649', '9223372036854775807', '9223372036854775808', '-9223372036854775808', '1.5', '-1.5e3', '1e400', '', ' ', ' 12 ', 'abc', 'NaN', 'Infinity', '-Infinity', '+', '-', '0x10', '010', '08', '-010', '+010', '#10', '0X1F', '-0x8', '0b1', '00', '1_000', '12d', '.5', '5.', '.', '1e', '1e5', 'e5', 'x', '1,5', '-0', '-0.0', '4.9e-324'):
        out.append(Str(s, cs=r.choice(['String', 'sb', 'chars', 'buf'])))
    out += [Null(), Null(how='typed', nt='int'), Null(how='typed', nt='double'), Null(how='typed', nt='bigint'), Null(how='typed', nt='str'), Obj('object'), Obj('12')]
    out += [Num(5), Num(-7, i=9, d=2.5), Num(2 ** 40, i=3, d=-0.0), Num(12, cls='AtomicLong'), Num(-3, cls='AtomicInteger')]
    out += [Date(0), Date(1), Date(-1), Date(1700000000123), Date(-1500), Date(86400000, cls='sqlDate'), Date(3600000, cls='sqlTime'), Date(1234567890123, cls='sqlTimestamp', ns=456), Cal(1700000000999, 'UTC'), Cal(-1, 'Asia/Tokyo')]
    out += [Inst(0), Inst(1700000000, 123456789), Inst(-1, 500000000), Inst(-1, 999999999), Inst(4294967295, 1), DT('odt', 2024, 2, 29, 23, 59, 59, 999999999, 19800), DT('odt', 1969, 12, 31, 23, 59, 59, 1, 0), DT('zdt', 1970, 1, 1, 0, 0, 0, 0, -3600), DT('zdt', 2000, 6, 15, 12, 30, 0, 5, 7200), DT('ldt', 2024, 5, 6, 7, 8, 9), DT('ld', 2024, 5, 6), DT('lt', h=7, mi=8, s=9)]
    for v in (2 ** 63 // 1000, 2 ** 63 // 1000 + 1, 31556889864403199):
        for ns in (0, 807000000, 807999999, 808000000, 999999999):
            out += [Inst(v, ns)]
        out += [Inst(-v), Inst(-v, 192000000), Inst(-v - 1, 192000000), Inst(-v - 1, 191999999)]
    out += [ByteArr([1, 2, 255]), CharArr('xy'), Arr('int', [Int(1), Int(2)]), Arr('String', [Str('a'), Null()])]
    return out


def numeral(r):
    """A text that Double.parseDouble may read: long, halfway between two doubles, hexadecimal."""
    k = r.randrange(7)
    if k == 6:        # a plain decimal with about as many digits as a double has
        d = ''.join(r.choice('0123456789') for _ in range(r.randrange(14, 21)))
        i = r.randrange(1, len(d))
        s = d[:i] + '.' + d[i:] + r.choice(['', '', 'e%d' % r.randrange(-30, 30)])
    elif k == 0:
        s = '%s.%s' % (''.join(r.choice('0123456789') for _ in range(r.randrange(0, 25))), ''.join(r.choice('0123456789') for _ in range(r.randrange(0, 30))))
        if r.random() < .5:
            s += r.choice('eE') + r.choice(['', '+', '-']) + str(r.randrange(0, 330))
    elif k == 1:      # exactly between two doubles, or just beside
        x = rdouble(r)
        if x != x or math.isinf(x) or abs(x) > 1e200 or abs(x) < 1e-200:
            x = 1.0 + r.getrandbits(50) * 2.0 ** -52
        x = abs(x)
        f = (Fraction(x) + Fraction(ulp_neighbours(x)[-1])) / 2
        e = 0
        while f.denominator != 1:
            f *= 10
            e += 1
        d = str(f.numerator)
        if r.random() < .5:
            d, e = d + r.choice(['0' * 9 + '1', '1']), e
            e += len(d) - len(str(f.numerator))
        s = '%se-%d' % (d, e)
    elif k == 2:
        s = '0' + r.choice('xX') + ''.join(r.choice('0123456789abcdefABCDEF') for _ in range(r.randrange(0, 18)))
        if r.random() < .6:
            s += '.' + ''.join(r.choice('0123456789abcdefABCDEF') for _ in range(r.randrange(0, 18)))
        if r.random() < .9:
            s += r.choice('pP') + r.choice(['', '+', '-']) + str(r.choice([0, 1, 3, 10, 52, 1022, 1023, 1024, 1074, 1075, r.randrange(1100)]))
    elif k == 3:
        s = repr(abs(rdouble(r)))
    elif k == 4:
        s = str(r.getrandbits(r.randrange(1, 130)))
    else:
        s = r.choice(['Infinity', 'NaN', 'infinity', 'nan', 'INF', '1e', '0x', '0x1', '0xp1', '0x.p1', '0x.8p1', '1.2.3', '1e+', '1e-5000', '1e4000', '0e999', '1e1.5', '--1', '1 2'])
    return r.choice(['', '', '', '-', '+']) + s + r.choice(['', '', '', '', 'f', 'D', ' ', '\t', 'L', '\u00a0'])


def matrix(r, n):
    """Every argument type against every conversion and star position."""
    out = []
    args = every_arg(r)
    for a in args:
        for c in 'diuoxXfFeEgGaAcsSptTn%':
            out.append(case('ok%d,%' + r.choice(['', '', '', '12', '-14']) + ('{uuuu}' if 0 else '') + c + '.', [Int(1), dict(a)]))
        out.append(case('<%*d|%s>', [dict(a), Int(5), Str('x')]))
        out.append(case('<%.*f|%s>', [dict(a), Double(0.123456789), Str('x')]))
        out.append(case('<%-*.*s>', [Int(9), dict(a), Str('abcdefgh')]))
        out.append(case("%t{uuuu-MM-dd}|", [dict(a)]))
    for _ in range(n):
        a = dict(r.choice(every_arg(r)) if r.random() < .05 else r.choice(args))
        if r.random() < .4:
            k = r.randrange(5)
            if k == 4:
                a = Str(numeral(r), cs=r.choice(['String', 'String', 'sb']))
            elif k == 0:
                a = Str(('-' if r.random() < .3 else '') + str(r.getrandbits(r.choice([8, 30, 31, 32, 62, 63, 64, 70]))) + r.choice(['', '', '.5', 'e3', 'f', '.', ' ']))
            elif k == 1:
                a = Double(r.choice([1, -1]) * (r.choice([2 ** 31, 2 ** 32, 2 ** 63, 2 ** 53, 0, 100]) + r.uniform(-3, 3)))
            elif k == 2:
                a = Long(r.choice([1, -1]) * r.getrandbits(63))
            else:
                a = Date(r.choice([1, -1]) * r.getrandbits(r.randrange(1, 47)))
        c = r.choice('diuoxXfFeEgGaAcsStT')
        out.append(case(*surround(r, '%' + rflags(r) + rwidth(r) + (rprec(r) if c not in 'tT' else '') + c, [a])))
    return [c for c in out if datable(c)]


def numerals(r, n):
    """Texts read as numbers, shown so that neighbouring doubles differ."""
    out = []
    for _ in range(n):
        c = r.choice(['a', 'a', '.17e', '.18g', 'g', 'e', 'f', 'd', 'x'])
        a = Str(numeral(r), cs=r.choice(['String', 'String', 'sb', 'chars']))
        out.append(case('<%' + c + '>', [a]) if r.random() < .9 else case('<%*d>', [a, Int(1)]))
    return out


def datable(c):
    """Dates outside the years -4000000..4000000 are out of the specification's scope."""
    if any(ord(u) in c['f'] for u in FLOATS):
        for a in c['a']:     # seconds that are no double are rounded twice
            if a['t'] == 'inst' and sum(d * 10000 ** i for i, d in enumerate(a['m'])) > 2 ** 53:
                return False
    if 116 not in c['f'] and 84 not in c['f']:
        return True
    for a in c['a']:
        if a['t'] in ('long', 'bigint', 'num', 'date', 'cal', 'inst'):
            v = sum(d * 10000 ** i for i, d in enumerate(a['m']))
            if a['neg'] and a['t'] in ('long', 'num', 'bigint') or a['t'] == 'bigint' and v >= 2 ** 63:
                continue          # refused
            if v > (12 * 10 ** 13 if a['t'] == 'inst' else 12 * 10 ** 16):
                return False
    return True


# ------------------------------------------------------------------ grammar
def rdirective(r):
    f = '%' + rflags(r)
    f += r.choice(['', '', str(r.randrange(0, 30)), '*', str(r.choice([2147483650, 4294967296, 4294967300, 18446744073709551617, 65535, 65536, 65537, 99999, 2147483647, 2147483648, 99999999999]))
                   if r.random() < .1 else '7'])
    f += r.choice(['', '', '.', '.%d' % r.randrange(0, 12), '.*', '.65537' if r.random() < .1 else '.2', '.' + '0' * r.choice([1, 2, 5, 9, 10, 11, 20]) + str(r.choice([0, 3, 7, 65537])) if r.random() < .15 else '.1'])
    f += r.choice('diuoxXfFeEgGaAcsSpntT%')
    if f[-1] in 'tT' and r.random() < .6:
        f += r.choice(['{uuuu}', "{HH''mm}", "{'}'}", "{'a{b'dd}", "{''}", "{'o''clock'}", '{yyyy-MM-dd}', '{}', '{uuuu', "{'x}", '{q}', '{uuuu}}', '{ }', "{''''}", "{'}''}'}"])
    return f


MUT = list('%%%-+ #0123456789..**diuoxXfFeEgGaAcsSpntT{}\'"hlLzjqvbB$,(<٣５é\x00\n') + ['\ud83d', '\ude00', '65536', '65537', '00', '--', '%%', '{u}']


def twins(r, cases, n):
    """Formats that differ in two characters but have one hash code, one after the other."""
    out = []
    for _ in range(n):
        c = r.choice(cases)
        i = r.randrange(len(c['f']) + 1)
        for t in r.sample(['Aa', 'BB'], 2):
            out.append(dict(c, f=c['f'][:i] + U(t) + c['f'][i:], a=[dict(x) for x in c['a']]))
    return [c for c in out if modelled_patterns(c['f'])]


def grammar(r, n):
    out = []
    std = [Int(3), Int(2), Int(77), Int(1), Int(65), Int(0), Int(12), Int(5), Int(9)]
    for c in [chr(x) for x in range(0, 0x180)] + ['٠', '٣', '０', '％', '\ud800', ' ', 'İ', 'K']:
        for f in ('%' + c, '%5' + c + 'd', '%-' + c + 'd', '%.' + c + 'd', '%*' + c, '%.2' + c + 'd', 'a' + c + 'b', '%d' + c, '%t' + c, "%t{'" + c + "'}"):
            if r.random() < .5:
                out.append(case(f, std))
    for _ in range(n):
        k = r.random()
        f = ''
        for _ in range(r.randrange(1, 5)):
            f += r.choice(['', '', 'x', '%%', ' - ', '{', '}', "'", 'abc', 'é']) + rdirective(r)
        f += r.choice(['', '', 'end', '%', '%%'] if r.random() < .2 else ['', 'z'])
        if k < .6:
            for _ in range(r.choice([1, 1, 2, 3])):
                i = r.randrange(len(f) + 1)
                m = r.randrange(3)
                if m == 0 and f:
                    f = f[:i] + f[i + 1:]
                elif m == 1:
                    f = f[:i] + r.choice(MUT) + f[i:]
                else:
                    j = r.randrange(len(f) + 1)
                    i, j = min(i, j), max(i, j)
                    f = f[:j] + f[i:j] + f[j:]
        elif k < .7:
            f = ''.join(r.choice(MUT) for _ in range(r.randrange(1, 12)))
        out.append(case(f, [dict(x) for x in std] * 2 if not ('t' in f or 'T' in f) else [dict(r.choice([Int(3), Int(12), Int(1)])) for _ in range(14)]))
    return [c for c in out if modelled_patterns(c['f'])] + twins(r, out, n // 40)


UNMODELLED = set(map(ord, 'qYwWecFzpBv'))


def modelled_patterns(f):
    """Date patterns outside the modelled letters are java.time's business, not the grammar's."""
    for i in range(1, len(f)):
        if f[i] == 123 and f[i - 1] in (116, 84):
            j, inq = i + 1, False
            while j < len(f) and (inq or f[j] != 125):
                inq ^= f[j] == 39
                if not inq and f[j] in UNMODELLED:
                    return False
                j += 1
    return True


def long_formats(r, reps):
    """Very long format strings: literal runs, escapes and many directives."""
    out = []
    for unit in ('ab', '%%', 'x%%'):
        out.append(case(unit, [], rep=reps * 4))
    for unit in ('%d', ' %s,', '%%%x'):
        out.append(case(unit, [Int(i % 97) for i in range(reps)], rep=reps))
    out.append(case('%d-', [Int(1)] * (reps - 1), rep=reps))      # the last argument is missing
    out.append(case(U('%s ' * (reps // 2) + '%y'), [Int(1)] * (reps // 2)))
    # places beyond the range of a short and of a char
    for n in (32760, 65530, 66000):
        lit = 'literal ' * (n // 8)
        out.append(case(U(lit + '<%5d|%-6s%%>' + lit[:40] + '%t{uuuu}end'), [Int(-7), Str('xy'), DT('ld', 2024, 2, 29)]))
        out.append(case(U(lit + '%d%-y'), [Int(1)]))
        out.append(case(U(lit + '%t{uuuu'), [DT('ld', 2024, 2, 29)]))
    out.append(case(U('%s%%' * 16500 + '[%x]'), [Int(i % 89) for i in range(16501)]))
    return out


def many_pieces(r, sizes):
    """Calls of many pieces, the ones at round places long."""
    out = []
    for n in sizes:
        long_at = {2 ** k + d for k in range(6, 14) for d in (-1, 0)} | {1000, 5000, 10000, n}
        for unit, skip in (('%s', 1), ('-%s', 2)):
            m = n // skip
            a = [Str(('piece %d ' % i) * r.choice([20, 150, 1100])) if i * skip in long_at or i * skip - 1 in long_at else Str(r.choice(['', 'a', 'bc'])) for i in range(1, m + 1)]
            out.append(case(U(unit * m), a))
    return out


def many_args(r, sizes):
    """Argument lists of round lengths: exactly enough, one too few, some left over."""
    out = []
    for n in sizes:
        for unit, k in (('%d,', 1), ('%*d', 2), ('%-*.*s', 3)):
            m, rest = divmod(n, k)
            a = [Int(i % 7 + 1) for i in range(n)]
            tail = {0: '', 1: '%x', 2: '%*x'}[rest]
            f = unit * m + tail
            out.append(case(U(f), a))
            out.append(case(U(f + '%c'), a))
            if k == 1 or r.random() < .4:
                out.append(case(U(unit * max(0, m - r.choice([1, 2, 30]))), a))
    return out


# ------------------------------------------------------------------ argument consumption
def consume(r, n):
    out = []
    items = ['%d', '%s', '%*d', '%.*f', '%*.*f', '%-*s', '%%', 'lit', '%n', '%5%', '%c', '%x', '%-*.*s|', '%0*d', '%*n', '%.*n', '%p']
    for _ in range(n):
        fs = [r.choice(items) for _ in range(r.randrange(1, 7))]
        f = r.choice(['', ' ']).join(fs)
        need = sum(x.count('*') + (0 if x in ('%%', 'lit') else 1) for x in fs)
        a = []
        for x in fs:
            for _ in range(x.count('*')):
                a.append(r.choice([Int(r.randrange(-12, 13)), Int(r.randrange(-12, 13)), Byte(r.randrange(-5, 6)), Long(r.randrange(-9, 10)), Short(4), Str(str(r.randrange(-6, 7))),
                                   Double(r.uniform(-5, 5)), BigInt(r.randrange(-6, 6)), BigDec(r.randrange(-60, 60), 1), Bool(r.randrange(2)), Char(r.randrange(1, 9)), Float(2.5), Num(3)]
                                  + ([Null(), Str('x'), Obj('3'), Int(70000), Int(-I31), Long(2 ** 33)] if r.random() < .15 else [])))
            if x in ('%%', 'lit'):
                continue
            if 'f' in x:
                a.append(r.choice([Double(r.uniform(-9, 9)), Int(r.randrange(-9, 9)), BigDec(r.randrange(-999, 999), 2)]))
            elif 's' in x or 'n' in x or '5%' in x:
                a.append(r.choice([Str('str%d' % r.randrange(9)), Int(r.randrange(9)), Null()]))
            else:
                a.append(Int(r.randrange(33, 100)) if r.random() < .93 else Null())
        k = r.random()
        if k < .25 and a:
            a = a[:r.randrange(len(a))]
        elif k < .4:
            a += [Int(i) for i in range(r.randrange(1, 4))]
        elif k < .5 and a:      # one missing in the middle shifts everything
            i = r.randrange(len(a))
            a = a[:i] + a[i + 1:]
        out.append(case(f, a))
    return out


# ------------------------------------------------------------------ dates
ZONES = ['UTC', 'Asia/Tokyo', 'America/New_York', 'Asia/Kathmandu', 'Australia/Lord_Howe', 'Pacific/Apia', 'Europe/Berlin', 'America/St_Johns']
PATS = ['uuuu-MM-dd', 'yyyy/MM/dd HH:mm:ss', 'HH:mm:ss.SSS', "EEEE, d MMMM uuuu", "EEE d MMM yy", "h:mm a", "KK kk hh", "D DDD", "uuuuMMdd'T'HHmmssX", "HH:mm:ssXXX", "xxx xx x", "Z ZZZZ ZZZZZ", "SSSSSSSSS", "n", "A", "'it''s' dd", "''HH''", "'}' HH '{'", "[HH:mm]dd", "dd[ HH:mm][ XXX]", "MMMMM EEEEE", "S", "SS", "y", "uuuuu", "XXXXX", "XXXX", "X", "XX", "'a''b'", "d.M.", "HH 'o''clock' a", "'{}'uuuu", "'%d' mm", "mm%ss", "dd,EEE", "'quoted text'", "m s", "'' dd ''''", 'VV', "uuuu-MM-dd'T'HH:mm:ss.SSSXXX'['VV']'", 'G yyyy', 'O OOOO', 'QQQQ uuuu', '[VV]HH', 'N g']


def rmoment(r, tz=True):
    k = r.randrange(13)
    y, mo = r.choice([r.randrange(1, 10000), r.randrange(1960, 2040), 2000, 1900, 2024, r.randrange(-20000, 20000), r.choice([0, -1, 9999, 10000, -9999, -10000, 99999, 100000, r.randrange(-4000000, 4000000)])]), r.randrange(1, 13)
    d = r.randrange(1, 29) if r.random() < .7 else {2: 28, 4: 30, 6: 30, 9: 30, 11: 30}.get(mo, 31)
    h, mi, s = r.choice([0, 11, 12, 13, 23, r.randrange(24)]), r.choice([0, 59, r.randrange(60)]), r.choice([0, 59, r.randrange(60)])
    ns = r.choice([0, 0, 1, 1000, 999999999, 120000000, 123456789, 5000000, r.randrange(10 ** 9)])
    off = r.choice([0, 3600, -3600, 19800, 20700, -12600, 64800, -64800, 1800, -1800, 3661, -45 * 60, 5 * 3600 + 30])
    if k == 1 and r.random() < .6:
        return DT('zdt', y, mo, d, h, mi, s, ns, off, zone=r.choice(ZONES))
    if k < 5:
        return DT(['odt', 'zdt', 'ldt', 'ld', 'lt'][k], y, mo, d, h, mi, s, ns, off)
    if k == 5:
        return Inst(r.choice([r.randrange(-10 ** 9, 5 * 10 ** 9), r.randrange(-10 ** 9, 5 * 10 ** 9), r.randrange(-10 ** r.randrange(1, 15), 10 ** r.randrange(1, 15))]), ns)
    if k == 6:
        return Date(r.choice([r.randrange(-10 ** 12, 4 * 10 ** 12), r.randrange(-10 ** r.randrange(1, 18), 10 ** r.randrange(1, 18))]), cls=r.choice(['Date', 'sqlDate', 'sqlTime', 'sqlTimestamp']))
    if k == 7:
        return Cal(r.randrange(-10 ** 12, 4 * 10 ** 12), r.choice(ZONES))
    if k == 8:
        return Int(r.choice([0, 1, -1, 2 ** 31 - 1, -2 ** 31, r.randrange(-I31, I31)]), prim=r.randrange(2))
    if k == 9:
        return Long(r.choice([0, 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 4294967295, 4294967296, 4294967297, r.randrange(0, 2 ** 33), r.randrange(0, 2 * 10 ** 14), r.randrange(0, 10 ** r.randrange(10, 18)), -1, -10 ** 12]), prim=r.randrange(2))
    if k == 10:
        return BigInt(r.choice([0, 2 ** 32 - 1, 2 ** 32, r.randrange(0, 10 ** 13), -5]))
    if k == 11:
        return Num(r.randrange(0, 10 ** 13), cls='AtomicLong')
    return r.choice([Null(), Str('2024-01-01'), Double(5.0), Obj('x'), Bool(1), Char('c'), Byte(4), BigDec(5, 0), ByteArr([1]), Float(2.0), Short(3)])


def rpattern(r):
    if r.random() < .5:
        return r.choice(PATS)
    toks = []
    for _ in range(r.randrange(1, 6)):
        k = r.random()
        if k < .6:
            toks.append(r.choice(['uuuu', 'yyyy', 'yy', 'u', 'M', 'MM', 'MMM', 'MMMM', 'd', 'dd', 'H', 'HH', 'hh', 'h', 'K', 'k', 'kk', 'm', 'mm', 's', 'ss', 'S', 'SSS', 'SSSSSS', 'SSSSSSSSS', 'a', 'E', 'EEEE', 'D', 'DDD', 'X', 'XXX', 'xxx', 'xx', 'Z', 'ZZZZ', 'ZZZZZ', 'n', 'A', 'G', 'GGGG', 'Q', 'QQQ', 'QQQQ', 'L', 'LLL', 'VV', 'O', 'OOOO', 'N', 'nnn', 'AAAAAAAAAA', 'g', 'uuu', 'uuuuuu', 'yyy', 'y', 'DD']))
        elif k < .8:
            toks.append(r.choice(['-', '/', ':', ' ', '.', ',', '_', '年', '%', '(', ')', '!']))
        else:
            toks.append(r.choice(["'text'", "''", "'}'", "'{'", "'it''s'", "'%d'", "' '", "'T'", "'a}b{c'"]))
        # adjacent letters of the same kind would merge into an illegal run
        if len(toks) > 1 and toks[-1][0].isalpha() and toks[-2][-1] == toks[-1][0]:
            toks.insert(-1, '-')
        if len(toks) > 1 and toks[-1][0] == "'" and toks[-2][-1] == "'":
            toks.insert(-1, '-')
    return ''.join(toks)


def dates(r, n):
    out = []
    for p in PATS:
        for a in (DT('odt', 2024, 2, 29, 0, 5, 9, 7000000, 3600), DT('ldt', 999, 12, 31, 23, 59, 59, 999999999), DT('ld', 1, 1, 1), DT('lt', h=12), Inst(1700000000, 5), Date(1700000000123), Cal(0, 'Asia/Tokyo'), Int(1700000000), Long(1700000000123), DT('zdt', 9999, 12, 31, 12, 0, 0, 0, -18000)):
            out.append(case('%' + r.choice(['', '30', '-30', '05']) + r.choice('tT') + '{' + p + '}', [dict(a)], tz=r.choice(ZONES)))
    for a in (DT('odt', 2024, 2, 29, 0, 5, 9, 7000000, 3600), DT('ldt', 999, 12, 31, 23, 59, 0, 0), DT('ld', 1, 1, 1), DT('lt', h=12), Inst(0), Inst(-1, 1), Date(0), Cal(0), Int(0), Long(2 ** 32), Long(2 ** 32 - 1), Int(-1)):
        for f in ('%t', '%T', '%40t', '%-40T|', '%t%t'):
            for z in ZONES:
                out.append(case(f, [dict(a), dict(a)], tz=z))
    for v in (2 ** 63, 2 ** 64, 2 ** 64 + 5, 2 ** 64 - 1, 2 ** 70 + 1700000000, 10 ** 30, -1, -(2 ** 63), -(2 ** 63) - 1, -(2 ** 64) + 7, -(10 ** 25)):
        for f in ('%t', 'x%T{uuuu}', '%30t|'):
            out.append(case(f, [BigInt(v)]))
    for v in (-1, -(2 ** 31), -(2 ** 63)):
        out.append(case('%t', [Long(v)]))
    for _ in range(n):
        a = rmoment(r)
        k = r.random()
        if k < .3:
            f = '%' + r.choice(['', '25', '-33', '7']) + r.choice('tT')
        else:
            f = '%' + r.choice(['', '', '35', '-40', '*']) + r.choice('tT') + '{' + rpattern(r) + '}'
        args = ([Int(r.randrange(-40, 40))] if '*' in f else []) + [a]
        if r.random() < .25:
            f = '[' + f + '] %d ' + r.choice(['%t', '%t{HH:mm}', '%s'])
            args += [Int(3), DT('odt', 2001, 2, 3, 4, 5, 6, 0, 0)]
        out.append(case(f, args, tz=r.choice(ZONES)))
    for p in ("'%s'", "'%s'uuuu", "HH'%s'", "dd''MM '%s'", "EEE '%s}'"):
        for a in (Inst(1700000000, 5), DT('odt', 2024, 2, 29, 0, 5, 9, 7000000, 3600)):
            for t in ('Aa', 'BB', 'AaAa', 'BBBB', 'AaBB'):
                out.append(case('%t{' + p % t + '}', [dict(a)]))
    for k in (15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 257, 1000, 1024):
        a = r.choice([Inst(1700000000, 5), DT('odt', 2024, 2, 29, 0, 5, 9, 7000000, 3600)])
        for p in ("'" + 'xy}{' * (k // 4) + "'uuuu", "uuuu'" + 'q' * k + "'MM", "dd" + "''" * (k // 2) + "HH", ('uu-' * k)[:k - k % 3] + 'd', "'" + "a''" * (k // 3) + "'s"):
            out.append(case('<%t{' + p + '}%d>', [dict(a), Int(k)]))
    return out + twins(r, out, n // 40)


# ------------------------------------------------------------------ wide fields
WIDE = [n + d for n in (4096, 8192, 10000, 16384, 32768) for d in (-1, 0, 1)] + [20000, 40000, 65535, 65536]


def wide(convs):
    """Fields and paddings of round lengths between the ordinary ones and the limit."""
    def gen(r, n):
        out = []
        for i in range(n):
            c = convs[i % len(convs)]
            a = rarg_for(r, c)
            if c == 's':
                a = Str('some text')
            v = WIDE[(i // len(convs) + r.randrange(3)) % len(WIDE)]
            k = r.randrange(4)
            if k == 0:            # the padding, not the field, has the round length
                a = {'s': Str('abc'), 'c': Char('x'), 'p': Null(), 't': DT('ld', 2024, 2, 29)}.get(c.lower(), Int(r.choice([7, -7, 1234])))
                l = {'s': 3, 'c': 1, 'p': 4, 't': 10}.get(c.lower(), r.randrange(1, 13))
                out.append(case('[%' + r.choice(['', '-', '0', '+', '#0']) + str(min(v + l, 65536)) + c + ']', [a]))
            elif k == 1 or c in 'cptT':
                out.append(case('[%' + rflags(r) + str(v) + c + ']', [a]))
            elif k == 2:
                out.append(case('[%' + rflags(r) + '.' + str(v) + c + ']', [a]))
            else:
                out.append(case('[%' + rflags(r) + '*.*' + c + ']', [Int(r.choice([v, -v, 20])), Int(v - r.randrange(0, 9)), a]))
        return out
    return gen


# ------------------------------------------------------------------ limits, identity
def limits(r, n):
    out = []
    edge = [0, 1, 255, 65535, 65536, 65537, 65538, 100000, 2 ** 31 - 1, -1, -65535, -65536, -65537, -65538, -(2 ** 31), -(2 ** 31) + 1]
    for v in edge:
        for c in 'ds':
            out.append(case('[%*' + c, [Int(v), Int(5)]))
            out.append(case('[%.*' + c + ']', [Int(v), Int(5)]))
    for v in edge:
        for c in 'xfegacptT':
            a = DT('ld', 2024, 1, 1) if c in 'tT' else Double(1.5) if c in 'fega' else Str('q') if c == 'p' else Int(66)
            if abs(v) < 60000 or abs(v) > 65536 or r.random() < .12:
                out.append(case('[%*' + c, [Int(v), a]))
            if c not in 'tT' and (abs(v) < 60000 or abs(v) > 65536 or r.random() < .12):
                out.append(case('[%.*' + c + ']', [Int(v), dict(a)]))
            if r.random() < .5:
                out.append(case('[%-*.*' + c + ']', [Int(v), Int(r.choice([65537, 3, -65537])), dict(a)]))
    for v in (65535, 65536, 65537, 65540, 70000, 99999, 655360, 655361, 2147483647, 2147483648, 4294967297, 4295032832, 18446744073709551616, 18446744073709617152, '00065536', '00065537', '065536', '000000000000005'):
        for c in 'dsfegxcat':
            if r.random() < .45:
                a = DT('ld', 2024, 1, 1) if c in 'tT' else Double(1.5) if c in 'fega' else Int(66)
                out.append(case('<%1{}{}'.format(v, c) if r.random() < .1 else '<%-{}{}'.format(v, c), [a]))
                out.append(case('<%.{}{}'.format(v, c), [dict(a)]))
    for v in (2 ** 32, 2 ** 32 + 5, -(2 ** 32) + 3, 2 ** 33 + 70000, 65536, 65537):
        for mk in (Long, BigInt):
            out.append(case('%*d', [mk(v), Int(5)]))
            out.append(case('%.*d', [mk(v), Int(5)]))
    for s in ('65536', '65537', '-65536', '-65537', '2147483648'):
        out.append(case('%*d', [Str(s), Int(5)]))
        out.append(case('%.*d', [Str(s), Int(5)]))
    for x in (65536.4, 65536.5, 65535.5, -65536.5, -65536.6, 1e300, -1e300, math.nan):
        out.append(case('%*d', [Double(x), Int(5)]))
        out.append(case('%.*d', [Double(x), Int(5)]))
    for _ in range(n):
        v = r.choice([r.randrange(60000, 72000), r.randrange(65530, 65543), r.randrange(-65543, -65530), r.randrange(65537, 2 ** 31), r.randrange(-2 ** 31, -65537), r.randrange(-300, 300)])
        k = r.randrange(4)
        c = r.choice('dxscfe')
        a = Double(2.5) if c in 'fe' else Int(r.randrange(33, 99))
        if 20000 < abs(v) <= 65536 and r.random() < .7:
            v = r.choice([65537, 65536 + r.randrange(1, 1000), -65537 - r.randrange(1000)])
        if k == 0:
            out.append(case('a%*' + c, [Int(v), a]))
        elif k == 1:
            out.append(case('a%.*' + c, [Int(v), a]))
        elif k == 2 and v >= 0:
            out.append(case('a%%%d%s' % (max(1, v), c), [a]))
        else:
            out.append(case('a%%.%d%s' % (abs(v), c), [a]))
    return out


HOWS = (dict(prim=1), dict(), dict(how='typed'), dict(fresh=1), dict(fresh=1, how='typed'))


def pointers(r, n):
    out = []
    vals = every_arg(r)
    for a in vals:
        for f in ('%p', '%30p', '%-60p|', '%+p', '%#p', '%05p', '%.3p', '% p'):
            out.append(case(f, [dict(a)]))
    for t, vs in (('byte', [0, 1, -128, 127]), ('short', [0, 1, -1, 128]), ('int', [0, 1, -1, 127, 128, 100000]), ('long', [0, 1, -1, 127, 128, 10 ** 12])):
        for v in vs:
            for how in HOWS:
                out.append(case('a%p', [MK[t](v, **how)]))
    for v in (0, 1, 65, 127, 128, 65535):
        for how in HOWS:
            out.append(case('a%p', [Char(v, **how)]))
    for v in (0, 1):
        for how in HOWS:
            out.append(case('a%p', [Bool(v, **how)]))
    for x in (0.0, 1.0, -0.0, math.nan, math.inf, 2.5):
        for how in HOWS:
            out.append(case('a%p', [Double(x, **how)]))
            out.append(case('a%p', [Float(x, **how)]))
    for nt in ('bool', 'char', 'byte', 'short', 'int', 'long', 'float', 'double', 'bigint', 'bigdec', 'str', 'inst', 'null'):
        for f in ('%p', '%8p|', '%-8p|', '%3p'):
            out.append(case(f, [Null(how='typed', nt=nt)]))
    for _ in range(n):
        f, a = '', []
        for _ in range(r.randrange(1, 4)):
            f += '%' + rflags(r) + r.choice(['', '10', '60', '*', str(big_field(r))]) + r.choice(['', '', '.3', '.0']) + 'p' + r.choice(['', ' ', ','])
            if '*' in f and f.count('*') > sum(1 for x in a if x.get('star')):
                a.append(Int(r.randrange(-70, 70), star=1))
            v = dict(r.choice(vals))
            if r.random() < .4:
                v['fresh'] = 1
            a.append(v)
        out.append(case(f, a))
    return out


# ------------------------------------------------------------------ mixtures
def mixed(r, n):
    """Several directives of any kind in one call."""
    out = []
    for _ in range(n):
        f, a = '', []
        for _ in range(r.randrange(1, 5)):
            f += r.choice(['', 'a', '%%', ' -', 'é', '{x}'])
            c = r.choice(ALLSPEC + 'n')
            w = rwidth(r) if r.random() < .85 else '*'
            p = rprec(r) if r.random() < .85 else '.*'
            if w == '*':
                a.append(Int(r.randrange(-30, 30)))
            if p == '.*':
                a.append(Int(r.randrange(-3, 20)))
            f += '%' + rflags(r) + w + p + c
            a.append(rarg_for(r, c) if r.random() < .9 else r.choice([Null(), Str('12'), Double(3.75), Obj('o'), Date(5), Char('7'), Bool(1)]))
        out.append(case(f, a))
    return out


def shared(r, n, lists=10):
    """Few formats, each with several argument lists of the same shape but different values."""
    out = []
    for k in range(n):
        parts, f = [], ''
        for _ in range(r.randrange(1, 4)):
            c = r.choice('diuoxXfFeEgGaAcsStT')
            w = r.choice(['', '*', '*', '9'])
            p = r.choice(['', '.*', '.*', '.4']) if c not in 'tT' else ''
            f += r.choice(['', 'a', '%%']) + '%' + rflags(r) + w + p + c
            if c in 'tT':
                f += r.choice(['', '', '{uuuu-MM-dd}', "{HH:mm:ss.SSS' {'d}", '{D uuuu A}'])
            parts.append((w == '*', p == '.*', c))
        for _ in range(lists):
            a = []
            for w, p, c in parts:
                if w:
                    a.append(Int(r.randrange(-30, 30)))
                if p:
                    a.append(Int(r.randrange(-2, 20)))
                a.append(rarg_for(r, c))
            out.append(case(f, a))
    return out


def number(cases, prefix):
    for i, c in enumerate(cases):
        c['id'] = '%s%d' % (prefix, i)
    return cases
