"""Floats that are hard to write in decimal: those with a midpoint next to them
that is extremely close to a decimal number of 16 or 17 digits.  (Inputs only:
what is right for them the specification says.)"""
import math, struct
from fractions import Fraction


def first(a, m, lo, hi):
    """the least x >= 0 with lo <= a*x mod m <= hi, or None"""
    if lo == 0:
        return 0
    a %= m
    if a == 0:
        return None
    if 2 * a > m:
        return first(m - a, m, m - hi, m - lo)
    c = -(-lo // a)
    if a * c <= hi:
        return c
    # a*x - m*y in [lo, hi]: m*y mod a in [-hi mod a, -lo mod a]
    y = first(m % a, a, (-hi) % a, (-lo) % a)
    return None if y is None else -(-(lo + m * y) // a)


def solutions(a, m, lo, hi, x, end, most):
    """x in [x, end) with a*x mod m in [lo, hi]"""
    out = []
    while len(out) < most:
        off = a * x % m
        l = (lo - off) % m
        r = l + hi - lo
        s = 0 if r >= m else first(a, m, l, r)
        if s is None or x + s >= end:
            break
        x += s
        out.append(x)
        x += 1
    return out


def hard_floats(per, step=1, start=0):
    """bit patterns; about 4 * per for every binary exponent"""
    res = set()
    for q in range(-1074 + start, 972, step):
        mlo, mhi = (1 << 52, 1 << 53) if q > -1074 else (1, 1 << 53)
        lo = Fraction(mlo << q) if q >= 0 else Fraction(mlo, 1 << -q)
        hi = lo * (mhi // mlo)
        e10 = math.floor(math.log10(mlo) + q * math.log10(2))
        for nd in (17, 16):
            for k in range(e10 - nd - 1, e10 - nd + (3 if q > -1074 else 18)):
                p = Fraction(10) ** k
                a, b = max(10 ** (nd - 1), math.ceil(lo / p)), min(10 ** nd, math.floor(hi / p))
                if b - a < 1000:
                    continue
                # d * 10^k = (2m + 1) * 2^(q-1) + a little: d * t mod 2 near 1
                t = p / Fraction(2) ** (q - 1)
                one = t.denominator
                if one == 1:
                    continue
                mod = 2 * one
                w = max(1, mod * per // (b - a) // 2)
                for d in solutions(t.numerator % mod, mod, max(0, one - w), min(mod - 1, one + w), a, b, per * 2):
                    m = (round(d * t) - 1) // 2
                    for mm in (m, m + 1):
                        try:
                            f = math.ldexp(mm, q)
                        except OverflowError:
                            continue
                        if f > 0:
                            res.add(struct.unpack('>Q', struct.pack('>d', f))[0])
    return sorted(res)
