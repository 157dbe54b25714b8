"""Exact reference semantics of the float operations on concrete components.

A float is (S, E, M, A) in the library's normal form: M is 0 or has its top bit at
position Mb, the value is (-1)^S * M * 2^(E-Mb); infinities and NaN have A = 1.
Written from IEEE-754, independently of the circuits.
"""
from fractions import Fraction
from math import isqrt


class Fmt:
    def __init__(self, E, M):
        self.E, self.M = E, M
        self.EMAX = 1 << (E - 1)
        self.ENM = 2 - self.EMAX
        self.EMIN = self.ENM - (M + 1)

    def cls(self, f):
        S, E, M, A = f
        if A:
            return "inf" if M else "nan"
        return "fin" if M else "zero"

    def wf(self, f):
        S, E, M, A = f
        if S not in (0, 1) or A not in (0, 1):
            return False
        if A:
            return E == self.EMAX and M in (0, 1 << self.M)
        if M == 0:
            return E == self.EMIN
        if not (self.EMIN < E < self.EMAX and (1 << self.M) <= M < (2 << self.M)):
            return False
        return E >= self.ENM or M % (1 << (self.ENM - E)) == 0

    def value(self, f):
        S, E, M, A = f
        v = Fraction(M) * Fraction(2) ** (E - self.M)
        return -v if S else v

    def round(self, v, zsign=0):
        """RNE of an exact rational; sign of an exact zero given by zsign"""
        s = 1 if v < 0 else 0
        v = abs(v)
        if v == 0:
            return (zsign, self.EMIN, 0, 0)
        e = v.numerator.bit_length() - v.denominator.bit_length()
        while Fraction(2) ** e > v:
            e -= 1
        while Fraction(2) ** (e + 1) <= v:
            e += 1
        q = max(e, self.ENM) - self.M     # exponent of one unit in the last place
        x = v / Fraction(2) ** q
        n = x.numerator // x.denominator
        r = x - n
        if r > Fraction(1, 2) or (r == Fraction(1, 2) and n & 1):
            n += 1
        return self.make(s, n, q)

    def make(self, s, n, q):
        """n * 2^q, n with at most M+2 bits"""
        if n == 0:
            return (s, self.EMIN, 0, 0)
        L = n.bit_length()
        e = q + L - 1
        m = n << (self.M + 1 - L) if L <= self.M + 1 else n >> (L - self.M - 1)
        if e >= self.EMAX:
            return self.inf(s)
        return (s, e, m, 0)

    def inf(self, s):
        return (s, self.EMAX, 1 << self.M, 1)

    def nan(self):
        return (None, self.EMAX, 0, 1)

    def zero(self, s):
        return (s, self.EMIN, 0, 0)

    def add(self, x, y):
        cx, cy = self.cls(x), self.cls(y)
        if "nan" in (cx, cy):
            return self.nan()
        if cx == "inf" and cy == "inf":
            return x if x[0] == y[0] else self.nan()
        if cx == "inf":
            return x
        if cy == "inf":
            return y
        if cx == "zero" and cy == "zero":
            return self.zero(x[0] & y[0])
        return self.round(self.value(x) + self.value(y), 0)

    def neg(self, x):
        return (1 - x[0],) + tuple(x[1:])

    def sub(self, x, y):
        return self.add(x, self.neg(y))

    def mul(self, x, y):
        cx, cy = self.cls(x), self.cls(y)
        s = x[0] ^ y[0]
        if "nan" in (cx, cy) or {cx, cy} == {"inf", "zero"}:
            return self.nan()
        if "inf" in (cx, cy):
            return self.inf(s)
        if "zero" in (cx, cy):
            return self.zero(s)
        r = self.round(abs(self.value(x) * self.value(y)))
        return (s,) + r[1:]

    def div(self, x, y):
        cx, cy = self.cls(x), self.cls(y)
        s = x[0] ^ y[0]
        if "nan" in (cx, cy) or cx == cy and cx in ("inf", "zero"):
            return self.nan()
        if cx == "inf" or cy == "zero":
            return self.inf(s)
        if cy == "inf" or cx == "zero":
            return self.zero(s)
        r = self.round(abs(self.value(x) / self.value(y)))
        return (s,) + r[1:]

    def sqrt(self, x):
        cx = self.cls(x)
        if cx == "zero":
            return x
        if cx == "nan" or x[0]:
            return self.nan()
        if cx == "inf":
            return x
        # sqrt(M*2^(E-Mb)): scale to an integer with plenty of bits, keep a sticky bit
        sh = 2 * (self.M + 8) + ((x[1] - self.M) & 1)
        n = x[2] << sh
        h = (x[1] - self.M - sh) // 2
        r = isqrt(n)
        v = Fraction(2 * r + (1 if r * r != n else 0)) * Fraction(2) ** (h - 1)
        return self.round(v)

    def lt(self, x, y, eq=False):
        cx, cy = self.cls(x), self.cls(y)
        if "nan" in (cx, cy):
            return 0

        def k(f, c):
            return (Fraction(10) ** 2000 * (-1 if f[0] else 1)) if c == "inf" else self.value(f)
        a, b = k(x, cx), k(y, cy)
        return int(a < b or (eq and a == b))

    def integral(self, x, mode):
        if self.cls(x) != "fin":
            return tuple(x)
        v = self.value(x)
        if x[1] >= self.M:
            return tuple(x)
        if mode == "trunc":
            n = abs(v).numerator // abs(v).denominator
        else:
            n = v.numerator // v.denominator if mode == "floor" else -((-v).numerator // (-v).denominator)
            n = abs(n)
        return self.make(x[0], n, 0)

    def isint(self, x):
        return self.cls(x) == "zero" or (self.cls(x) == "fin" and self.value(x).denominator == 1)

    def eq(self, x, y):
        cx, cy = self.cls(x), self.cls(y)
        if "nan" in (cx, cy):
            return cx == cy
        return tuple(x) == tuple(y)

    def ulp1(self, x, y):
        cx, cy = self.cls(x), self.cls(y)
        if "nan" in (cx, cy):
            return cx == cy
        if x[0] != y[0]:
            return False
        if tuple(x) == tuple(y):
            return True
        for a, b in ((x, y), (y, x)):
            if a[1] == b[1] and a[3] == b[3] and a[2] == b[2] + 1:
                return True
            if a[1] == b[1] + 1 and a[2] == 1 << self.M and b[2] == (2 << self.M) - 1:
                return True
        return False

    def ulpx(self, x, y, tol):
        cx, cy = self.cls(x), self.cls(y)
        if "nan" not in (cx, cy) and x[0] != y[0]:
            return False
        if x[1:] == y[1:]:
            return True
        d = self.sub(x, y)
        if self.cls(d) == "nan":
            return False
        d = (0,) + tuple(d[1:])
        return bool(self.lt(d, tol, eq=True))

    def decode(self, v):
        """components of a bit pattern, None if it does not fit"""
        if not 0 <= v < 1 << (self.E + self.M + 1):
            return None
        s = v >> (self.E + self.M)
        e = (v >> self.M) & ((1 << self.E) - 1)
        m = v & ((1 << self.M) - 1)
        if e == (1 << self.E) - 1:
            return (s, self.EMAX, 0 if m else 1 << self.M, 1)
        if e:
            return (s, e - self.EMAX + 1, m | 1 << self.M, 0)
        return self.make(s, m, self.ENM - self.M)


F32 = Fmt(8, 23)
F64 = Fmt(11, 52)


def same(got, want, p):
    """outputs of a circuit (field elements) against an expected float; sign None is free"""
    return all(w is None or (g - w) % p == 0 for g, w in zip(got, want))
