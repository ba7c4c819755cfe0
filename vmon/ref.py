"""Independent reference models: survival laws in closed form, present values by direct
enumeration over years of death / Gauss-Legendre quadrature. Nothing here imports the library."""
import math
import numpy as np

_X, _W = np.polynomial.legendre.leggauss(20)
_X = [float(v) for v in _X]; _W = [float(v) for v in _W]


def quad(f, a, b, pieces=None, breaks=()):
    """composite 20-point Gauss-Legendre on unit-ish panels"""
    if b <= a:
        return 0.0
    n = pieces or max(1, math.ceil(b - a))
    pts = sorted({a, b, *[p for p in breaks if a < p < b], *[a + (b - a) * k / n for k in range(1, n)]})
    tot = 0.0
    for lo, hi in zip(pts, pts[1:]):
        h, m = (hi - lo) / 2, (hi + lo) / 2
        tot += h * sum(w * f(m + h * z) for z, w in zip(_X, _W))
    return tot


class Law:
    """survival law for select lives: force mu(x, r) at r years after selection at age x,
    H(x, r) its integral from 0 to r"""
    omega = None          # limiting age, or None
    select = False

    def H(self, x, r): raise NotImplementedError
    def mu(self, x, r): raise NotImplementedError

    def S(self, x, s, t):
        if self.omega is not None:
            if x + s >= self.omega:
                return 0.0
            if x + s + t >= self.omega:
                return 0.0
        return math.exp(self.H(x, s) - self.H(x, s + t))

    def f(self, x, s, t):
        return self.S(x, s, t) * self.mu(x, s + t)

    def q(self, x, s, t=1, u=0):
        return self.S(x, s, u) - self.S(x, s, u + t)

    def lives(self, x, r, radix=100000., x0=0):
        """lives aged x+r selected at x, consistent with one ultimate population"""
        raise NotImplementedError

    def horizon(self, x, eps=1e-13):
        """time after which survival is negligible"""
        if self.omega is not None:
            return self.omega - x
        t = 1
        while self.S(x, 0, t) > eps and t < 5000:
            t += 1
        return t


class Makeham(Law):
    """mu = A + B c^(x+r) + D (1 - exp(-k r))   (D > 0 gives a genuine select effect)"""

    def __init__(self, A=0., B=0., c=1.1, D=0., k=0.5):
        self.A, self.B, self.c, self.D, self.k = A, B, c, D, k
        self.select = D > 0

    def mu(self, x, r):
        return self.A + self.B * self.c ** (x + r) + (self.D * (1 - math.exp(-self.k * r)) if self.D else 0.)

    def H(self, x, r):
        h = self.A * r
        if self.B:
            h += self.B * self.c ** x * (self.c ** r - 1) / math.log(self.c)
        if self.D:
            h += self.D * (r - (1 - math.exp(-self.k * r)) / self.k)
        return h

    def __repr__(self):
        return f'Makeham(A={self.A:.6g},B={self.B:.6g},c={self.c:.6g},D={self.D:.6g},k={self.k:.6g})'


class Beta(Law):
    """S = ((w-x-t)/(w-x))^alpha"""

    def __init__(self, omega, alpha=1.):
        self.omega, self.alpha = omega, alpha

    def mu(self, x, r):
        return self.alpha / (self.omega - x - r)

    def H(self, x, r):
        return -self.alpha * math.log((self.omega - x - r) / (self.omega - x))

    def __repr__(self):
        return f'Beta(omega={self.omega},alpha={self.alpha:.6g})'


class Weibull(Law):
    """mu = a (x+r)^p"""

    def __init__(self, a, p):
        self.a, self.p = a, p

    def mu(self, x, r):
        return self.a * (x + r) ** self.p

    def H(self, x, r):
        return self.a * ((x + r) ** (self.p + 1) - x ** (self.p + 1)) / (self.p + 1)

    def __repr__(self):
        return f'Weibull(a={self.a:.6g},p={self.p:.6g})'


class Table(Law):
    """integer-age table of one-year survival probabilities, UDD or constant force between ages.
    p: dict age -> p_age ; omega = first age with no survivors"""

    def __init__(self, minage, p, udd=True):
        self.minage = minage
        self.p = dict(p)
        self.udd = udd
        self.omega = max(self.p) + 1
        L = {minage: 1.0}
        for a in range(minage, self.omega):
            L[a + 1] = L[a] * self.p[a]
        self.L = L

    def _l(self, y):
        if y >= self.omega:
            return self.L.get(self.omega, 0.0) if y == self.omega else 0.0
        k = math.floor(y)
        r = y - k
        if r == 0:
            return self.L[k]
        if self.udd:
            return self.L[k] * (1 - r) + self.L[k + 1] * r
        return self.L[k] ** (1 - r) * self.L[k + 1] ** r

    def S(self, x, s, t):
        den = self._l(x + s)
        return self._l(x + s + t) / den if den else 0.0

    def mu(self, x, r):
        k = math.floor(x + r)
        g = x + r - k
        q = 1 - self.p[k]
        return q / (1 - g * q) if self.udd else -math.log(1 - q)

    def __repr__(self):
        return f'Table(minage={self.minage},omega={self.omega},udd={self.udd},q={[round(1-v,6) for v in list(self.p.values())[:4]]}..)'


class SelectTable(Law):
    """select and ultimate one-year q's: q[x][r], r=0..n (r=n ultimate, keyed by selection age)"""
    select = True

    def __init__(self, q, n, minage, maxage, udd=True):
        self.qq, self.n, self.minage, self.omega, self.udd = q, n, minage, maxage + n + 1, udd    # through the last ultimate age

    def q1(self, x, s):
        """one-year death probability of [x]+s"""
        if s > self.n:
            x, s = x + s - self.n, self.n
        return self.qq[x][s]

    def _surv(self, x, r):
        k = math.floor(r)
        p = 1.0
        for j in range(k):
            if x + j >= self.omega:
                return 0.0
            p *= 1 - self.q1(x, j)
        g = r - k
        if g:
            if x + k >= self.omega:
                return 0.0
            q = self.q1(x, k)
            p *= (1 - g * q) if self.udd else (1 - q) ** g
        return p

    def S(self, x, s, t):
        den = self._surv(x, s)
        return self._surv(x, s + t) / den if den else 0.0

    def mu(self, x, r):
        k = math.floor(r)
        q = self.q1(x, k)
        return q / (1 - (r - k) * q) if self.udd else -math.log(1 - q)


# ---- present values ---------------------------------------------------------
def vf(i):
    return lambda t: (1 + i) ** (-t)


def ins_disc(S, v, n, b=lambda k: 1., m=1, u=0):
    """sum over years of death k+1 in (u, u+n] of (b(k+1) v(k+1))^m * deferred q"""
    return math.fsum((b(k + 1) * v(k + 1)) ** m * (S(k) - S(k + 1)) for k in range(u, u + n))


def ins_cont(S, f, v, n, b=lambda t: 1., m=1, u=0, breaks=()):
    return quad(lambda t: (b(t) * v(t)) ** m * f(t), u, u + n, breaks=breaks)


def ann_disc(S, v, n, b=lambda k: 1., u=0):
    return math.fsum(b(k) * v(k) * S(k) for k in range(u, u + n))


def ann_cont(S, v, n, b=lambda t: 1., u=0, breaks=()):
    return quad(lambda t: b(t) * v(t) * S(t), u, u + n, breaks=breaks)


def ann_cert(v, n, disc=True):
    return math.fsum(v(k) for k in range(n)) if disc else quad(v, 0, n)


def Y_moments_disc(S, v, n, u=0, b=1.):
    """first two moments of the PV of an annuity-due of n payments deferred u, by year of death"""
    m1 = m2 = 0.0
    for k in range(u + n):
        y = b * math.fsum(v(j) for j in range(u, k + 1)) if k >= u else 0.0
        pr = (S(k) - S(k + 1)) if k < u + n - 1 else S(k)
        m1 += pr * y; m2 += pr * y * y
    return m1, m2


def ncdf(z):
    return 0.5 * math.erfc(-z / math.sqrt(2))


def nppf(p):
    lo, hi = -40., 40.
    for _ in range(200):
        mid = (lo + hi) / 2
        if ncdf(mid) < p:
            lo = mid
        else:
            hi = mid
    return (lo + hi) / 2
