"""Independent valuation of the textbook products for a gens.Model (no library code)."""
import math
from vmon import ref


class Val:
    """values of benefits contingent on [x]+s under m.law at interest rate i"""

    def __init__(self, m, x, s, i):
        self.m, self.x, self.s, self.i = m, x, s, i
        self.law = m.law
        self.v = ref.vf(i)
        self.S = m.S(x, s)
        n = m.maxage - x - s
        if self.law.omega is None:      # beyond this survival is negligible
            k = 1
            while k < n and self.S(k) > 1e-15: k += 1
            n = k
        self.N = n

    def cap(self, t, u=0):
        return max(0, min(t if t >= 0 else 10 ** 9, self.N - u))

    def dens(self, g, lo, hi):
        """integral of g(t) f(t) over [lo, hi]"""
        law = self.law
        if hi <= lo: return 0.
        if isinstance(law, ref.Beta):       # by quantile, avoids the singular density at omega
            w = law.omega - self.x - self.s; a = law.alpha
            T = lambda U: w * (1 - U ** (1 / a))
            return ref.quad(lambda U: g(T(U)), max(0., 1 - hi / w) ** a, (1 - lo / w) ** a, pieces=40)
        return ref.quad(lambda t: g(t) * law.f(self.x, self.s, t), lo, hi)

    def ins(self, t=-1, u=0, b=1., mom=1, disc=True):
        n = self.cap(t, u)
        bf = b if callable(b) else (lambda _: b)
        if disc:
            return ref.ins_disc(self.S, self.v, n, bf, m=mom, u=u)
        return self.dens(lambda t: (bf(t) * self.v(t)) ** mom, u, u + n)

    def E(self, t, b=1., mom=1):
        if t > self.N: return 0. if self.m.natural or self.law.omega is None else None
        return (b * self.v(t)) ** mom * self.S(t)

    def endow(self, t, b=1., e=None, mom=1, disc=True):
        return self.ins(t, b=b, mom=mom, disc=disc) + self.E(t, b if e is None else e, mom)

    def ann(self, t=-1, u=0, b=1., disc=True):
        n = self.cap(t, u)
        bf = b if callable(b) else (lambda _: b)
        if disc:
            return ref.ann_disc(self.S, self.v, n, bf, u=u)
        br = [u + n - 2. ** -j for j in range(1, 24)] if isinstance(self.law, ref.Beta) else ()
        return ref.ann_cont(self.S, self.v, n, bf, u=u, breaks=br)

    def ann_var(self, t=-1, b=1., disc=True):
        """variance of the present value of an annuity for t years (whole life if negative)"""
        n = self.cap(t)
        whole = n == self.N
        if disc:
            m1, m2 = ref.Y_moments_disc(self.S, self.v, n, b=b)
        else:
            dl = math.log1p(self.i)
            y = (lambda t: b * -math.expm1(-dl * t) / dl) if dl else (lambda t: b * t)
            m1, m2 = [self.dens(lambda t: y(t) ** k, 0, n) + y(n) ** k * self.S(n) for k in (1, 2)]
        return m2 - m1 * m1
