"""Reference thermodynamic model of one phase, by quadrature of Cp."""
import math
import numpy as np

_X, _W = np.polynomial.legendre.leggauss(40)
R = 8.31446261815324
_T0 = 298.15


class RefPhase:
    """records: list of (Tmin, Tmax, [(coef, exp), ...]) in T order."""

    def __init__(self, DHref, Sref, records, mag=None):
        self.DHref, self.Sref = DHref, Sref
        self.records = sorted(records)
        self.mag = mag

    @staticmethod
    def poly(terms, T):
        return sum(c * T ** e for c, e in terms)

    def cp_lattice(self, T, upper):
        for tmin, tmax, terms in self.records:
            if T < tmax or (T == tmax and not upper):
                return self.poly(terms, T)
        tmin, tmax, terms = self.records[-1]
        return self.poly(terms, tmax)

    def segments(self, T):
        """(a, b, f) pieces whose integrals give the change from the start."""
        out = []
        for tmin, tmax, terms in self.records:
            b = min(T, tmax)
            out.append((tmin, b, terms, None))
            if T <= tmax:
                return out
        tmin, tmax, terms = self.records[-1]
        out.append((tmax, T, None, self.poly(terms, tmax)))
        return out

    def integrals(self, T):
        h = s = 0.0
        scale_h = scale_s = 0.0
        for a, b, terms, const in self.segments(T):
            la, lb = math.log(a), math.log(b)
            n = max(1, int(abs(lb - la) / 1.0) + 1)
            # Differences of powers lose digits over short pieces.
            cpb = abs(const) if terms is None else sum(
                abs(c) * max(a ** e, b ** e) for c, e in terms)
            scale_h += 1e-4 * cpb * max(a, b)
            scale_s += 1e-4 * cpb
            for k in range(n):
                p = la + (lb - la) * k / n
                q = la + (lb - la) * (k + 1) / n
                u = 0.5 * (q - p) * _X + 0.5 * (p + q)
                w = 0.5 * (q - p) * _W
                t = np.exp(u)
                if terms is None:
                    cp = np.full_like(t, const)
                    mag = np.abs(cp)
                else:
                    cp = sum(c * t ** e for c, e in terms)
                    mag = sum(abs(c) * t ** e for c, e in terms)
                h += float((w * cp * t).sum())
                s += float((w * cp).sum())
                scale_h += abs(float((w * mag * t).sum()))
                scale_s += abs(float((w * mag).sum()))
        return h, s, scale_h, scale_s

    # magnetic part: Hillert-Jarl as tabulated by Dinsdale (1991); only the
    # Gibbs energy is written down, the rest follows by differentiation of
    # the series term by term.
    def mag_terms(self, tau):
        Tc, b0, p = self.mag
        D = 518.0 / 1125 + 11692.0 / 15975 * (1.0 / p - 1)
        if tau <= 1:
            B = 474.0 / 497 * (1.0 / p - 1)
            return [(0, 1.0), (-1, -79.0 / 140 / p / D), (3, -B / 6 / D),
                    (9, -B / 135 / D), (15, -B / 600 / D)]
        return [(-5, -1 / 10.0 / D), (-15, -1 / 315.0 / D),
                (-25, -1 / 1500.0 / D)]

    def mag_all(self, T):
        """Cp, H, S, G of the magnetic part."""
        if not self.mag:
            return 0.0, 0.0, 0.0, 0.0
        Tc, b0, p = self.mag
        k = R * math.log(b0 + 1)
        tau = T / Tc
        g = h = s = c = 0.0
        for n, a in self.mag_terms(tau):
            # G = k T a tau^n ; S = -dG/dT ; H = G + T S ; Cp = dH/dT
            x = a * tau ** n
            g += k * T * x
            s += -k * (n + 1) * x
            h += -k * T * n * x
            c += -k * n * (n + 1) * x
        return c, h, s, g

    def cp_scale(self, T):
        m = abs(self.mag_all(T)[0])
        return m + max(sum(abs(c) * min(T, tmax) ** e for c, e in terms)
                       for tmin, tmax, terms in self.records)

    def Cp(self, T):
        m = self.mag_all(T)[0]
        return (self.cp_lattice(T, True) + m, self.cp_lattice(T, False) + m)

    def HSG(self, T):
        h, s, sh, ss = self.integrals(T)
        c, mh, ms, mg = self.mag_all(T)
        H = self.DHref + h + mh
        S = self.Sref + s + ms
        sh += abs(self.DHref) + abs(mh)
        ss += abs(self.Sref) + abs(ms)
        return H, S, H - T * S, sh, ss
