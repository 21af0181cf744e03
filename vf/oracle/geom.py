"""Plane geometry oracles over complex numbers, independent of svgio."""
import cmath
import math
from bisect import bisect_left

TAU = 2 * math.pi


def lerp(a, b, t):
    return a + (b - a) * t


def line(s, e):
    return Bez([s, e])


class Bez:
    """Bezier curve of any degree by de Casteljau."""

    def __init__(self, pts):
        self.p = [complex(x) for x in pts]

    @property
    def start(self):
        return self.p[0]

    @property
    def end(self):
        return self.p[-1]

    def at(self, t):
        q = list(self.p)
        while len(q) > 1:
            q = [a + (b - a) * t for a, b in zip(q, q[1:])]
        return q[0]

    def deriv(self, t):
        n = len(self.p) - 1
        return Bez([(b - a) * n for a, b in zip(self.p, self.p[1:])]).at(t) if n else 0j

    def scale(self):
        return max(abs(x) for x in self.p)

    def size(self):
        return sum(abs(b - a) for a, b in zip(self.p, self.p[1:]))

    def split(self, t):
        q = list(self.p)
        left, right = [q[0]], [q[-1]]
        while len(q) > 1:
            q = [a + (b - a) * t for a, b in zip(q, q[1:])]
            left.append(q[0])
            right.append(q[-1])
        return Bez(left), Bez(right[::-1])

    def length(self, rel=1e-12, depth=40):
        """Chord/polygon bracketing with Gauss-Legendre inside; safe at cusps. Returns (length, error bound)."""
        total = 0.0
        err = 0.0
        size = self.size()
        if size == 0:
            return 0.0, 0.0
        stack = [(self, depth)]
        while stack:
            b, d = stack.pop()
            chord = abs(b.end - b.start)
            poly = b.size()
            if poly - chord <= 1e-15 * size or d == 0:
                total += (chord + poly) / 2
                err += (poly - chord) / 2
                continue
            legs = [(y - x) * (b.end - b.start).conjugate() / chord if chord else 0j for x, y in zip(b.p, b.p[1:])]
            if min(z.real for z in legs) >= 0.2 * max(abs(z) for z in legs) > 0:  # no kink of the speed near
                g1 = gauss(lambda t: abs(b.deriv(t)), G10)
                g2 = gauss(lambda t: abs(b.deriv(t)), G16)
                if abs(g1 - g2) <= rel * 0.1 * g2 or abs(g1 - g2) <= 1e-16 * size:
                    total += g2
                    err += abs(g1 - g2)
                    continue
            l, r = b.split(0.5)
            stack.append((l, d - 1))
            stack.append((r, d - 1))
        return total, err

    def bbox(self):
        xs = [self.start.real, self.end.real]
        ys = [self.start.imag, self.end.imag]
        for t in self._roots([z.real for z in self.p]):
            xs.append(self.at(t).real)
        for t in self._roots([z.imag for z in self.p]):
            ys.append(self.at(t).imag)
        return min(xs), min(ys), max(xs), max(ys)

    @staticmethod
    def _roots(v):
        """Parameters in (0, 1) at which the derivative of the 1-D Bezier changes sign, by bisection."""
        n = len(v) - 1
        if n < 2:
            return []
        d = [b - a for a, b in zip(v, v[1:])]
        if n == 2:
            cuts = [0.0, 1.0]
        else:
            # derivative is quadratic with Bernstein coefficients d: split at its own extremum
            a = d[0] - 2 * d[1] + d[2]
            b = d[1] - d[0]
            cuts = [0.0, 1.0]
            if a and 0 < -b / a < 1:
                cuts = [0.0, -b / a, 1.0]

        def f(t):
            q = list(d)
            while len(q) > 1:
                q = [x + (y - x) * t for x, y in zip(q, q[1:])]
            return q[0]

        out = [c for c in cuts[1:-1]]
        for lo, hi in zip(cuts, cuts[1:]):
            flo, fhi = f(lo), f(hi)
            if flo == 0 or fhi == 0 or (flo > 0) == (fhi > 0):
                continue
            for _ in range(200):
                mid = (lo + hi) / 2
                if mid <= lo or mid >= hi:
                    break
                fm = f(mid)
                if (fm > 0) == (flo > 0):
                    lo = mid
                else:
                    hi = mid
            out.append((lo + hi) / 2)
        return out


class Ell:
    """Elliptical arc: center + rx cos, ry sin rotated by phi, from theta over delta (radians)."""

    def __init__(self, center, rx, ry, phi, theta, delta):
        self.c = complex(center)
        self.rx, self.ry, self.phi, self.theta, self.delta = rx, ry, phi, theta, delta
        self.rot = complex(math.cos(phi), math.sin(phi))

    def on(self, a):
        return self.c + self.rot * complex(self.rx * math.cos(a), self.ry * math.sin(a))

    def at(self, t):
        return self.on(self.theta + self.delta * t)

    def deriv(self, t):
        a = self.theta + self.delta * t
        return self.rot * complex(-self.rx * math.sin(a), self.ry * math.cos(a)) * self.delta

    @property
    def start(self):
        return self.at(0)

    @property
    def end(self):
        return self.at(1)

    def scale(self):
        return max(abs(self.c), self.rx, self.ry)

    def size(self):
        return max(self.rx, self.ry) * max(abs(self.delta), 1)

    def length(self, rel=1e-12, depth=40):
        if self.rx == self.ry:
            return self.rx * abs(self.delta), 0.0
        total = 0.0
        err = 0.0
        full = abs(self.delta) * max(self.rx, self.ry)
        stack = [(0.0, 1.0, depth)]
        f = lambda t: abs(self.deriv(t))  # noqa
        while stack:
            a, b, d = stack.pop()
            g1 = gauss(f, G10, a, b)
            g2 = gauss(f, G16, a, b)
            if abs(g1 - g2) <= rel * 0.1 * full * (b - a) or d == 0 or abs(g1 - g2) <= 1e-17 * full:
                total += g2
                err += abs(g1 - g2)
                continue
            m = (a + b) / 2
            stack.append((a, m, d - 1))
            stack.append((m, b, d - 1))
        return total, err

    def bbox(self):
        pts = [self.at(0), self.at(1)]
        # extremal eccentric angles
        for base in (
            math.atan2(-self.ry * math.sin(self.phi), self.rx * math.cos(self.phi)),
            math.atan2(self.ry * math.cos(self.phi), self.rx * math.sin(self.phi)),
        ):
            lo, hi = sorted((self.theta, self.theta + self.delta))
            k = math.ceil((lo - base) / math.pi)
            while base + k * math.pi <= hi:
                pts.append(self.on(base + k * math.pi))
                k += 1
        xs = [p.real for p in pts]
        ys = [p.imag for p in pts]
        return min(xs), min(ys), max(xs), max(ys)


def svg_arc(s, rx, ry, rotation, large, sweep, e):
    """Appendix F.6 of SVG 1.1: returns an Ell, or a Bez when the arc is a straight line, or None when the
    two ends coincide (nothing is drawn)."""
    if s == e:
        return None
    rx, ry = abs(rx), abs(ry)
    if rx == 0 or ry == 0:
        return Bez([s, e])
    phi = math.radians(rotation % 360.0)
    rot = complex(math.cos(phi), math.sin(phi))
    # Work in the frame in which the ellipse is the unit circle.
    h = (e - s) / 2 / rot
    h = complex(h.real / rx, h.imag / ry)
    lam = abs(h)
    if lam >= 1:
        rx *= lam
        ry *= lam
        h /= lam
        off = 0j
    else:
        k = math.sqrt(max(0.0, (1 - lam) * (1 + lam)))
        # unit normal to the chord; the center is on its left when exactly one flag is set
        n = complex(-h.imag, h.real) / abs(h)
        off = n * k * (-1 if large == sweep else 1)
    center = (s + e) / 2 + rot * complex(off.real * rx, off.imag * ry)
    u = -h - off
    v = h - off
    theta = cmath.phase(u)
    delta = cmath.phase(v / u)
    if off == 0:
        delta = math.pi
    if sweep and delta < 0:
        delta += TAU
    if not sweep and delta > 0:
        delta -= TAU
    return Ell(center, rx, ry, phi, theta, delta)


def _gl(n):
    """Nodes and weights of Gauss-Legendre on [0, 1] by Newton iteration."""
    out = []
    for i in range(n):
        x = math.cos(math.pi * (i + 0.75) / (n + 0.5))
        for _ in range(100):
            p0, p1 = 1.0, x
            for k in range(2, n + 1):
                p0, p1 = p1, ((2 * k - 1) * x * p1 - (k - 1) * p0) / k
            dp = n * (x * p1 - p0) / (x * x - 1)
            dx = p1 / dp
            x -= dx
            if abs(dx) < 1e-16:
                break
        out.append(((x + 1) / 2, 1 / ((1 - x * x) * dp * dp)))
    return out


G10 = _gl(10)
G16 = _gl(16)


def gauss(f, g, a=0.0, b=1.0):
    return (b - a) * math.fsum(w * f(a + (b - a) * x) for x, w in g)


def close_points(a, b, tol):
    return abs(a.real - b.real) <= tol and abs(a.imag - b.imag) <= tol


def dist_to_segment(p, a, b):
    d = b - a
    n = abs(d) ** 2
    if n == 0:
        return abs(p - a)
    t = ((p - a) * d.conjugate()).real / n
    t = min(1.0, max(0.0, t))
    return abs(p - (a + d * t))


def dist_to_polyline(p, pts):
    if len(pts) == 1:
        return abs(p - pts[0])
    return min(dist_to_segment(p, a, b) for a, b in zip(pts, pts[1:]))
