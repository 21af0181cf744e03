"""C14: arcs approximated by Bezier curves stay on the arc."""
import cmath
import math

from hypothesis import strategies as st

from ..big import big_commands
from ..common import TS, arcs, connected, geometry, kind, make, path_commands, path_text, pt, snap, snapshot
from ..core import require, rule, sub
from ..oracle.geom import Bez, Ell
from ..spoil import Twice
from .c09_evaluation import build, ellipses

rule("C14", "cases are arcs with a number of pieces, or paths holding arcs; non-trivial: an arc sweeping more than a few "
     "degrees, replaced by at least two pieces or by a piece of at most a third of a turn")

GRID = [i / 16 for i in range(17)]


def frame(arc):
    """Maps the plane so that the ellipse of the arc is the unit circle."""
    ctr, u, v = pt(arc.center), pt(arc.prx) - pt(arc.center), pt(arc.pry) - pt(arc.center)
    det = u.real * v.imag - u.imag * v.real
    return lambda z: complex(((z - ctr).real * v.imag - (z - ctr).imag * v.real) / det,
                             (u.real * (z - ctr).imag - u.imag * (z - ctr).real) / det)


def stray_bound(k, x):
    """How far a piece of angle x may be from the unit circle."""
    x = abs(x)
    return 2.3e-3 * (x / (math.pi / 2)) ** 6 if k == "C" else x * x / 45


def spread(n):
    return [0] if n == 1 else sorted({0, n // 2, n - 1})


def check(arc, curves, n, k, noise):
    require(len(curves) == n, "%d pieces instead of %d", len(curves), n)
    s, e = pt(arc.start), pt(arc.end)
    to = frame(arc)
    size = max(float(arc.rx), float(arc.ry)) + abs(pt(arc.center))
    tol = 1e-9 * size + noise * size
    x = float(arc.sweep) / n
    require(pt(curves[0].start) == s, "the first piece starts at %s, not at %s", curves[0].start, s)
    require(pt(curves[-1].end) == e, "the last piece ends at %s, not at %s", curves[-1].end, e)
    for a, b in zip(curves, curves[1:]):
        require(pt(a.end) == pt(b.start), "a piece ends at %s, the next one starts at %s", a.end, b.start)
    for i, q in enumerate(curves):
        require(kind(q) == k, "a piece is a %s", kind(q))
        if i:
            want = pt(arc.point(i / n))
            require(abs(pt(q.start) - want) <= tol, "piece %d of %d starts at %s, the arc is there at %s", i, n, q.start, want)
    if abs(x) > 2 * math.pi / 3 + 1e-9:
        return False
    unit = noise * 100 + 1e-9 * (size / min(float(arc.rx), float(arc.ry)))
    for i in spread(n):
        q = curves[i]
        pts = [to(pt(p)) for p in ([q.start, q.control1, q.control2, q.end] if k == "C" else [q.start, q.control, q.end])]
        b = Bez(pts)
        base = cmath.phase(to(pt(arc.start))) + i * x
        for t in GRID:
            z = b.at(t)
            require(abs(abs(z) - 1) <= stray_bound(k, x) + unit, "piece %d strays by %g of the radius, for its angle of %g at most %g is expected", i, abs(abs(z) - 1), x, stray_bound(k, x))
            along = cmath.phase(cmath.rect(1, cmath.phase(z) - base - x * t))
            require(abs(along) <= 0.06 * abs(x) + unit, "piece %d is %g ahead of the arc at t=%g", i, along, t)
        # the direction in which the piece leaves and arrives
        for z, d in ((pts[0], b.deriv(0)), (pts[-1], b.deriv(1))):
            off = cmath.phase(d / (1j * z * (1 if x > 0 else -1))) if abs(d) > 0 else 1
            # quadratics are not tangent: they cut the arc at a small angle
            limit = 1e-6 + unit * 10 / abs(x) + (0 if k == "C" else abs(x) / 6)
            require(abs(off) <= limit, "piece %d meets the arc at an angle of %g", i, off)
    return True


@sub("C14", "arcs", st.tuples(ellipses(), st.one_of(st.integers(1, 6), st.integers(1, 40), st.none()), st.booleans(), st.booleans()).map(list), quick=2500, thorough=120000, weight=2)
def pieces(case):
    e, n, cubic, whole = case
    if whole and n != 1:
        e = e[:5] + [math.copysign(2 * math.pi, e[5])]
    arc, el = build(e)
    k = "C" if cubic else "Q"
    before = snap(arc)
    fn = arc.as_cubic_curves if cubic else arc.as_quad_curves
    if n is None:
        curves = list(fn())
        n = len(curves)
        require(n >= 1 and abs(el.delta) / n <= math.pi / 6 + 1e-9, "%d pieces by default for a sweep of %g", n, el.delta)
    else:
        curves = list(fn(n))
    require(snap(arc) == before, "approximating changed the arc")
    asp = max(el.rx, el.ry) / min(el.rx, el.ry)
    return check(arc, curves, n, k, 1e-10 * asp) and abs(el.delta) > 0.1


@sub("C14", "svg_arcs", st.tuples(arcs(zero_radius=True, same_ends=True), st.integers(1, 12), st.booleans()).map(list), quick=1500, thorough=80000)
def svg_arcs(case):
    spec, n, cubic = case
    arc = make(spec)
    k = "C" if cubic else "Q"
    curves = list((arc.as_cubic_curves if cubic else arc.as_quad_curves)(n))
    if not arc.sweep:
        s, e = pt(arc.start), pt(arc.end)
        if s == e:
            require(curves == [], "an arc drawing nothing is replaced by %r", curves)
        else:
            require(len(curves) == 1 and kind(curves[0]) == k, "a straight arc is replaced by %r", curves)
            for t in TS:
                require(abs(pt(curves[0].point(t)) - (s + (e - s) * t)) <= 1e-9 * (abs(s) + abs(e)), "the curve for a straight arc is at %s for t=%g", curves[0].point(t), t)
        return False
    asp = max(float(arc.rx), float(arc.ry)) / min(float(arc.rx), float(arc.ry))
    if asp > 100 or abs(pt(arc.center)) > 1e4 * min(float(arc.rx), float(arc.ry)):
        return False
    # ends given in the endpoint form fix the center of a half turn only to the root of the rounding
    return check(arc, curves, n, k, 1e-7 * asp) and abs(float(arc.sweep)) > 0.1


with_arcs = st.one_of(path_commands(min_size=2, max_size=7, letters="AALQCZMST"), path_commands(min_size=2, max_size=7, letters="MAZ", zero_radius=True))


@sub("C14", "paths", st.tuples(with_arcs, st.booleans(), st.sampled_from([None, None, 0.1, 0.1, 0.05, 0.05, 0.25, 0.25, 0.02, 0.004])).map(list), quick=1200, thorough=50000, weight=2)
def paths(case):
    from svgio import Path
    Path = Twice(Path)

    commands, cubic, error = case
    p = Path(path_text(commands))
    old = list(Path(path_text(commands)))
    arg = {} if error is None else {"error": error}
    (p.approximate_arcs_with_cubics if cubic else p.approximate_arcs_with_quads)(**arg)
    connected(p)
    new = list(p)
    limit = 2 * math.pi * (0.1 if error is None else error)
    i = 0
    seen = False
    for s in old:
        if kind(s) != "A":
            require(i < len(new) and snap(new[i]) == snap(s), "segment %s became %s", snap(s), snap(new[i]) if i < len(new) else None)
            i += 1
            continue
        n = int(math.ceil(abs(float(s.sweep)) / limit)) if s.sweep else int(pt(s.start) != pt(s.end))
        part = new[i:i + n]
        if n > 1 and abs(abs(float(s.sweep)) / limit - (n - 1)) < 1e-9 and kind(new[min(i + n - 1, len(new) - 1)]) != ("C" if cubic else "Q"):
            n -= 1
            part = part[:n]
        i += n
        if s.sweep:
            asp = max(float(s.rx), float(s.ry)) / min(float(s.rx), float(s.ry))
            if asp <= 100 and abs(pt(s.center)) <= 1e4 * min(float(s.rx), float(s.ry)):
                seen |= check(s, part, n, "C" if cubic else "Q", 1e-7 * asp)
        else:
            require([kind(q) for q in part] == ["C" if cubic else "Q"] * n, "a straight arc is replaced by %r", part)
    require(i == len(new), "%d segments instead of %d", len(new), i)
    return seen


@sub("C14", "long paths", st.tuples(big_commands(12, 50, letters="AALQCZMST", zero_radius=True), st.booleans(), st.sampled_from([None, 0.1, 0.05, 0.25, 0.02])).map(list), quick=100, thorough=6000)
def long_paths(case):
    return paths(case)
