"""C09: segments evaluate to the curves that define them."""
import cmath
import math

from hypothesis import strategies as st

from ..alive import changed_segments, changing
from ..common import anypair, arcs, arc_tolerance, c, drawn, frac, lines, closes, magnified, make, near_arcs, nudges, pos, powers, pt, ref, rotations
from ..core import require, rule, sub, without
from ..oracle.geom import Bez, Ell, TAU

rule("C09", "cases are segments with positions; non-trivial: the segment has distinct ends or control points (arcs: a real "
     "ellipse) and a position strictly between 0 and 1")


def want_at(spec, r, t):
    return c(spec[1]) if r is None else r.at(t)


def tolerance(spec, r):
    if spec[0] == "A":
        return arc_tolerance(c(spec[1]), *spec[2:7], c(spec[7]))
    return 1e-13 * max(1e-9, r.scale()) * 8


@sub("C09", "evaluation", st.tuples(st.one_of(drawn, drawn, drawn, near_arcs(), arcs(zero_radius=True, same_ends=True)), st.lists(frac, min_size=1, max_size=6)).map(list), quick=3000, thorough=200000, weight=2)
def evaluation(case):
    import numpy

    spec, ts = case
    s = make(spec)
    r = ref(spec)
    tol = tolerance(spec, r)
    if tol > 1e-2 * (1 + abs(c(spec[1])) + abs(c(spec[-1]))):
        return False
    one = [pt(s.point(t)) for t in ts]
    for t, z in zip(ts, one):
        w = want_at(spec, r, t)
        require(abs(z - w) <= tol, "point(%r) of %s is %s, the curve is at %s", t, spec[0], z, w)
    require(pt(s.point(0)) == c(spec[1]), "point(0) is %s, not exactly the start %s", s.point(0), spec[1])
    require(pt(s.point(1)) == c(spec[-1]), "point(1) is %s, not exactly the end %s", s.point(1), spec[-1])
    pad = [0] + ts + [1]
    for form, arg in (("a list", pad), ("a tuple", tuple(pad)), ("an array", numpy.array(pad, dtype=float))):
        many = s.npoint(arg)
        require(len(many) == len(pad), "npoint of %d positions gives %d points", len(pad), len(many))
        many = [pt(z) for z in many]
        require(many[0] == c(spec[1]) and many[-1] == c(spec[-1]), "npoint of %s ends at %s, %s", form, many[0], many[-1])
        for a, b in zip(many[1:-1], one):
            require(abs(a - b) <= 1e-13 * (1 + abs(b)), "npoint of %s gives %s where point gives %s", form, a, b)
    with without("numpy"):
        many = [pt(z) for z in s.npoint(pad)]
        single = [pt(s.point(t)) for t in ts]
    require(many[1:-1] == single, "without numpy: npoint %s, point %s", many[1:-1], single)
    require(many[0] == c(spec[1]) and many[-1] == c(spec[-1]), "without numpy: npoint ends at %s, %s", many[0], many[-1])
    for a, b in zip(single, one):
        require(abs(a - b) <= 1e-12 * (1 + abs(b)) + (tol if spec[0] == "A" else 0), "without numpy %s, with numpy %s", a, b)
    return any(0 < t < 1 for t in ts) and r is not None and (isinstance(r, Ell) or len(set(r.p)) > 1)


@sub("C09", "magnitudes", st.tuples(st.tuples(drawn, powers).map(magnified), st.lists(frac, min_size=1, max_size=4)).map(list), quick=800, thorough=40000)
def magnitudes(case):
    return evaluation(case)


angles = st.one_of(st.integers(-16, 16).map(lambda i: i * math.pi / 8), st.floats(-7, 7)).map(float)


def turn(a, b):
    """Difference of two directions."""
    return abs(cmath.phase(cmath.rect(1, a - b)))


@st.composite
def ellipses(draw):
    """Arcs in the center form and in the endpoint form, with moderate aspect ratio."""
    ctr = draw(anypair)
    rx = draw(st.one_of(st.integers(1, 9), st.floats(0.1, 50)))
    ry = rx * draw(st.one_of(st.sampled_from([1, 1, 2, 0.5, 0.25, 3, 0.1, 1.01]), st.sampled_from([1, 10]).flatmap(lambda f: nudges.map(lambda d: f + d))))
    t0 = draw(angles)
    sweep = draw(st.one_of(st.integers(-8, 8).filter(bool).map(lambda i: i * math.pi / 4), st.floats(0.05, 6.2), st.floats(-6.2, -0.05)))
    return [ctr, rx, ry, draw(rotations), t0, sweep]


def build(e):
    """A svgio arc by center and axes, and the reference ellipse."""
    from svgio import Arc, Point

    ctr, rx, ry, rot, t0, sweep = e
    el = Ell(c(ctr), rx, ry, math.radians(rot), t0, sweep)
    to = lambda z: Point(z.real, z.imag)  # noqa
    return Arc(to(el.at(0)), to(el.at(1)), to(el.c), to(el.on(0)), to(el.on(math.pi / 2)), sweep), el


@sub("C09", "ellipse", st.tuples(ellipses(), st.lists(angles, min_size=1, max_size=4), st.lists(frac, min_size=1, max_size=3)).map(list), quick=3000, thorough=200000, weight=2)
def ellipse(case):
    e, az, ts = case
    arc, el = build(e)
    size = abs(el.c) + el.rx + el.ry
    asp = max(el.rx, el.ry) / min(el.rx, el.ry)
    tol = 1e-11 * size * asp
    atol = 1e-11 * (1 + size / min(el.rx, el.ry)) * asp * asp
    require(abs(pt(arc.center) - el.c) <= tol, "center %s, not %s", arc.center, el.c)
    require(abs(float(arc.rx) - el.rx) <= tol and abs(float(arc.ry) - el.ry) <= tol, "radii %r %r, not %r %r", arc.rx, arc.ry, el.rx, el.ry)
    require(abs(pt(arc.radius) - complex(el.rx, el.ry)) <= tol, "radius %s, not %s", arc.radius, (el.rx, el.ry))
    require(turn(float(arc.get_rotation()), el.phi) <= atol, "rotation %r, not %r", float(arc.get_rotation()), el.phi)
    require(turn(float(arc.get_start_angle()), cmath.phase(el.start - el.c)) <= atol, "start angle %r", float(arc.get_start_angle()))
    require(turn(float(arc.get_end_angle()), cmath.phase(el.end - el.c)) <= atol, "end angle %r", float(arc.get_end_angle()))
    require(turn(float(arc.get_start_t()), el.theta) <= atol, "start t %r, not %r", float(arc.get_start_t()), el.theta)
    require(turn(float(arc.get_end_t()), el.theta + el.delta) <= atol, "end t %r, not %r", float(arc.get_end_t()), el.theta + el.delta)
    require(turn(math.radians(arc.theta), el.theta) <= atol and -1e-9 <= arc.theta <= 360 + 1e-9, "theta %r, not %r", arc.theta, math.degrees(el.theta))
    require(abs(math.radians(arc.delta) - el.delta) <= 1e-12, "delta %r, not %r", arc.delta, math.degrees(el.delta))
    if e[1] != e[2]:
        require(abs(e[1] - e[2]) <= tol or not arc.is_circular(), "an arc with radii %r %r is circular", e[1], e[2])
    for t in ts:
        require(abs(pt(arc.point(t)) - el.at(t)) <= tol * asp * 10, "point(%r) is %s, not %s", t, arc.point(t), el.at(t))
    for a in az:
        p = arc.point_at_t(a)
        require(abs(pt(p) - el.on(a)) <= tol, "point_at_t(%r) is %s, not %s", a, p, el.on(a))
        require(turn(float(arc.angle_at_point(p)), cmath.phase(el.on(a) - el.c)) <= atol, "angle_at_point(%s) is %r", p, arc.angle_at_point(p))
        require(turn(float(arc.t_at_point(p)), a) <= atol * 10, "t_at_point(point_at_t(%r)) is %r", a, float(arc.t_at_point(p)))
        far = el.c + (el.on(a) - el.c) * 3
        require(turn(float(arc.t_at_point((far.real, far.imag))), a) <= atol * 10, "t_at_point along the same ray is not %r", a)
        q = pt(arc.point_at_angle(a))
        local = (q - el.c) / el.rot
        require(abs(abs(complex(local.real / el.rx, local.imag / el.ry)) - 1) <= atol * 10, "point_at_angle(%r) is off the ellipse: %s", a, q)
        require(turn(cmath.phase(q - el.c), a) <= atol * 10, "point_at_angle(%r) lies at the angle %r", a, cmath.phase(q - el.c))
    return any(0 < t < 1 for t in ts)


@sub("C09", "closest", st.tuples(st.one_of(lines, closes), anypair, st.booleans(), st.booleans()).map(list), quick=1500, thorough=60000)
def closest(case):
    from svgio import Point

    spec, p, bounds, aspoint = case
    s = make(spec)
    a, b = c(spec[1]), c(spec[2])
    z = c(p)
    with without("numpy"):
        plain = pt(s.closest_segment_point(tuple(p), respect_bounds=bounds))
    got = pt(s.closest_segment_point(Point(*p) if aspoint else tuple(p), respect_bounds=bounds))
    if a == b:
        want = a
    else:
        t = ((z - a) * (b - a).conjugate()).real / abs(b - a) ** 2
        want = a + (b - a) * (min(1.0, max(0.0, t)) if bounds else t)
    scale = 1 + abs(a) + abs(b) + abs(z)
    tol = 1e-9 * scale * (1 + scale / (abs(b - a) or scale))
    require(abs(got - want) <= tol, "closest point to %s is %s, not %s", z, got, want)
    require(abs(plain - want) <= tol, "without numpy the closest point to %s is %s, not %s", z, plain, want)
    return a != b and z not in (a, b)


AT = (0, 0.25, 1.0 / 3, 0.9, 1)


@sub("C09", "after changes", changed_segments, quick=700, thorough=30000)
def after_changes(case):
    """Points are those of the curve as it is now, whatever it was when last evaluated."""
    calls = [("point(%r)" % t, lambda s, t=t: s.point(t)) for t in AT]
    calls.append(("npoint", lambda s: s.npoint(AT)))
    if case[0][0] == "A":
        calls += [(n, lambda s, n=n: getattr(s, n)) for n in ("theta", "delta", "rx", "ry")]
        calls += [(n, lambda s, n=n: getattr(s, n)()) for n in ("get_start_t", "get_end_t", "get_start_angle", "get_end_angle", "get_rotation", "is_circular")]
        calls += [("point_at_t", lambda s: s.point_at_t(1)), ("point_at_angle", lambda s: s.point_at_angle(1)), ("t_at_point", lambda s: s.t_at_point(s.end)), ("angle_at_point", lambda s: s.angle_at_point(s.end))]
    return changing(case, calls)
