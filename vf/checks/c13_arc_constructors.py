"""C13: every way of specifying an arc yields that arc."""
import cmath
import math

from hypothesis import strategies as st

from ..common import TS, anypair, arcs, arc_tolerance, c, compare_arc, near_arcs, nudges, pt, rotations
from ..core import require, rule, sub
from ..oracle.geom import Ell, TAU, svg_arc
from ..spoil import Twice
from .c09_evaluation import angles

rule("C13", "cases are parameter sets of an arc; non-trivial: the ends differ and the arc is no straight line")


def P(z):
    return (z.real, z.imag)


def check(arc, s, e, el, tol, what):
    """The arc runs over the ellipse el from s to e as el does."""
    require(abs(pt(arc.start) - s) <= tol and abs(pt(arc.end) - e) <= tol, "%s runs from %s to %s, not from %s to %s", what, arc.start, arc.end, s, e)
    require(abs(pt(arc.center) - el.c) <= tol, "%s has its center at %s, not %s", what, arc.center, el.c)
    require(abs(float(arc.sweep) - el.delta) <= tol / min(el.rx, el.ry), "%s sweeps %r, not %r", what, arc.sweep, el.delta)
    axes(arc, el, tol, what)
    for t in TS:
        require(abs(pt(arc.point(t)) - el.at(t)) <= tol, "%s is at %s for t=%g, not %s (tolerance %g)", what, arc.point(t), t, el.at(t), tol)


def axes(arc, el, tol, what):
    """The axis points lie at the ends of perpendicular axes of the ellipse."""
    ctr = pt(arc.center)
    a, b = pt(arc.prx) - ctr, pt(arc.pry) - ctr
    slack = 4 * tol + 1e-9 * (abs(ctr) + el.rx + el.ry)
    require(abs(abs(a) - el.rx) <= slack and abs(abs(b) - el.ry) <= slack, "%s: axis points %s, %s from the center for radii %s, %s", what, abs(a), abs(b), el.rx, el.ry)
    if el.rx != el.ry:
        require(abs((a / cmath.rect(1, el.phi)).imag) <= slack, "%s: the x-axis point %s is off the axis at %r", what, arc.prx, el.phi)
    require(abs((b / (a / abs(a))).real) <= slack * (1 + el.ry / el.rx), "%s: the axes %s, %s are not perpendicular", what, a, b)


ways = st.sampled_from(["args", "points", "complex", "complexkw", "text"])


@sub("C13", "endpoints", st.tuples(st.one_of(arcs(), arcs(), near_arcs(), arcs(zero_radius=True, same_ends=True)), ways).map(list), quick=2500, thorough=150000, weight=2)
def endpoints(case):
    from svgio import Arc, Path, Point
    Arc = Twice(Arc)
    Path = Twice(Path)

    spec, way = case
    _, s, rx, ry, rot, la, sw, e = spec
    if way == "args":
        arc = Arc(tuple(s), rx, ry, rot, la, sw, tuple(e))
    elif way == "points":
        arc = Arc(Point(*s), -rx, ry, rot, int(la), int(sw), Point(*e))
    elif way == "complex":
        arc = Arc(c(s), complex(rx, ry), rot, la, sw, c(e))
    elif way == "complexkw":
        arc = Arc(start=c(s), radius=complex(rx, ry), rotation=rot, arc_flag=la, sweep_flag=sw, end=c(e))
    else:
        arc = Path("M%r,%r A%r %r %r %d %d %r,%r" % (s[0], s[1], rx, ry, rot, la, sw, e[0], e[1]))[1]
    compare_arc(arc, c(s), rx, ry, rot, la, sw, c(e))
    r = svg_arc(c(s), rx, ry, rot, la, sw, c(e))
    if not isinstance(r, Ell):
        require(arc.length() >= 0 and abs(float(arc.length()) - abs(c(e) - c(s))) <= 1e-9 * (1 + abs(c(e) - c(s))), "an arc without radii is %r long", arc.length())
        return False
    tol = arc_tolerance(c(s), rx, ry, rot, la, sw, c(e))
    if tol > 1e-3 * min(r.rx, r.ry):
        return False
    require((float(arc.sweep) > 0) == bool(sw), "sweep flag %d, but the arc sweeps %r", sw, arc.sweep)
    if abs(abs(r.delta) - math.pi) > 1e-3:
        require((abs(float(arc.sweep)) > math.pi) == bool(la), "large flag %d, but the arc sweeps %r", la, arc.sweep)
    require(abs(float(arc.sweep) - r.delta) <= 1e-9 + tol / min(r.rx, r.ry), "the arc sweeps %r, not %r", arc.sweep, r.delta)
    require(abs(float(arc.rx) - r.rx) <= 1e-9 * r.rx + tol and abs(float(arc.ry) - r.ry) <= 1e-9 * r.ry + tol, "radii %r, %r, not %r, %r", arc.rx, arc.ry, r.rx, r.ry)
    require(abs(pt(arc.center) - r.c) <= tol, "center %s, not %s", arc.center, r.c)
    turn = abs(cmath.phase(cmath.rect(1, float(arc.get_rotation()) - r.phi)))
    axes(arc, r, tol, "arc")
    require(turn <= 1e-9 * (1 + abs(r.c) / min(r.rx, r.ry)), "rotation %r, not %r", float(arc.get_rotation()), r.phi)
    return True


@st.composite
def centered(draw):
    """An ellipse, where the arc begins and how far it goes (never nearly nothing or a whole turn)."""
    ctr = draw(anypair)
    rx = draw(st.one_of(st.integers(1, 9), st.floats(0.5, 50)))
    ry = rx * draw(st.sampled_from([1, 1, 2, 0.5, 3, 0.25]))
    t0 = draw(angles)
    n = draw(st.one_of(st.integers(1, 15).map(lambda i: i * math.pi / 8), st.floats(0.05, 6.2)))
    return [ctr, rx, ry, draw(rotations), t0, n * draw(st.sampled_from([1, -1]))]


def ellipse(e, circle=False):
    ctr, rx, ry, rot, t0, n = e
    return Ell(c(ctr), rx, rx if circle else ry, 0 if circle else math.radians(rot), t0, n)


def lookalike(points, e):
    """Points a plain decimal layout cannot tell apart make nothing testable."""
    return len({(round(z.real, 6), round(z.imag, 6)) for z in points}) < len(points)


@sub("C13", "center", st.tuples(centered(), st.sampled_from(["ccw", "sweep", "args", "nosense", "startsweep", "endsweep", "native", "axes", "axeskw", "axesccw", "sixkw", "box", "rx and pry", "prx and ry", "r"])).map(list), quick=2500, thorough=150000, weight=2)
def center(case):
    from svgio import Angle, Arc, Point
    Arc = Twice(Arc)

    e, way = case
    circle = way in ("ccw", "sweep", "args", "nosense", "startsweep", "endsweep", "r")
    el = ellipse(e, circle)
    if way == "box":
        el = Ell(el.c, el.rx, el.ry, 0, el.theta, el.delta)
    s, t = el.start, el.end
    if abs(s - t) < 1e-3 * el.rx:
        return False
    tol = 1e-9 * (abs(el.c) + el.rx + el.ry) * (abs(el.c) / min(el.rx, el.ry) + 10)
    ccw = el.delta < 0
    if way == "ccw":
        arc = Arc(start=P(s), end=P(t), center=P(el.c), ccw=ccw)
    elif way == "sweep":
        arc = Arc(start=P(s), end=P(t), center=P(el.c), sweep=el.delta)
    elif way == "args":
        arc = Arc(P(s), P(t), P(el.c), ccw=ccw)
    elif way == "nosense":  # without a sense it goes the positive way
        arc = Arc(start=P(s), end=P(t), center=P(el.c))
        el = Ell(el.c, el.rx, el.ry, el.phi, el.theta, el.delta + TAU if ccw else el.delta)
    elif way == "startsweep":
        arc = Arc(start=P(s), center=P(el.c), sweep=el.delta)
    elif way == "endsweep":
        arc = Arc(end=P(t), center=P(el.c), sweep=Angle(el.delta))
    elif way == "native":
        arc = Arc(P(s), P(t), P(el.c), P(el.on(0)), P(el.on(math.pi / 2)), el.delta)
    elif way == "axes":
        arc = Arc(P(s), P(t), P(el.c), rx=el.rx, ry=el.ry, rotation=Angle.degrees(e[3]), sweep=el.delta)
    elif way == "axesccw":
        arc = Arc(P(s), P(t), P(el.c), rx=el.rx, ry=el.ry, rotation=el.phi, ccw=ccw)
    elif way == "sixkw":
        arc = Arc(start=P(s), end=P(t), center=P(el.c), rx=el.rx, ry=el.ry, rotation=el.phi)
        el = Ell(el.c, el.rx, el.ry, el.phi, el.theta, el.delta + TAU if ccw else el.delta)
    elif way == "rx and pry":
        arc = Arc(start=P(s), end=P(t), center=P(el.c), rx=el.rx, pry=P(el.on(math.pi / 2)), rotation=el.phi, sweep=el.delta)
    elif way == "prx and ry":
        arc = Arc(start=P(s), end=P(t), center=P(el.c), prx=P(el.on(0)), ry=el.ry, rotation=el.phi, ccw=ccw)
    elif way == "r":
        arc = Arc(start=P(s), end=P(t), center=P(el.c), r=el.rx, ccw=ccw)
    elif way == "axeskw":
        arc = Arc(start=P(s), end=P(t), center=P(el.c), prx=P(el.on(0)), pry=P(el.on(math.pi / 2)), ccw=ccw)
    else:
        arc = Arc(start=P(s), end=P(t), left=el.c.real - el.rx, right=el.c.real + el.rx, top=el.c.imag - el.ry, bottom=el.c.imag + el.ry, ccw=ccw)
    check(arc, s, t, el, tol, "Arc by %s" % way)
    return True


@sub("C13", "control", st.tuples(centered(), st.floats(0.05, 0.95), st.sampled_from(["point", "tuple", "complex"]), st.booleans()).map(list), quick=2000, thorough=150000)
def control(case):
    from svgio import Arc, Point
    Arc = Twice(Arc)

    e, at, form, grid = case
    el = ellipse(e, True)
    s, t, k = el.start, el.end, el.at(at)
    if grid:  # axis aligned legs and equal slopes come up on a coarse grid
        s, t, k = (complex(round(z.real), round(z.imag)) for z in (s, t, k))
        w = (k - s) * (t - k).conjugate()
        if abs(w.imag) < 1e-9 or s == t:
            return False
        # circumscribed circle
        a, b = k - s, t - s
        d = 2 * (a.real * b.imag - a.imag * b.real)
        u = complex(b.imag * abs(a) ** 2 - a.imag * abs(b) ** 2, a.real * abs(b) ** 2 - b.real * abs(a) ** 2) / d
        ctr = s + u
        delta = cmath.phase((t - ctr) / (s - ctr)) % TAU
        mid = cmath.phase((k - ctr) / (s - ctr)) % TAU
        if mid > delta:
            delta -= TAU
        el = Ell(ctr, abs(u), abs(u), 0, cmath.phase(s - ctr), delta)
        if el.rx > 300:
            return False
    side = min(abs(k - s), abs(t - k), abs(t - s))
    if side < 0.02 * el.rx:
        return False
    tol = 1e-10 * (abs(el.c) + el.rx) * (1 + (abs(el.c) + el.rx) / side) ** 3
    f = {"point": lambda z: Point(z.real, z.imag), "tuple": P, "complex": lambda z: z}[form]
    arc = Arc(start=f(s), end=f(t), control=f(k))
    check(arc, s, t, el, tol, "Arc by control point")
    require(abs(abs(k - pt(arc.center)) - float(arc.rx)) <= tol, "the control point %s is off the circle", k)
    return True


@st.composite
def legs(draw):
    """A circle's arc one of whose legs, from the start to the control or from there to the end, is level or upright, all but."""
    center, r = draw(anypair), draw(st.one_of(st.integers(1, 9), st.floats(0.5, 50)))
    t = draw(st.one_of(st.integers(-16, 16).map(lambda i: i * math.pi / 8), st.floats(-3.1, 3.1)))
    mirror = draw(st.sampled_from([math.pi - t, -t])) + draw(st.sampled_from([0, 0, 1, -1])) * 10.0 ** draw(st.integers(-16, -2))
    turn = (mirror - t) % TAU
    at = draw(st.floats(0.05, 0.95))
    if draw(st.booleans()):
        turn -= TAU
    sweep = turn / at
    if not 0.05 < abs(sweep) < TAU - 0.05:
        sweep = math.copysign(min(TAU - 0.05, max(0.05, abs(turn) + 0.1)), turn)
        at = turn / sweep
    if draw(st.booleans()):
        t, sweep, at = t + sweep, -sweep, 1 - at
    return [[center, r, r, 0, t, sweep], at, draw(st.sampled_from(["point", "tuple", "complex"])), False]


@sub("C13", "level legs", legs(), quick=800, thorough=60000)
def level_legs(case):
    if not 0.02 < case[1] < 0.98 or abs(case[0][5]) >= TAU:
        return False
    return control(case)


@sub("C13", "nearly straight", st.tuples(anypair, anypair, st.floats(0.1, 0.9), st.floats(-5, -1.5), st.booleans(), st.sampled_from(["control", "bulge", "sagitta", "r"])).map(list), quick=500, thorough=40000)
def nearly_straight(case):
    """An arc which rises over its chord by a hundred-thousandth to a thirtieth of its length."""
    from svgio import Arc
    Arc = Twice(Arc)

    s, t, u, power, neg, way = case
    s, t = c(s), c(t)
    span = abs(t - s)
    scale = abs(s) + abs(t)
    rise = span * 10 ** power
    if span == 0 or rise < 1e-7 * scale:
        return False
    r = (rise * rise + span * span / 4) / (2 * rise)
    out = -1j * (t - s) / span * (-1 if neg else 1)  # towards the side it bulges to
    ctr = (s + t) / 2 + out * (rise - r)
    # the point of the circle over u
    k = s + (t - s) * u
    k += out * (math.sqrt(r * r - (span * (u - 0.5)) ** 2) - (r - rise))
    sign = -1 if neg else 1
    if way == "control":
        arc = Arc(start=P(s), end=P(t), control=P(k))
    elif way == "r":
        arc = Arc(start=P(s), end=P(t), r=r, ccw=neg)
    else:
        arc = Arc(start=P(s), end=P(t), **{way: sign * (rise * 2 / span if way == "bulge" else rise)})
    slack = 1e-3 * rise + 1e-8 * scale
    require(abs(pt(arc.start) - s) <= 1e-12 * scale and abs(pt(arc.end) - t) <= 1e-12 * scale, "ends %s, %s", arc.start, arc.end)
    require(abs(abs(float(arc.rx)) - r) <= 1e-3 * r + 1e-7 * scale * r / rise and abs(float(arc.rx) - float(arc.ry)) <= 1e-6 * r, "radii %r, %r, not %r", arc.rx, arc.ry, r)
    require(abs(abs(float(arc.sweep)) - 2 * math.asin(span / (2 * r))) <= 1e-3 * span / r + 1e-7 * scale / span, "it sweeps %r", arc.sweep)
    for x in TS:
        z = pt(arc.point(x))
        on = s + (t - s) * ((z - s) / (t - s)).real
        high = ((z - on) / out).real
        want = math.sqrt(max(0, r * r - abs(on - (s + t) / 2) ** 2)) - (r - rise)
        require(abs(high - want) <= slack, "point(%g) rises %r over the chord, not %r", x, high, want)
        require(abs(on - (s + (t - s) * x)) <= 2 * rise + slack, "point(%g) is over %s of the chord", x, on)
    return True


@sub("C13", "radius", st.tuples(anypair, anypair, st.one_of(st.floats(0.2, 5), nudges.map(lambda d: 1 + d)), st.sampled_from([None, True, False]), st.booleans()).map(list), quick=1500, thorough=80000)
def radius(case):
    from svgio import Arc
    Arc = Twice(Arc)

    s, t, f, ccw, pos = case
    s, t = c(s), c(t)
    if s == t:
        return False
    half = abs(t - s) / 2
    r = half * f
    k = {} if ccw is None else {"ccw": ccw}
    arc = Arc(P(s), P(t), r=r, **k) if pos else Arc(start=P(s), end=P(t), r=r, **k)
    want = max(r, half)
    scale = abs(s) + abs(t)
    tol = 1e-10 * (want + scale * (1 + scale / half))
    for u in TS:
        require(abs(abs(pt(arc.point(u)) - pt(arc.center)) - want) <= tol, "point(%g) is %r from the center, the radius is %r", u, abs(pt(arc.point(u)) - pt(arc.center)), want)
    for z, p in ((s, arc.start), (t, arc.end)):
        require(abs(z - pt(p)) <= 1e-12 * scale and abs(abs(z - pt(arc.center)) - want) <= tol, "end %s instead of %s, %r from the center", p, z, abs(z - pt(arc.center)))
    require(abs(float(arc.sweep)) <= math.pi + 1e-4, "the arc sweeps %r, more than half a turn", arc.sweep)
    near = pt(arc.point(1e-9))
    require(abs(near - s) <= 1e-5 * want + tol, "the arc does not begin at its start but at %s", near)
    require(abs(pt(arc.point(1 - 1e-9)) - t) <= 1e-5 * want + tol, "the arc does not arrive at its end but at %s", pt(arc.point(1 - 1e-9)))
    require((float(arc.sweep) < 0) == bool(ccw), "ccw=%r, but the arc sweeps %r", ccw, arc.sweep)
    return f > 1


@sub("C13", "bulge", st.tuples(anypair, anypair, st.floats(0.05, 6), st.booleans(), st.sampled_from(["bulge", "sagitta"])).map(list), quick=1000, thorough=60000)
def bulge(case):
    from svgio import Arc
    Arc = Twice(Arc)

    s, t, b, neg, way = case
    s, t = c(s), c(t)
    if s == t:
        return False
    b = -b if neg else b
    h = (t - s) / 2
    arc = Arc(start=P(s), end=P(t), **{way: b if way == "bulge" else b * abs(h)})
    scale = abs(s) + abs(t)
    tol = 1e-8 * abs(h) * (abs(b) + 1 / abs(b)) ** 2 + 1e-9 * scale * (1 + scale / abs(h)) * (abs(b) + 1 / abs(b)) ** 2
    if tol > 1e-2 * abs(h):
        return False
    require(abs(pt(arc.start) - s) <= tol and abs(pt(arc.end) - t) <= tol, "ends %s, %s", arc.start, arc.end)
    top = (s + t) / 2 - 1j * h * b
    require(abs(pt(arc.point(0.5)) - top) <= tol, "the middle of the arc is %s, its rise over the chord puts it at %s", arc.point(0.5), top)
    require(abs(abs(float(arc.sweep)) - 4 * math.atan(abs(b))) <= 1e-6 + tol / abs(h), "the arc sweeps %r, not %r", arc.sweep, 4 * math.atan(abs(b)))
    return True


@sub("C13", "quarter", st.tuples(anypair, anypair, st.sampled_from([None, True, False]), st.sampled_from([None, True, False])).map(list), quick=600, thorough=20000)
def quarter(case):
    """The corner between two points, by its two radii: bulging, or scooped when counter-clockwise."""
    from svgio import Arc
    Arc = Twice(Arc)

    s, t, ccw, scooped = case
    s, t = c(s), c(t)
    rx, ry = abs(s.real - t.real), abs(s.imag - t.imag)
    if min(rx, ry) < 1e-2 * max(rx, ry) or rx == 0 or ry == 0:
        return False
    k = {}
    if ccw is not None:
        k["ccw"] = ccw
    if scooped is not None:
        k["scooped"] = scooped
    arc = Arc(start=P(s), end=P(t), rx=rx, ry=ry, **k)
    want = -math.pi / 2 if ccw or scooped else math.pi / 2
    for ctr in (complex(s.real, t.imag), complex(t.real, s.imag)):
        u, v = s - ctr, t - ctr
        a = cmath.phase(complex(v.real / rx, v.imag / ry) / complex(u.real / rx, u.imag / ry))
        if (a > 0) == (want > 0):
            el = Ell(ctr, rx, ry, 0, cmath.phase(complex(u.real / rx, u.imag / ry)), want)
            break
    check(arc, s, t, el, 1e-9 * (abs(s) + abs(t)) * (1 + (abs(s) + abs(t)) / min(rx, ry)), "quarter arc")
    return True
