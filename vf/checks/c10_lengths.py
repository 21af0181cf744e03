"""C10: segment lengths equal the arc length of the curve."""
import math

from hypothesis import strategies as st

from ..alive import changed_segments, changing
from ..common import anypair, arcs, arc_tolerance, c, closes, cubics, kind, lines, magnified, make, moves, near_arcs, pos, powers, pt, quads, ref
from ..core import require, rule, sub, without
from ..oracle.geom import Bez, Ell
from ..spoil import Twice
from .c09_evaluation import build, ellipses

rule("C10", "cases are single segments with an accuracy; non-trivial: the curve is no straight line from start to end "
     "(its length exceeds the chord)")

all_arcs = st.one_of(arcs(), arcs(), near_arcs(), arcs(zero_radius=True, same_ends=True))
every = st.one_of(lines, closes, quads, quads, cubics, cubics, all_arcs)
accuracy = st.sampled_from([None, None, 1e-12, 1e-9, 1e-6, 1e-3, 0.1])


def params(spec):
    return (c(spec[1]),) + tuple(spec[2:7]) + (c(spec[7]),)


def truth(spec):
    """(length, uncertainty) of the curve."""
    r = ref(spec)
    if r is None:
        return 0.0, 0.0
    n, err = r.length()
    tol = err + 1e-11 * r.size()
    if spec[0] == "A":
        tol += 8 * arc_tolerance(*params(spec))
    else:
        tol += 1e-15 * max(abs(c(p)) for p in spec[1:] if p is not None)  # what coordinates are rounded to
    return n, tol


def general(spec, got, want, chord, tol, what):
    require(isinstance(got, float) or not math.isnan(got), "%s is %r", what, got)
    require(math.isfinite(got) and got >= 0, "%s is %r", what, got)
    require(got >= chord - tol - 1e-12 * (1 + chord), "%s is %r, shorter than the chord %r", what, got, chord)
    require(abs(got - want) <= tol, "%s is %r, the curve is %r long (tolerance %g)", what, got, want, tol)


@sub("C10", "lengths", st.tuples(every, accuracy).map(list), quick=3000, thorough=200000, weight=3)
def lengths(case):
    spec, error = case
    s = make(spec)
    want, tol = truth(spec)
    if tol > 1e-2 * (1 + want):
        return False
    chord = abs(c(spec[-1]) - c(spec[1]))
    k = {} if error is None else {"error": error}
    got = float(s.length(**k))
    # the quadrature for cubics is adaptive; everything else is closed form
    quad = max(1e-7 * want, 4 * (error or 1e-12)) if spec[0] == "C" else 1e-9 * want
    general(spec, got, want, chord, tol + quad, "length of %s" % spec[0])
    if spec[0] not in "CA":
        with without("scipy", "numpy"):
            got = float(s.length(**k))
        general(spec, got, want, chord, tol + 1e-9 * want, "length of %s without scipy" % spec[0])
    return want > chord * (1 + 1e-9) + tol


@sub("C10", "magnitudes", st.tuples(st.tuples(st.one_of(lines, closes, quads, cubics, cubics, arcs()), powers).map(magnified), st.sampled_from([None, 1e-12])).map(list), quick=800, thorough=40000)
def magnitudes(case):
    return lengths(case)


@sub("C10", "nearly_even", st.tuples(anypair, anypair, st.integers(-40, 10), st.sampled_from([1, -1]), st.floats(-3.2, 3.2), st.sampled_from(["Q", "C"])).map(list), quick=600, thorough=30000)
def nearly_even(case):
    """Curves close to a line run through evenly, on either side of where formulas change over."""
    s, v, power, sign, turn, letter = case
    s, v = c(s), c(v)
    size = abs(v)
    if not 1e-2 < size < 1e4:
        return False
    # second difference of the controls, against the chord
    w = sign * v * 10.0 ** (power / 8) * complex(math.cos(turn), math.sin(turn))
    pts = [s, s + v, s + 2 * v + w] if letter == "Q" else [s, s + v, s + 2 * v + w, s + 3 * v + 2 * w]
    spec = [letter] + [[z.real, z.imag] for z in pts]
    want, tol = truth(spec)
    seg = make(spec)
    chord = abs(pts[-1] - pts[0])
    general(spec, float(seg.length()), want, chord, tol + 1e-9 * want + (1e-7 * want if letter == "C" else 0), "length of %s" % letter)
    return want > chord * (1 + 1e-12)


@sub("C10", "full_arcs", ellipses(), quick=1500, thorough=80000)
def full_arcs(case):
    """Arcs in center form: sweeps up to and beyond a whole turn."""
    e = list(case)
    arc, el = build(e)
    want, err = el.length()
    asp = max(el.rx, el.ry) / min(el.rx, el.ry)
    tol = err + 1e-10 * (want + abs(el.c)) * asp * asp
    general(e, float(arc.length()), want, abs(el.end - el.start), tol, "length of an arc")
    arc.reverse()
    general(e, float(arc.length()), want, abs(el.end - el.start), tol, "length of a reversed arc")
    return abs(e[5]) > 0.1


@sub("C10", "whole_turns", st.tuples(anypair, pos, st.sampled_from([1, 2, 0.5, 0.1, 1.001, 5]), st.booleans(), st.integers(-9, 9)).map(list), quick=300, thorough=10000)
def whole_turns(case):
    ctr, rx, ratio, neg, eighth = case
    if rx > 200:
        return False
    arc, el = build([ctr, rx, rx * ratio, 0, eighth * math.pi / 4, -2 * math.pi if neg else 2 * math.pi])
    arc.end = arc.start
    want, _ = el.length()
    tol = 1e-7 * (want + abs(el.c)) * max(ratio, 1 / ratio) ** 2
    general(case, float(arc.length()), want, 0, tol, "length of a whole ellipse")
    from svgio import Angle, Arc, Point

    p = Point(el.start.real, el.start.imag)
    arc = Arc(p, p, Point(el.c.real, el.c.imag), prx=arc.prx, pry=arc.pry, sweep=Angle.turns(-1 if neg else 1))
    general(case, float(arc.length()), want, 0, tol, "length of a whole turn given as an Angle")
    return True


@sub("C10", "flat", st.tuples(anypair, pos, st.integers(1, 5), st.booleans(), st.integers(-8, 8), st.sampled_from([-3, -2, -1, 1, 2, 3, 1.5, -0.5, 0.25, 1.25]), st.integers(0, 23)).map(list), quick=600, thorough=30000)
def flat(case):
    """Ellipses of which hardly one axis is left, run around any number of times."""
    from svgio import Arc, Point

    ctr, rx, power, upright, start, turns, tilt = case
    if rx > 500:
        return False
    ry = rx * 10.0 ** -power
    if upright:
        rx, ry = ry, rx
    size = max(rx, ry)
    ctr = c(ctr)
    u = complex(math.cos(tilt * math.pi / 12), math.sin(tilt * math.pi / 12))
    a, sweep = start * math.pi / 4, turns * 2 * math.pi

    def at(t):
        return ctr + u * complex(rx * math.cos(t), ry * math.sin(t))

    def P(z):
        return Point(z.real, z.imag)

    start, end = at(a), at(a) if turns == int(turns) else at(a + sweep)
    arc = Arc(P(start), P(end), P(ctr), P(ctr + rx * u), P(ctr + ry * u * 1j), sweep)
    n, err = Ell(ctr, rx, ry, math.atan2(u.imag, u.real), a, sweep).length()
    # the points carry the directions of the axes and the start only so exactly: by the aspect squared
    tol = err + 1e-7 * n + 1e-10 * (size + abs(ctr)) + 4e-15 * (size + abs(ctr)) * (size / min(rx, ry)) ** 2
    if tol > 1e-3 * n:
        return False
    general(case, float(arc.length()), n, abs(end - start), tol, "length of a flat ellipse run around %s times" % turns)
    return True


@sub("C10", "fallback", st.tuples(st.one_of(quads, cubics, cubics, all_arcs), st.sampled_from([1e-4, 1e-5, 1e-6])).map(list), quick=150, thorough=6000, weight=2)
def fallback(case):
    """Without scipy curves are subdivided into chords: near, and never longer than the curve."""
    spec, rel = case
    s = make(spec)
    want, tol = truth(spec)
    r = ref(spec)
    if r is None or tol > 1e-6 * (1 + want) or r.size() == 0:
        return False
    if isinstance(r, Ell) and max(r.rx, r.ry) > 1e3 * min(r.rx, r.ry):
        return False
    chord = abs(c(spec[-1]) - c(spec[1]))
    error = rel * r.size()
    with without("scipy", "numpy"):
        got = float(s.length(error=error))
    require(got <= want * (1 + 1e-9) + tol, "without scipy the length %r exceeds that of the curve, %r", got, want)
    general(spec, got, want, chord, tol + 300 * error + 2e-3 * r.size(), "length of %s without scipy" % spec[0])
    if isinstance(s, type(None)):
        return False
    return want > chord * (1 + 1e-6) + tol


@sub("C10", "moves", moves, quick=100, thorough=1000)
def move_length(spec):
    s = make(spec)
    require(s.length() == 0, "a move has the length %r", s.length())
    with without("scipy", "numpy"):
        require(s.length() == 0, "a move has the length %r", s.length())
    return spec[1] is not None and spec[1] != spec[2]


@sub("C10", "after changes", changed_segments, quick=400, thorough=20000)
def after_changes(case):
    """The length is that of the curve as it is now, whatever it was when last measured."""
    return changing(case, [("length()", lambda s: s.length(error=1e-6)), ("length(error=0.01)", lambda s: s.length(error=1e-2))])
