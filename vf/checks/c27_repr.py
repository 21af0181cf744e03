"""C27: the printed representation of a value evaluates back to that value."""
import math

from hypothesis import strategies as st

from ..big import STYLES, big_commands
from ..common import (anypair, c, cleanf, defining, drawn, geometry, kind, make, near_arcs, num, path_commands, path_text, rotations,
                      same_geometry, segments_any, snap)
from ..core import require, rule, sub
from .c15_matrices import anymatrix, coefficients
from .c18_lengths_units import ALL
from .c19_colour_text import channels
from .c20_colour_components import colour

rule("C27", "cases are values of each kind; non-trivial: some component is not an integer, or is missing, or is large or tiny")

# anything finite that twelve decimals can tell from nothing
precise = st.one_of(
    num, st.floats(-1e6, 1e6, allow_nan=False), st.sampled_from([1 / 3, 2 / 3, -1 / 7, 1e-12, 1e-11, -1e-9, 1e9, 1e12 + 0.5, -1e15, 1e20, 0.1 + 0.2, 1e16 / 3, 1e-7, 123456.7891234567, 0.0, -0.0]),
)
ppair = st.tuples(precise, precise).map(list)
PRINTED = 1e-12  # a component printed with twelve decimals is off by half of this at most, or by its own last bit


def names():
    ns = {}
    exec("from svgio import *", ns)
    return ns


def back(value, what):
    """eval(repr(value)), equal to it both ways."""
    text = repr(value)
    require(isinstance(text, str), "repr of %s is no text", what)
    try:
        out = eval(text, names())
    except Exception as e:
        require(False, "the repr of %s, %s, raises %s: %s", what, text, type(e).__name__, e)
    require(out == value and value == out, "the repr of %s, %s, evaluates to %r, which is not equal to it", what, text, out)
    ne = out != value
    require(not ne, "the repr of %s, %s, evaluates to something both equal and unequal", what, text)
    require(repr(value) == text, "the repr of %s changed from %s to %s", what, text, repr(value))
    return out


def near(a, b):
    return abs(a - b) <= PRINTED + 4e-16 * abs(b)


def fine(*xs):
    return any(x is None or x != int(x) or abs(x) >= 1e9 for x in xs)


@sub("C27", "points", ppair, quick=1500, thorough=100000)
def points(case):
    from svgio import Point

    x, y = case
    p = Point(x, y)
    q = back(p, "Point(%r, %r)" % (x, y))
    require(type(q) is Point and near(q.x, x) and near(q.y, y), "the repr of Point(%r, %r) evaluates to (%r, %r)", x, y, q.x, q.y)
    require(p.x == x and p.y == y, "repr changed a point")
    return fine(x, y)


@sub("C27", "angles", st.tuples(st.sampled_from(["degrees", "radians", "gradians", "turns"]), st.one_of(precise.filter(lambda x: abs(x) < 1e4), rotations)).map(list), quick=1000, thorough=50000)
def angles(case):
    from svgio import Angle

    unit, v = case
    a = getattr(Angle, unit)(v)
    b = back(a, "Angle.%s(%r)" % (unit, v))
    require(type(b) is Angle and near(float(b), float(a)), "the repr of Angle.%s(%r), %r, evaluates to %r", unit, v, a, b)
    return fine(v)


@sub("C27", "lengths", st.tuples(st.one_of(precise, num), st.sampled_from(ALL), st.integers(0, 2)).map(list), quick=1500, thorough=80000)
def lengths(case):
    from svgio import Length

    x, unit, form = case
    if form == 0:
        l = Length("%.13f%s" % (x, unit))
    else:
        l = Length(x, unit) if unit else Length(x)
    before = (l.amount, l.units)
    m = back(l, "Length(%r, %r)" % (x, unit))
    require(type(m) is Length and m.units == l.units and near(m.amount, l.amount), "the repr of Length(%r, %r), %r, evaluates to %r%s", x, unit, l, m.amount, m.units)
    require((l.amount, l.units) == before, "repr changed a length")
    return fine(x)


@sub("C27", "colours", st.one_of(colour, st.none()), quick=1500, thorough=100000)
def colours(case):
    from svgio import Color

    if case is None:
        for col in (Color("none"), Color(None)):
            out = back(col, "the colour none")
            require(out.value is None, "the repr of the colour none evaluates to %r", out.value)
        return True
    col = Color(*case)
    out = back(col, "Color%r" % (tuple(case),))
    require(type(out) is Color and channels(out) == tuple(case) == channels(col), "the repr of Color%r evaluates to %r", tuple(case), channels(out))
    return case[3] != 255 or len(set(case)) > 2


lengthy = st.one_of(num, num, st.tuples(num, st.sampled_from(["px", "pt", "mm", "cm", "in", "%", "em"])).map(list))


@sub("C27", "matrices", st.one_of(
    anymatrix, st.lists(precise, min_size=6, max_size=6),
    st.tuples(num, num, num, num, lengthy, lengthy).map(list),
), quick=1500, thorough=80000)
def matrices(case):
    from svgio import Length, Matrix

    args = [("%s%s" % (repr(v[0]), v[1]) if isinstance(v, list) else v) for v in case]
    m = Matrix(*args)
    before = [m.a, m.b, m.c, m.d] + [(x.amount, x.units) if isinstance(x, Length) else x for x in (m.e, m.f)]
    n = back(m, "Matrix%r" % (tuple(args),))
    require(type(n) is Matrix, "the repr of a matrix evaluates to a %s", type(n).__name__)
    after = [m.a, m.b, m.c, m.d] + [(x.amount, x.units) if isinstance(x, Length) else x for x in (m.e, m.f)]
    require(after == before, "repr changed a matrix")
    for i, name in enumerate("abcdef"):
        u, v = getattr(n, name), getattr(m, name)
        if isinstance(v, Length):
            require(isinstance(u, Length) and u.units == v.units and near(u.amount, v.amount), "%s of %r evaluates to %r", name, m, u)
        else:
            require(not isinstance(u, Length) and near(u, v), "%s of %r evaluates to %r", name, m, u)
    for i in range(6):  # equality tells matrices apart
        other = list(args)
        other[i] = other[i] + 1 if not isinstance(other[i], str) else "%r%s" % (case[i][0] + 1, case[i][1])
        if abs(case[i][0] if isinstance(case[i], list) else case[i]) < 1e9:
            require(not (Matrix(*other) == m) and m != Matrix(*other), "Matrix%r is equal to %r", tuple(other), m)
    return any(isinstance(v, list) or fine(v) for v in case)


opt = st.one_of(st.none(), ppair)


@st.composite
def fields(draw):
    """Segments from unrestricted points, with missing ones where a segment may lack them."""
    k = draw(st.sampled_from("MZLQC"))
    n = {"M": 0, "L": 0, "Z": 0, "Q": 1, "C": 2}[k]
    mid = [draw(ppair) for _ in range(n)]
    return [k, draw(opt)] + mid + [draw(opt) if k in "ZL" else draw(ppair)]


def off(a, b):
    """Two defining forms agree up to what is printed."""
    if a[0] != b[0] or len(a) != len(b):
        return True
    for x, y in zip(a[1:], b[1:]):
        if (x is None) != (y is None):
            return True
        if x is not None and not (near(x.real, y.real) and near(x.imag, y.imag)):
            return True
    return False


@sub("C27", "segments", st.tuples(st.one_of(segments_any, fields(), fields(), near_arcs()), st.booleans(), st.booleans()).map(list), quick=2000, thorough=120000)
def segments(case):
    spec, relative, smooth = case
    s = make(spec)
    s.relative = relative
    if smooth:
        s.smooth = True
    before = snap(s)
    t = back(s, "the segment %r" % (spec,))
    require(type(t) is type(s), "the repr of a %s evaluates to a %s", type(s).__name__, type(t).__name__)
    require(not off(defining(t), defining(s)), "the repr of %r evaluates to %s, not %s", spec, defining(t), defining(s))
    if spec[0] == "A":
        # the same ellipse and the same part of it
        big = max(abs(x) for x in before[3:4] + (before[4], before[5]) + before[1:3])
        require(abs(pt_(t.center) - pt_(s.center)) <= 3e-12 + 1e-14 * big and abs(t.rx - s.rx) <= 3e-12 + 1e-14 * big and abs(t.ry - s.ry) <= 3e-12 + 1e-14 * big,
                "the repr of %r has the center %s and radii %r, %r, not %s, %r, %r", spec, pt_(t.center), t.rx, t.ry, pt_(s.center), s.rx, s.ry)
        require(t.sweep == s.sweep, "the repr of %r has the sweep %r, not %r", spec, t.sweep, s.sweep)
        r = min(s.rx, s.ry)
        if r > 1e-3:
            tol = 1e-11 * (1 + max(s.rx, s.ry) / r) + 1e-14 * big
            require(same_geometry(geometry(t), geometry(s), tol * 10), "the repr of %r traces %s, not %s", spec, geometry(t), geometry(s))
    require(snap(s) == before and s.relative is relative, "repr changed %r", spec)
    return any(p is None or isinstance(p, list) and fine(*p) for p in spec[1:])


def pt_(p):
    return complex(p.x, p.y)


@sub("C27", "paths", st.tuples(
    st.one_of(path_commands(min_size=0, max_size=8), st.lists(st.one_of(fields(), segments_any), max_size=5)),
    st.one_of(st.none(), anymatrix), st.integers(0, 5),
).map(list), quick=1200, thorough=60000)
def paths(case):
    from svgio import Matrix, Path

    items, m, k = case
    spec = any(len(i) > 1 and i[0] != "H" and i[0] != "V" and len(i) >= 3 and i[0] in "MLZ" for i in items) or any(i and i[0] == "Z" and len(i) == 3 for i in items)
    if spec or any(i[0] in "QC" and len(i) == {"Q": 4, "C": 5}[i[0]] for i in items) or any(i[0] == "A" and len(i) == 8 for i in items):
        if not all(len(i) == {"M": 3, "L": 3, "Z": 3, "Q": 4, "C": 5, "A": 8}.get(i[0]) for i in items):
            return False
        p = Path(*[make(i) for i in items])
    else:
        p = Path(path_text(items))
    if m is not None:
        p = p * Matrix(*m)
    before = [snap(s) for s in p]
    text = repr(p)
    q = back(p, "a path of %d segments" % len(before))
    require(type(q) is Path and len(q) == len(p), "%s evaluates to a %s of %d segments", text, type(q).__name__, len(q))
    for s, t in zip(p.segments(), q):
        require(not off(defining(t), defining(s)), "in %s, %s evaluates to %s", text, defining(s), defining(t))
    require([snap(s) for s in p] == before and repr(p) == text, "repr changed a path")
    if len(p) and m is None:
        n = p.count_subpaths()
        sp = p.subpath(k % n)
        out = eval(repr(sp), names())
        require(out == sp and sp == out, "the repr of a subpath, %r, is not equal to it", sp)
        require(len(out) == len(list(sp)), "the repr of a subpath has %d segments, not %d", len(out), len(list(sp)))
    return len(before) > 1


@sub("C27", "long paths", st.tuples(big_commands(12, 50, styles=STYLES), st.one_of(st.none(), anymatrix), st.integers(0, 40)).map(list), quick=80, thorough=5000)
def long_paths(case):
    return paths(case)
