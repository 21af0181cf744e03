"""What a changed object answers is what a new one of the same state answers: nothing it told earlier is left over."""
from hypothesis import strategies as st

from .common import anypair, arcs, cubics, invertible, kind, lines, make, pt, quads
from .core import require

NAMES = {"L": ("start", "end"), "Q": ("start", "control", "end"), "C": ("start", "control1", "control2", "end")}


def outcome(f):
    """What a call gives, as plain values: numbers, strings and lists of them; or the error's name."""
    try:
        v = f()
    except Exception as e:  # compared, not judged
        return type(e).__name__
    return plain(v)


def plain(v):
    from svgio import Point

    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, (int, float, complex)):
        return complex(v)
    if isinstance(v, Point):
        return complex(v.x, v.y)
    if hasattr(v, "tolist"):
        return plain(v.tolist())
    if isinstance(v, dict):
        return [[plain(a), plain(b)] for a, b in sorted(v.items())]
    try:
        return [plain(x) for x in v]
    except TypeError:
        return repr(v)


def alike(a, b):
    """The same up to rounding: nothing says how a number is worked out."""
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if type(a) is complex and type(b) is complex:
        return repr(a) == repr(b) or abs(a - b) <= 1e-10 * (abs(a) + abs(b)) + 1e-12
    return a == b


def unchanged_answers(obj, new, calls, what):
    """calls: (name, function of the object)."""
    for name, f in calls:
        a, b = outcome(lambda: f(obj)), outcome(lambda: f(new))
        require(alike(a, b), "%s: %s is %s, of a new one the same %s", what, name, a, b)


def renewed(s):
    """A new segment of the same state."""
    from svgio import Arc, CubicBezier, Line, Point, QuadraticBezier

    k = kind(s)
    if k == "A":
        new = Arc(Point(s.start), Point(s.end), Point(s.center), Point(s.prx), Point(s.pry), s.sweep)
    else:
        new = {"L": Line, "Q": QuadraticBezier, "C": CubicBezier}[k](*[pt(getattr(s, n)) for n in NAMES[k]])
    return new


change = st.tuples(st.sampled_from(["set", "shift", "shift", "mul", "rev"]), st.integers(0, 3),
                   st.one_of(anypair, st.tuples(st.sampled_from([0, 0, 1, -0.5, 1e-3, -1e-7]), st.sampled_from([0, 1, 0.25, 1e-4, 1e-9])).map(list)),
                   invertible(), st.booleans()).map(list)
changed_segments = st.tuples(st.one_of(lines, quads, cubics, cubics, arcs()), st.lists(change, min_size=1, max_size=5)).map(list)


def changing(case, calls):
    """Reads, changes, reads again, against a new segment each time; whether any answer changed."""
    from svgio import Matrix, Point

    spec, ops = case
    s = make(spec)
    k = kind(s)
    told = [outcome(lambda: f(s)) for _, f in calls]
    seen = False
    said = []
    for op, i, xy, m, read in ops:
        if op in ("set", "shift") and k == "A":
            continue  # an arc whose ends are moved is none of its ellipse
        name = NAMES[k][i % len(NAMES[k])] if k != "A" else None
        if op == "set":
            setattr(s, name, Point(*xy))
        elif op == "shift":
            p = getattr(s, name)
            p.x += xy[0]
            p.y += xy[1]
        elif op == "mul":
            s *= Matrix(*m)
        else:
            s.reverse()
        said.append(op)
        if read:
            unchanged_answers(s, renewed(s), calls, "%s after %s" % (type(s).__name__, " ".join(said)))
            seen = seen or not alike(told, [outcome(lambda: f(s)) for _, f in calls])
    unchanged_answers(s, renewed(s), calls, "%s after %s" % (type(s).__name__, " ".join(said)))
    return seen or not alike(told, [outcome(lambda: f(s)) for _, f in calls])
