"""Generators of plain cases and conversions between svgio objects and the oracle's tuples."""
import math

from hypothesis import strategies as st

from .core import Violation, require
from .oracle.geom import Bez, Ell, svg_arc

# ------------------------------------------------------------------ numbers

ints = st.integers(-9, 9)
eighths = st.integers(-800, 800).map(lambda i: i / 8)
decimals = st.builds(lambda i, d: i / 10**d, st.integers(-99999, 99999), st.integers(0, 4))
wide = st.one_of(
    st.floats(-1e3, 1e3, allow_nan=False, allow_infinity=False, width=64),
    st.sampled_from([1e-3, -1e-3, 1e5, -1e5, 123456.789, 1e-5, 0.1, 1 / 3]),
)


def cleanf(x):
    """Plain numbers: no -0.0, nothing subnormal."""
    if isinstance(x, float):
        if x == 0 or abs(x) < 1e-9:
            return 0
    return x


num = st.one_of(ints, ints, eighths, decimals, wide).map(cleanf)
small = st.one_of(ints, eighths).map(cleanf)
pos = st.one_of(st.integers(1, 12), st.integers(1, 800).map(lambda i: i / 8), st.floats(0.01, 1e3)).map(cleanf)
pair = st.tuples(num, num).map(list)
spair = st.tuples(ints, ints).map(list)
anypair = st.one_of(spair, spair, pair)
nudges = st.builds(lambda s, k: s * 10.0**-k, st.sampled_from([1, -1, 3]), st.integers(2, 8))  # next to nothing is not nothing
rotations = st.one_of(
    st.sampled_from([0, 0, 30, 45, 90, -90, 180, 270, 360, -45, 60, 120]),
    st.integers(-400, 400),
    st.builds(lambda q, d: q * 90 + d, st.integers(-4, 4), nudges),
    st.floats(-720, 720).map(cleanf),
)
frac = st.one_of(
    st.sampled_from([0, 1, 0.5, 0.25, 0.75]), st.floats(0, 1), st.integers(0, 64).map(lambda i: i / 64)
).map(cleanf)


def c(p):
    return None if p is None else complex(p[0], p[1])


# ------------------------------------------------------------------ segment cases
# ["L", s, e] ["Z", s, e] ["Q", s, c, e] ["C", s, c1, c2, e] ["A", s, rx, ry, rot, large, sweep, e] ["M", s, e]


@st.composite
def degenerate_bezier(draw, n):
    """Control points that coincide, lie on a line, overshoot, or are axis aligned."""
    kind = draw(st.integers(0, 7))
    a = draw(anypair)
    if kind >= 6:  # the same seen from its other end, turned by half a turn (6) or mirrored (7)
        half = [a] + [draw(anypair) for _ in range((n - 1) // 2)]
        m = draw(anypair)
        back = [[2 * m[0] - x, y if kind == 7 else 2 * m[1] - y] for x, y in half[n // 2 - 1::-1]]
        pts = half[:n - len(back)] + back
    elif kind == 0:  # collinear with overshoot
        b = draw(anypair)
        ts = [draw(st.sampled_from([-2, -1, -0.5, 0, 0.25, 0.5, 1, 1.5, 2, 3])) for _ in range(n - 2)]
        pts = [a] + [[a[0] + (b[0] - a[0]) * t, a[1] + (b[1] - a[1]) * t] for t in ts] + [b]
    elif kind == 1:  # few distinct points
        pool = [a, draw(anypair), draw(anypair)]
        pts = [pool[draw(st.integers(0, 2))] for _ in range(n)]
    elif kind == 2:  # closed curve
        pts = [a] + [draw(anypair) for _ in range(n - 2)] + [a]
    elif kind == 3:  # axis aligned
        k = draw(st.integers(0, 1))
        pts = []
        for _ in range(n):
            p = list(draw(anypair))
            p[k] = a[k]
            pts.append(p)
    elif kind == 4:  # all the same
        pts = [a] * n
    else:  # uniform parameterisation (second difference zero)
        d = draw(anypair)
        pts = [[a[0] + d[0] * i, a[1] + d[1] * i] for i in range(n)]
    if draw(st.integers(0, 3)) == 3:  # all but so
        i = draw(st.integers(0, n - 1))
        pts[i] = [pts[i][0] + draw(nudges), pts[i][1] + draw(st.one_of(st.just(0), nudges))]
    return [[cleanf(x), cleanf(y)] for x, y in pts]


def bezier(n):
    free = st.lists(anypair, min_size=n, max_size=n)
    return st.one_of(free, free, degenerate_bezier(n))


lines = bezier(2).map(lambda p: ["L"] + p)
closes = bezier(2).map(lambda p: ["Z"] + p)
moves = st.tuples(st.one_of(st.none(), anypair), anypair).map(lambda t: ["M"] + list(t))
quads = bezier(3).map(lambda p: ["Q"] + p)
cubics = bezier(4).map(lambda p: ["C"] + p)


@st.composite
def arcs(draw, zero_radius=False, same_ends=False):
    s, e = draw(anypair), draw(anypair)
    if not same_ends and s == e:
        e = [s[0] + 1, s[1]]
    mode = draw(st.integers(0, 7))
    rx, ry = draw(pos), draw(pos)
    rot = draw(rotations)
    if mode == 6:  # radii that just reach, or just do not
        rx, ry = barely(s, rx, draw(st.sampled_from([rx, ry])), rot, e, draw(st.sampled_from([0.9, 0.99, 0.999, 0.9999, 1.0001, 1.01, 1.1])))
    elif mode == 0:
        ry = rx
    elif mode == 7:
        ry = rx * (1 + draw(nudges))
    elif mode == 1:  # radii that have to be scaled up
        rx, ry = rx / 1000, ry / 1000
    elif mode == 2:  # big enough radii, comparable to the chord
        d = math.hypot(e[0] - s[0], e[1] - s[1]) or 1
        rx = d * draw(st.floats(0.5, 3))
        ry = d * draw(st.floats(0.5, 3))
    elif mode == 3 and zero_radius:
        if draw(st.booleans()):
            rx = 0
        else:
            ry = 0
    return ["A", s, rx, ry, rot, draw(st.booleans()), draw(st.booleans()), e]


def barely(s, rx, ry, rot, e, f):
    """The radii scaled to f times the smallest which reach from s to e."""
    h = (complex(*e) - complex(*s)) / 2 / complex(math.cos(math.radians(rot)), math.sin(math.radians(rot)))
    lam = abs(complex(h.real / rx, h.imag / ry))
    if not 1e-6 < lam < 1e6:
        return rx, ry
    return rx * lam * f, ry * lam * f


@st.composite
def near_arcs(draw):
    """Arcs whose ends nearly coincide: hardly anything, or nearly a whole turn."""
    s = draw(st.tuples(ints, ints).map(list))
    d = 10.0 ** draw(st.integers(-9, -1))
    e = [s[0] + d * draw(st.sampled_from([1, -1, 0, 0.5])), s[1] + d * draw(st.sampled_from([1, -1, 0.3]))]
    r = draw(st.integers(1, 9))
    return ["A", s, r, r * draw(st.sampled_from([1, 2, 0.5])), draw(rotations), draw(st.booleans()), draw(st.booleans()), e]


curves = st.one_of(lines, quads, cubics, arcs())
drawn = st.one_of(lines, closes, quads, cubics, arcs())
segments_any = st.one_of(lines, closes, quads, cubics, arcs(), moves)


def make(spec):
    """The svgio segment for a segment case."""
    import svgio.path as sp

    k = spec[0]
    if k == "A":
        _, s, rx, ry, rot, la, sw, e = spec
        return sp.Arc(sp.Point(*s), rx, ry, rot, bool(la), bool(sw), sp.Point(*e))
    pts = [None if p is None else sp.Point(*p) for p in spec[1:]]
    if k == "M":
        return sp.Move(start=pts[0], end=pts[1])
    if k == "L":
        return sp.Line(*pts)
    if k == "Z":
        return sp.Close(*pts)
    if k == "Q":
        return sp.QuadraticBezier(*pts)
    if k == "C":
        return sp.CubicBezier(*pts)
    raise ValueError(k)


def ref(spec):
    """The oracle curve for a drawn segment case (None: nothing drawn)."""
    k = spec[0]
    if k == "A":
        _, s, rx, ry, rot, la, sw, e = spec
        return svg_arc(c(s), rx, ry, rot, la, sw, c(e))
    return Bez([c(p) for p in spec[1:]])


powers = st.sampled_from([-9, -6, -4, -2, 3, 5, 7, 9])


def magnified(t):
    """A segment case of quite another size."""
    spec, power = t
    f = 10.0 ** power
    big = lambda p: None if p is None else [p[0] * f, p[1] * f]  # noqa
    if spec[0] == "A":
        return ["A", big(spec[1]), spec[2] * f, spec[3] * f] + spec[4:7] + [big(spec[7])]
    return spec[:1] + [big(p) for p in spec[1:]]


# ------------------------------------------------------------------ svgio -> oracle


def pt(p, what="point"):
    """The coordinates of a svgio point as a complex number."""
    if p is None:
        return None
    try:
        x, y = float(p.x), float(p.y)
    except (AttributeError, TypeError, ValueError):
        try:
            x, y = float(p[0]), float(p[1])
        except Exception:
            raise Violation("%s is no point: %r" % (what, p))
    if not (math.isfinite(x) and math.isfinite(y)):
        raise Violation("%s is not finite: (%r, %r)" % (what, x, y))
    return complex(x, y)


def kind(seg):
    import svgio.path as sp

    for cls, k in (
        (sp.Move, "M"), (sp.Close, "Z"), (sp.Line, "L"),
        (sp.QuadraticBezier, "Q"), (sp.CubicBezier, "C"), (sp.Arc, "A"),
    ):
        if type(seg) is cls:
            return k
    raise Violation("not a path segment: %r" % (seg,))


def defining(seg):
    """(kind, start, controls..., end); for arcs (kind, start, end) only."""
    k = kind(seg)
    s, e = pt(seg.start, "start"), pt(seg.end, "end")
    if k == "Q":
        return (k, s, pt(seg.control, "control"), e)
    if k == "C":
        return (k, s, pt(seg.control1, "control1"), pt(seg.control2, "control2"), e)
    return (k, s, e)


TS = (0.0, 0.125, 0.3, 0.5, 0.77, 1.0)


def snap(seg):
    """Everything observable about a segment, exactly, for equality by value."""
    d = defining(seg)
    if d[0] == "A":
        return d + (
            pt(seg.center, "center"), float(seg.rx), float(seg.ry), float(seg.sweep),
            pt(seg.prx, "prx"), pt(seg.pry, "pry"),
        )
    return d


def geometry(seg):
    """The defining points of a segment, arcs by points along them: for comparison within a tolerance."""
    d = defining(seg)
    if d[0] == "A":
        if d[1] is None:
            return d
        return d + tuple(pt(seg.point(t), "arc point") for t in TS)
    return d


def same_geometry(a, b, tol):
    if a[0] != b[0] or len(a) != len(b):
        return False
    for x, y in zip(a[1:], b[1:]):
        if (x is None) != (y is None):
            return False
        if x is not None and not (abs(x.real - y.real) <= tol and abs(x.imag - y.imag) <= tol):
            return False
    return True


def same_place(a, b):
    """Equal as points are compared."""
    return a == b or abs(a.real - b.real) <= 1e-12 and abs(a.imag - b.imag) <= 1e-12


def connected(segs, what="path"):
    """Every segment starts where the one before ended; closes end at the last move."""
    z = None
    prev = None
    for i, s in enumerate(segs):
        d = defining(s)
        if z is None or d[0] == "M":
            z = d[-1]
        if prev is not None:
            require(prev[-1] is not None, "%s: segment %d has no end", what, i - 1)
            require(d[1] is not None, "%s: segment %d has no start", what, i)
            require(same_place(prev[-1], d[1]), "%s: segment %d starts at %s but segment %d ends at %s", what, i, d[1], i - 1, prev[-1])
        if d[0] == "Z" and z is not None:
            require(same_place(d[-1], z), "%s: close %d ends at %s, not at its subpath's start %s", what, i, d[-1], z)
        prev = d


def arc_tolerance(s, rx, ry, rot, la, sw, e, rel=1e-9):
    """How far rounding may move the points of an arc given by its ends: the center is ill-conditioned when
    the radii barely reach (square root of a cancellation) and when the ends nearly coincide."""
    s, e = complex(s), complex(e)
    r = svg_arc(s, rx, ry, rot, la, sw, e)
    scale = max(abs(s), abs(e), 1e-30)
    if not isinstance(r, Ell):
        return rel * max(scale, 1)
    size = max(scale, r.rx, r.ry, abs(r.c))
    rotv = complex(math.cos(r.phi), math.sin(r.phi))
    h = (e - s) / 2 / rotv
    h = complex(h.real / r.rx, h.imag / r.ry)
    lam = min(1.0, abs(h))
    k = math.sqrt(max(0.0, 1 - lam * lam))
    eps = 4e-16
    chord = abs(e - s)
    aspect = max(r.rx, r.ry) / min(r.rx, r.ry)
    noise = eps * (1 + scale / chord) * aspect * aspect * 8  # relative noise of lam^2
    dk = min(math.sqrt(noise), noise / k if k > 0 else 1) + noise / max(lam, 1e-300)
    return rel * size + 16 * max(r.rx, r.ry) * dk + 64 * eps * size * aspect


def compare_arc(arc, s, rx, ry, rot, la, sw, e, what="arc"):
    """The svgio arc must be the arc of the specification with these parameters."""
    s, e = complex(s), complex(e)
    r = svg_arc(s, rx, ry, rot, la, sw, e)
    require(pt(arc.start) == s, "%s starts at %s, not %s", what, pt(arc.start), s)
    require(pt(arc.end) == e, "%s ends at %s, not %s", what, pt(arc.end), e)
    if r is None:
        for t in TS:
            p = pt(arc.point(t))
            require(abs(p - s) <= 1e-9 * (1 + abs(s)), "%s between coinciding ends draws %s at t=%g", what, p, t)
        return
    tol = arc_tolerance(s, rx, ry, rot, la, sw, e)
    if tol > 1e-3 * (1 + max(abs(rx), abs(ry))):
        return  # too ill-conditioned to say anything
    for t in TS:
        p, q = pt(arc.point(t)), r.at(t)
        require(abs(p - q) <= tol, "%s is at %s for t=%g, the specification says %s (tolerance %g)", what, p, t, q, tol)


# ------------------------------------------------------------------ path cases
# a list of commands with absolute coordinates plus a relative flag for each:
# [letter, args...] where args are pairs or numbers; letter in MLHVQTCSAZ


@st.composite
def path_commands(draw, min_size=1, max_size=8, letters="MLHVQTCSAZ", start_move=True, coords=None, zero_radius=False):
    p = coords or anypair
    n = draw(st.integers(min_size, max_size))
    out = []
    pool = [draw(p) for _ in range(3)]
    again = st.integers(0, 2).map(lambda i: pool[i])
    pick = st.one_of(p, again)
    if coords is None and draw(st.integers(0, 3)) == 3:  # almost back
        pick = st.one_of(p, again, st.tuples(again, nudges, st.one_of(st.just(0), nudges)).map(lambda t: [cleanf(t[0][0] + t[1]), cleanf(t[0][1] + t[2])]))
    for i in range(n):
        k = "M" if (start_move and i == 0) else draw(st.sampled_from(letters))
        if k == "Z":
            if coords is None and "L" in letters and draw(st.integers(0, 11)) == 7:  # a close over next to nothing
                m = next((o[1] for o in reversed(out) if o[0] == "M"), None)
                if m is not None:
                    out.append(["L", [cleanf(m[0] + draw(nudges)), m[1]]])
            out.append(["Z"])
        elif k in "HV":
            out.append([k, draw(pick)[0]])
        elif k in "MLT":
            out.append([k, draw(pick)])
        elif k in "QS":
            out.append([k, draw(pick), draw(pick)])
        elif k == "C":
            out.append([k, draw(pick), draw(pick), draw(pick)])
        else:
            a = draw(arcs(zero_radius=zero_radius))
            out.append(["A", a[2], a[3], a[4], a[5], a[6], draw(pick)])
    return out


def g(x):
    """Shortest decimal text of a number, plain enough for every reader (no trailing dot)."""
    if isinstance(x, bool):
        return "1" if x else "0"
    if isinstance(x, int):
        return str(x)
    t = repr(float(x))
    return t[:-2] if t.endswith(".0") else t


def path_text(commands):
    """Absolute path data of a list of commands."""
    parts = []
    for cmd in commands:
        words = [cmd[0]]
        for a in cmd[1:]:
            words.append("%s,%s" % (g(a[0]), g(a[1])) if isinstance(a, list) else g(a))
        parts.append(" ".join(words))
    return " ".join(parts)


def snapshot(path):
    return [snap(s) for s in path]


def geometries(path):
    return [geometry(s) for s in path]


def twin(s):
    """A segment of the same points and flags, made of plain numbers."""
    import svgio.path as sp

    def at(p):
        return None if p is None else sp.Point(p.x, p.y)

    k = kind(s)
    if k == "M":
        t = sp.Move(start=at(s.start), end=at(s.end))
    elif k == "Q":
        t = sp.QuadraticBezier(at(s.start), at(s.control), at(s.end))
    elif k == "C":
        t = sp.CubicBezier(at(s.start), at(s.control1), at(s.control2), at(s.end))
    elif k == "A":
        t = sp.Arc(at(s.start), at(s.end), at(s.center), at(s.prx), at(s.pry), s.sweep)
    else:
        t = type(s)(at(s.start), at(s.end))
    t.relative = s.relative
    if hasattr(s, "smooth"):
        t.smooth = s.smooth
    return t


def remade(p):
    """A path of such segments under a matrix of the same numbers: it has no past."""
    from svgio import Matrix, Path

    q = Path([twin(s) for s in p])
    q.transform = Matrix(*[p.transform[i] for i in range(6)])
    return q


matrices = st.one_of(
    st.tuples(small, small, small, small, small, small).map(list),
    st.tuples(num, num, num, num, num, num).map(list),
)


def well_conditioned(m, limit=1e4):
    a, b, cc, d = m[:4]
    det = a * d - b * cc
    n = max(abs(a), abs(b), abs(cc), abs(d))
    return n > 0 and abs(det) > n * n / limit and 1e-4 < n < 1e6


@st.composite
def invertible(draw):
    kind_ = draw(st.integers(0, 6))
    if kind_ == 0:
        a = math.radians(draw(rotations))
        m = [math.cos(a), math.sin(a), -math.sin(a), math.cos(a), 0, 0]
    elif kind_ == 1:
        m = [draw(st.sampled_from([1, -1, 2, 0.5, -3])), 0, 0, draw(st.sampled_from([1, -1, 2, 0.5, -3])), 0, 0]
    elif kind_ == 2:
        m = [1, draw(st.sampled_from([0, 0.5, -1, 2])), draw(st.sampled_from([0, 0.5, -1, 2, 0.3])), 1, 0, 0]
    elif kind_ == 3:  # next to nothing is not nothing
        m = [1, 0, 0, 1, 0, 0]
        for i in range(draw(st.integers(0, 2))):
            m[draw(st.integers(0, 3))] += draw(st.sampled_from([1e-4, 1e-6, 1e-7, 1e-8])) * draw(st.sampled_from([1, -1]))
    elif kind_ == 4:
        m = [0, draw(st.sampled_from([1, -1, 2])), draw(st.sampled_from([1, -1, 3])), 0, 0, 0]
    else:
        m = draw(matrices)
    if not well_conditioned(m):
        m = [2, 1, -1, 3, 0, 0]
    if draw(st.booleans()):
        if kind_ == 3:
            m[4], m[5] = draw(st.sampled_from([0, 1e-5, -1e-7, 1e-8])), draw(st.sampled_from([0, -1e-5, 1e-7, 1e-8]))
        else:
            m[4], m[5] = draw(num), draw(num)
    return m


def mapped(m, z):
    return complex(m[0] * z.real + m[2] * z.imag + m[4], m[1] * z.real + m[3] * z.imag + m[5])


def mul(a, b):
    """The matrix applying a first, then b."""
    return [
        b[0] * a[0] + b[2] * a[1], b[1] * a[0] + b[3] * a[1],
        b[0] * a[2] + b[2] * a[3], b[1] * a[2] + b[3] * a[3],
        b[0] * a[4] + b[2] * a[5] + b[4], b[1] * a[4] + b[3] * a[5] + b[5],
    ]


def closes_end_subpaths(path):
    """Each close is the last of the path or followed by a move."""
    k = [kind(s) for s in path]
    return all(b == "M" for a, b in zip(k, k[1:]) if a == "Z")
