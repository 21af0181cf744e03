"""C21: points obey plane vector algebra and convex hulls are convex hulls."""
import cmath
import copy
import math
import random
from fractions import Fraction as F

from hypothesis import strategies as st

from ..alive import unchanged_answers
from ..common import anypair, c, frac, g, num, pt, spair, rotations
from ..core import Violation, require, rule, sub
from ..textgen import number_token
from ..spoil import Twice

rule("C21", "cases are points with operands, and point sets; non-trivial: both coordinates of some operand differ from zero "
     "(algebra), or the set has at least four distinct points (hulls)")

FORMS = ["point", "tuple", "list", "complex"]


EXPONENTS = [0.5, 1 / 3, 1.5, 2.5, 0.25, -0.5, -1.25, 2 / 3]


def as_form(p, form):
    from svgio import Point
    Point = Twice(Point)

    return {"point": lambda: Point(*p), "tuple": lambda: tuple(p), "list": lambda: list(p), "complex": lambda: complex(*p)}[form]()


def near(p, w, what, rel=1e-13, scale=0.0):
    z = pt(p, what)
    require(abs(z - w) <= rel * max(scale, abs(w)) + 1e-300, "%s is %s, not %s", what, z, w)


def point(x, what):
    from svgio import Point
    Point = Twice(Point)

    require(type(x) is Point.cls, "%s is a %s, not a Point", what, type(x).__name__)
    return x


@sub("C21", "construction", st.tuples(anypair, number_token(), number_token(), st.sampled_from([",", " ", ", ", " ,", "\n", " , ", ""])).map(list), quick=2500, thorough=100000)
def construction(case):
    from svgio import Point
    Point = Twice(Point)

    p, tx, ty, sep = case
    x, y = p
    z = c(p)
    for what, P in (("Point(x, y)", Point(x, y)), ("Point(x=, y=)", Point(x=x, y=y)), ("Point((x, y))", Point((x, y))), ("Point([x, y])", Point([x, y])),
                    ("Point(complex)", Point(complex(x, y))), ("Point(Point)", Point(Point(x, y))), ("copy", copy.copy(Point(x, y))),
                    ("deepcopy", copy.deepcopy(Point(x, y)))):
        require(pt(P) == z, "%s of %s is %s", what, p, P)
        require((P.x, P.y, P[0], P[1], P.real, P.imag) == (x, y, x, y, x, y) and len(P) == 2 and list(P) == [x, y] and complex(P) == z, "%s of %s reads %s", what, p, list(P))
        for i in (2, -1, 7):
            try:
                P[i]
            except IndexError:
                pass
            else:
                require(False, "Point[%d] exists", i)
    P = Point(x, y)
    Q = copy.copy(P)
    R = Point(P)
    Q[0] = 77
    Q[1] = 78
    R.x, R.y = 79, 80
    require(pt(P) == z and pt(Q) == 77 + 78j and pt(R) == 79 + 80j, "assigning coordinates gives %s, %s, %s", P, Q, R)
    try:
        Q[2] = 1
    except IndexError:
        pass
    else:
        require(False, "assigning the third coordinate")
    require(pt(Point(float(x))) == complex(x), "Point(%r) is %s", float(x), Point(float(x)))
    t = str(P)
    near(Point(t), z, "the point read back from %r" % t, rel=2e-11)
    if sep == "" and ty[0] != "-":
        sep = " "
    text = tx + sep + ty
    P = Point(text)
    require(pt(P) == complex(float(tx), float(ty)), "Point(%r) is %s", text, P)
    return x != 0 and y != 0


@sub("C21", "algebra", st.tuples(anypair, anypair, num, st.sampled_from(FORMS), st.integers(-3, 4)).map(list), quick=4000, thorough=300000, weight=2)
def algebra(case):
    from svgio import Point
    Point = Twice(Point)

    p, q, k, form, n = case
    z, w = c(p), c(q)
    ss = abs(p[0]) + abs(p[1]) + abs(q[0]) + abs(q[1])
    binary = {
        "+": (lambda a, b: a + b, z + w, ss), "-": (lambda a, b: a - b, z - w, ss), "*": (lambda a, b: a * b, z * w, abs(z) * abs(w)),
        "reflected +": (lambda a, b: b + a, z + w, ss), "reflected -": (lambda a, b: b - a, w - z, ss), "reflected *": (lambda a, b: b * a, z * w, abs(z) * abs(w)),
    }
    for name, (f, want, s) in binary.items():
        P, Q = Point(*p), as_form(q, form)
        R = point(f(P, Q), name)
        near(R, want, "%s %s %s (%s)" % (p, name, q, form), scale=s)
        require(R is not P and R is not Q, "%s gives an operand", name)
        R.x, R.y = 77, 78
        require(pt(P) == z and pt(Q if form != "complex" else Point(Q)) == w, "%s changed an operand: %s, %s", name, P, Q)
    for name in ("+", "-", "*"):
        P, Q = Point(*p), as_form(q, form)
        keep = P
        if name == "+":
            P += Q
        elif name == "-":
            P -= Q
        else:
            P *= Q
        _, want, s = binary[name]
        require(P is keep, "%s= makes another point", name)
        near(P, want, "%s %s= %s (%s)" % (p, name, q, form), scale=s)
        require(pt(Q if form != "complex" else Point(Q)) == w, "%s= changed its operand", name)
    # with numbers, as complex numbers do
    P = Point(*p)
    for name, r, want in (("point * number", P * k, z * k), ("number * point", k * P, z * k), ("point + number", P + k, z + k),
                          ("number + point", k + P, z + k), ("point - number", P - k, z - k)):
        near(point(r, name), want, "%s, %s, %r" % (name, p, k), scale=max(abs(want), ss + abs(k)))
    require(pt(P) == z, "arithmetic with a number changed the point")
    R = Point(*p)
    R *= k
    near(R, z * k, "%s *= %r" % (p, k))
    R = Point(*p)
    R += k
    near(R, z + k, "%s += %r" % (p, k), scale=ss + abs(k))
    R = Point(*p)
    R -= k
    near(R, z - k, "%s -= %r" % (p, k), scale=ss + abs(k))
    require(pt(point(P.conjugate(), "conjugate")) == z.conjugate(), "conjugate of %s is %s", p, P.conjugate())
    require(abs(abs(P) - abs(z)) <= 1e-14 * abs(z), "abs of %s is %r", p, abs(P))
    require(abs(P.argz() - cmath.phase(z)) <= 1e-14 or z == 0, "argz of %s is %r", p, P.argz())
    if z != 0 or n >= 0:
        near(point(P ** n, "power"), z ** n, "%s ** %d" % (p, n), rel=1e-12)
    e = EXPONENTS[n + 3]
    if z != 0 or e > 0:
        near(point(P ** e, "power"), z ** e if z else 0j, "%s ** %r" % (p, e), rel=1e-12)
    require(pt(P) == z, "reading changed the point")
    return all(p) and all(q)


@sub("C21", "distances and directions", st.tuples(anypair, anypair, st.one_of(frac, num), rotations, num, st.sampled_from(FORMS[:3]), st.sampled_from([0, 0, 0, -3, -6, -9, -12, 6])).map(list), quick=3000, thorough=200000)
def directions(case):
    from svgio import Angle, Matrix, Point
    Point = Twice(Point)

    p, q, t, deg, r, form, power = case
    p, q = [[x * 10.0**power if power else x for x in v] for v in (p, q)]
    z, w = c(p), c(q)
    ss = abs(p[0]) + abs(p[1]) + abs(q[0]) + abs(q[1])
    P, Q = Point(*p), as_form(q, form)
    d = abs(z - w)
    for what, x in (("distance_to", P.distance_to(Q)), ("distance_to back", Point(*q).distance_to(P)), ("Point.distance", Point.distance(P, Q)), ("Point.distance back", Point.distance(Q, P))):
        require(abs(x - d) <= 1e-13 * ss, "%s of %s, %s is %r, not %r", what, p, q, x, d)
    if z != w:
        for what, x in (("angle_to", P.angle_to(Q)), ("Point.angle", Point.angle(P, Q))):
            require(isinstance(x, Angle), "%s is a %s", what, type(x).__name__)
            e = abs(cmath.rect(1, float(x)) - (w - z) / d)
            require(e <= 1e-13 * (1 + ss / d), "%s of %s, %s is %r", what, p, q, x)
            near(point(Point.polar(P, x, d), "polar"), w, "polar from %s by %r, %r" % (p, x, d), rel=1e-12, scale=ss * 4)
    for what, a in (("radians", math.radians(deg)), ("an Angle", Angle.degrees(deg))):
        want = z + cmath.rect(r, math.radians(deg))
        near(point(Point.polar(P, a, r), "polar"), want, "Point.polar(%s, %s, %r)" % (p, what, r), rel=1e-12, scale=ss + abs(r))
        R = Point(*p)
        S = R.polar_to(a, r)
        near(R, want, "%s.polar_to(%r, %r)" % (p, a, r), rel=1e-12, scale=ss + abs(r))
        require(S is None or pt(S) == pt(R), "polar_to gives %s but makes %s", S, R)
    want = z + (w - z) * t
    s = ss * (1 + abs(t))
    near(point(Point.towards(P, Q, t), "towards"), want, "Point.towards(%s, %s, %r)" % (p, q, t), scale=s)
    R = Point(*p)
    R.move_towards(Q, t)
    near(R, want, "%s.move_towards(%s, %r)" % (p, q, t), scale=s)
    R = Point(*p)
    R.move_towards(Q)
    near(R, w, "%s.move_towards(%s)" % (p, q), scale=ss)
    m = Point(*q)
    near(point(P.reflected_across(m), "reflected_across"), 2 * w - z, "%s.reflected_across(%s)" % (p, q), scale=2 * ss)
    require(pt(m) == w and pt(P) == z and pt(Q if form == "point" else Point(Q)) == w, "measuring changed a point: %s, %s, %s", P, Q, m)
    R = Point(*p)
    R.matrix_transform(Matrix(2, 1, -3, 4, 5, 6))
    near(R, complex(2 * p[0] - 3 * p[1] + 5, p[0] + 4 * p[1] + 6), "matrix_transform of %s" % p, scale=9 * ss + 9)
    return all(p) and all(q) and z != w


@sub("C21", "equality", st.tuples(anypair, anypair, st.sampled_from([0, 1e-13, -2e-13, 1e-9, -1e-6, 1]), st.integers(0, 1), st.sampled_from(FORMS)).map(list), quick=2000, thorough=80000)
def equality(case):
    from svgio import Point
    Point = Twice(Point)

    p, q, eps, axis, form = case
    P = Point(*p)
    for other in (p, q, [p[0] + eps * (axis == 0), p[1] + eps * (axis == 1)]):
        gap = max(abs(F(p[0]) - F(other[0])), abs(F(p[1]) - F(other[1])))
        if F(5, 10 ** 13) < gap < F(2, 10 ** 12):
            continue
        same = gap <= F(5, 10 ** 13)
        Q = as_form(other, form)
        require((P == Q) is same and (P != Q) is (not same), "%s == %s is %s", P, Q, P == Q)
        require((Q == P) is same or form != "point", "%s == %s is %s", Q, P, Q == P)
        if list(other) == list(p):
            require(hash(Point(*other)) == hash(P) and len({P, Point(*other)}) == 1, "equal points differ in a set")
    for stranger in (None, object(), {}, "no point"):
        require(P != stranger and not (P == stranger), "%s equals %r", P, stranger)
    require(pt(P) == c(p), "comparing changed the point")
    return all(p) and all(q)


@st.composite
def point_sets(draw):
    mode = draw(st.integers(0, 5))
    grid = st.tuples(st.integers(-3, 3), st.integers(-3, 3)).map(list)
    if mode == 0:
        pts = draw(st.lists(grid, min_size=0, max_size=12))
    elif mode == 1:
        pts = draw(st.lists(st.tuples(st.integers(-80, 80).map(lambda i: i / 8), st.integers(-80, 80).map(lambda i: i / 8)).map(list), min_size=0, max_size=16))
    elif mode == 2:  # on a line
        a, d = draw(grid), draw(grid)
        pts = [[a[0] + d[0] * k, a[1] + d[1] * k] for k in draw(st.lists(st.integers(-3, 3), min_size=1, max_size=8))]
        if draw(st.booleans()):
            pts.append(draw(grid))
    elif mode == 3:  # a box with points on its sides
        w, h = draw(st.integers(1, 4)), draw(st.integers(1, 4))
        pts = [[0, 0], [w, 0], [w, h], [0, h]] + draw(st.lists(st.one_of(st.tuples(st.integers(0, w), st.sampled_from([0, h])), st.tuples(st.sampled_from([0, w]), st.integers(0, h))).map(list), max_size=8))
        pts = draw(st.permutations(pts))
    elif mode == 4:  # on a circle
        pts = [[x, y] for x, y in [(5, 0), (4, 3), (3, 4), (0, 5), (-3, 4), (-4, 3), (-5, 0), (-4, -3), (-3, -4), (0, -5), (3, -4), (4, -3)]]
        pts = draw(st.lists(st.sampled_from(pts), min_size=1, max_size=14)) + draw(st.lists(grid, max_size=4))
    else:
        pts = draw(st.lists(anypair, min_size=1, max_size=10))
    if pts and draw(st.booleans()):
        pts = pts + draw(st.lists(st.sampled_from(pts), max_size=3))
    return [list(p) for p in pts]


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def hull(points):
    """Gift wrapping, exactly: counter-clockwise (y up) from the leftmost lowest point, extreme points only."""
    pts = sorted({(F(x), F(y)) for x, y in points})
    if len(pts) <= 1:
        return pts
    out = [pts[0]]
    while True:
        o = out[-1]
        best = None
        for q in pts:
            if q == o:
                continue
            if best is None:
                best = q
                continue
            t = cross(o, best, q)
            far = (q[0] - o[0]) ** 2 + (q[1] - o[1]) ** 2 > (best[0] - o[0]) ** 2 + (best[1] - o[1]) ** 2
            if t < 0 or (t == 0 and far):
                best = q
        if best == out[0]:
            return out
        out.append(best)


@sub("C21", "convex hulls", st.tuples(point_sets(), st.booleans(), st.sampled_from([0, 0, 0, -8, -16, -24, 16])).map(list), quick=4000, thorough=300000, weight=2)
def hulls(case):
    from svgio import Point
    Point = Twice(Point)

    pts, tuples, power = case
    f = 2.0**power
    if power:
        pts = [[x * f for x in p] for p in pts]
    given = [tuple(p) if tuples else Point(*p) for p in pts]
    got = list(Point.convex_hull(given))
    coords = [(p[0], p[1]) for p in got]
    require([(p[0], p[1]) for p in given] == [tuple(p) for p in pts], "the hull changed its points")
    exact = all(F(x / f).denominator <= 8 and abs(x / f) < 2 ** 20 for p in pts for x in p)
    want = hull(pts)
    if exact:
        require([(F(x), F(y)) for x, y in coords] == want, "hull of %s is %s, not %s", pts, coords, [(float(x), float(y)) for x, y in want])
        shuffled = given[len(given) // 2:] + given[: len(given) // 2]
        again = [(p[0], p[1]) for p in Point.convex_hull(shuffled)]
        require(again == coords, "hull of %s depends on the order: %s, %s", pts, coords, again)
        again = [(p[0], p[1]) for p in Point.convex_hull(got)] if got else []
        require(again == coords, "hull of the hull of %s is %s", pts, again)
    else:
        require(set(coords) <= {tuple(p) for p in pts} and len(set(coords)) == len(coords), "hull of %s is %s", pts, coords)
        require(not coords or coords[0] == min(coords), "hull of %s starts at %s", pts, coords[:1])
        size = max(max(abs(x) for p in pts for x in p), 1e-9 * f)
        n = len(coords)
        for i in range(n):
            a, b = coords[i], coords[(i + 1) % n]
            if n > 1:
                for p in pts:
                    side = cross([F(x) for x in a], [F(x) for x in b], [F(x) for x in p])
                    require(side >= -F(size * size * 1e-11), "hull of %s leaves out %s", pts, p)
        strict = [p for p in want]
        for p in strict:  # extreme by a margin
            others = [q for q in strict if q != p]
            h = hull(others)
            m = len(h)
            margin = max((-(cross(h[i], h[(i + 1) % m], p)) for i in range(m)), default=1) if m > 1 else 1
            if margin > F(size * size * 1e-9):
                require((float(p[0]), float(p[1])) in coords, "hull of %s lacks %s", pts, (float(p[0]), float(p[1])))
    return len({tuple(p) for p in pts}) >= 4


@sub("C21", "orientation", st.tuples(spair, spair, spair, st.sampled_from([0, 0, 0, -1, -2, -3, -10, -20, -30, -40, 20])).map(list), quick=1500, thorough=60000)
def orientation(case):
    from svgio import Point
    Point = Twice(Point)

    a, b, d, k = case
    a, b, d = [[x * 2.0**k if k else x for x in p] for p in (a, b, d)]
    s = cross([F(x) for x in a], [F(x) for x in b], [F(x) for x in d])
    want = 0 if s == 0 else 2 if s > 0 else 1
    for f in (lambda p: Point(*p), tuple):
        got = Point.orientation(f(a), f(b), f(d))
        require(got == want, "orientation of %s, %s, %s is %r, not %r", a, b, d, got, want)
    return s != 0


def many_points(n, seed, kind):
    r = random.Random(seed)
    if kind == 0:
        pts = [[r.randint(-9, 9), r.randint(-9, 9)] for _ in range(n)]
    elif kind == 1:
        pts = [[r.randint(-800, 800) / 8, r.randint(-800, 800) / 8] for _ in range(n)]
    elif kind == 2:  # a convex curve: all of them count
        pts = [[k, k * k / 4] for k in r.sample(range(-n, n), n)]
    elif kind == 3:  # around a circle, nearly
        pts = [[round(100 * math.cos(k)), round(100 * math.sin(k))] for k in range(n)]
        r.shuffle(pts)
    else:  # along the sides of a triangle
        pts = [[(0, k), (k, 0), (k, n - k)][r.randint(0, 2)] for k in (r.randint(0, n) for _ in range(n))]
    return [list(p) for p in pts]


@sub("C21", "large hulls", st.tuples(st.builds(many_points, st.integers(15, 120), st.integers(0, 2**32), st.integers(0, 4)), st.booleans(), st.sampled_from([0, -16, 16])).map(list), quick=120, thorough=6000)
def large_hulls(case):
    return hulls(case)


point_change = st.tuples(st.sampled_from(["x", "y", "0", "1", "+=", "-=", "*=", "mul", "towards", "polar"]), anypair, st.booleans()).map(list)


@sub("C21", "after changes", st.tuples(anypair, anypair, st.lists(point_change, min_size=1, max_size=6)).map(list), quick=1500, thorough=60000)
def after_changes(case):
    """What a point changed in place answers is what a new point there answers."""
    from svgio import Matrix, Point

    p, q, ops = case
    P, Q = Point(*p), Point(*q)
    calls = [("abs", abs), ("argz", lambda z: z.argz()), ("conjugate", lambda z: z.conjugate()), ("complex", complex), ("real, imag", lambda z: (z.real, z.imag)),
             ("text", str), ("repr", repr), ("** 2", lambda z: z ** 2), ("list", list), ("distance_to", lambda z: z.distance_to(Q)), ("distance from", lambda z: Q.distance_to(z)),
             ("angle_to", lambda z: z.angle_to(Q)), ("angle from", lambda z: Q.angle_to(z)), ("sum", lambda z: z + Q), ("difference", lambda z: z - Q), ("product", lambda z: z * Q),
             ("reflected_across", lambda z: z.reflected_across(Q)), ("equal", lambda z: z == Q), ("towards", lambda z: Point.towards(z, Q, 0.25)), ("polar", lambda z: Point.polar(z, 0.5, 2)),
             ("distance", lambda z: Point.distance(z, Q)), ("moved by a matrix", lambda z: Matrix(2, 1, 0, 3, 4, 5).point_in_matrix_space(z)),
             ("hull", lambda z: list(Point.convex_hull([z, Q, Point(0, 0), Point(1, 0), Point(0, 1)])))]
    said = []
    for op, xy, both in ops:
        if op == "x":
            P.x = xy[0]
        elif op == "y":
            P.y = xy[1]
        elif op in "01":
            P[int(op)] = xy[int(op)]
        elif op == "+=":
            P += Point(*xy)
        elif op == "-=":
            P -= tuple(xy)
        elif op == "*=":
            P *= Matrix(1, 0, 0.5, 2, xy[0], 0)
        elif op == "mul":
            P *= Point(*xy)
        elif op == "towards":
            P.move_towards(tuple(xy), 0.5)
        else:
            P.polar_to(0.5, 3)
        said.append(op)
        if abs(P.x) + abs(P.y) > 1e50:
            return False
        what = "%s after %s" % (tuple(p), " ".join(said))
        if both:
            P, Q = Q, P  # the other point is changed next
        unchanged_answers(P, Point(P.x, P.y), calls, what)
        same = Point(P.x, P.y)
        require(P == same and not P != same and hash(P) == hash(same), "%s: unlike a new point there", what)
    return len(ops) > 1 and p != [0, 0]
