"""C15: matrices form the affine group acting on points."""
import copy
import math
from fractions import Fraction as F

from hypothesis import strategies as st

from ..common import anypair, c, cleanf, g, invertible, matrices, num, pt, rotations, small
from ..alive import unchanged_answers
from ..core import require, rule, sub
from ..spoil import Twice

rule("C15", "cases are matrices and sequences of operations on them; non-trivial: at least two of the matrices or operations "
     "involved are not the identity, or (constructors) the arguments are not the neutral ones")

anymatrix = st.one_of(invertible(), matrices, st.just([1, 0, 0, 1, 0, 0]))
EPS = 2.3e-16


class M:
    """Exact 2x3 matrix with a bound on what rounding may do to each coefficient."""

    def __init__(self, v, mag=None):
        self.v = [F(x) for x in v]
        self.mag = [abs(x) for x in self.v] if mag is None else mag

    def then(self, o):
        """Apply self, then o."""

        def times(a, b, one):
            return [
                b[0] * a[0] + b[2] * a[1], b[1] * a[0] + b[3] * a[1],
                b[0] * a[2] + b[2] * a[3], b[1] * a[2] + b[3] * a[3],
                b[0] * a[4] + b[2] * a[5] + b[4], b[1] * a[4] + b[3] * a[5] + b[5],
            ]

        return M(times(self.v, o.v, 1), times(self.mag, o.mag, 1))

    def at(self, z):
        return (self.v[0] * F(z[0]) + self.v[2] * F(z[1]) + self.v[4], self.v[1] * F(z[0]) + self.v[3] * F(z[1]) + self.v[5])

    def det(self):
        return self.v[0] * self.v[3] - self.v[1] * self.v[2]


IDENTITY = [1, 0, 0, 1, 0, 0]


def coefficients(m, what="matrix"):
    out = [float(m.a), float(m.b), float(m.c), float(m.d), float(m.e), float(m.f)]
    require(all(math.isfinite(x) for x in out), "%s is not finite: %s", what, out)
    return out


def agree(m, want, what, steps=1):
    got = coefficients(m, what)
    for i, x in enumerate(got):
        tol = 8 * steps * EPS * float(want.mag[i]) + 1e-300
        require(abs(x - float(want.v[i])) <= tol, "%s: coefficient %s is %r, not %r", what, "abcdef"[i], x, float(want.v[i]))


def mk(v):
    from svgio import Matrix
    Matrix = Twice(Matrix)

    return Matrix(*v)


@sub("C15", "group laws", st.tuples(anymatrix, anymatrix, anymatrix).map(list), quick=2500, thorough=150000)
def group(case):
    from svgio import Matrix
    Matrix = Twice(Matrix)

    a, b, d = case
    A, B, C = (M(x) for x in case)
    for name, prod in (("A * B", mk(a) * mk(b)), ("A @ B", mk(a) @ mk(b))):
        agree(prod, A.then(B), name)
        require(type(prod) is Matrix.cls, "%s is a %s", name, type(prod).__name__)
    for op in ("*=", "@="):
        m = mk(a)
        keep = m
        other = mk(b)
        if op == "*=":
            m *= other
        else:
            m @= other
        require(m is keep, "A %s B makes another object", op)
        agree(m, A.then(B), "A %s B" % op)
        agree(other, B, "B after A %s B" % op)
    m, n = mk(a), mk(b)
    m * n
    agree(m, A, "A after A * B")
    agree(n, B, "B after A * B")
    agree((mk(a) * mk(b)) * mk(d), A.then(B).then(C), "(A*B)*C", 2)
    agree(mk(a) * (mk(b) * mk(d)), A.then(B).then(C), "A*(B*C)", 2)
    agree(mk(a) * Matrix(), A, "A * identity")
    agree(Matrix() * mk(a), A, "identity * A")
    agree(mk(a) * Matrix.identity(), A, "A * identity()")
    text = "matrix(%s)" % " ".join(g(x) for x in b)
    agree(mk(a) * text, A.then(B), "A * %r" % text)
    agree(text * mk(a), B.then(A), "%r * A" % text)
    m = mk(a)
    m *= text
    agree(m, A.then(B), "A *= %r" % text)
    AB = A.then(B)
    det = float((mk(a) * mk(b)).determinant)
    bound = float((A.mag[0] * A.mag[3] + A.mag[1] * A.mag[2]) * (B.mag[0] * B.mag[3] + B.mag[1] * B.mag[2]))
    mags = float(AB.mag[0] * AB.mag[3] + AB.mag[1] * AB.mag[2])
    require(abs(det - float(A.det() * B.det())) <= 64 * EPS * (bound + mags) + 1e-300, "det(A*B) is %r, det A * det B is %r", det, float(A.det() * B.det()))
    one = float(mk(a).determinant)
    require(abs(one - float(A.det())) <= 8 * EPS * float(A.mag[0] * A.mag[3] + A.mag[1] * A.mag[2]), "determinant is %r, not %r", one, float(A.det()))
    return sum(x != IDENTITY for x in case) >= 2


def inverse_of(v):
    """The exact inverse, and how many times rounding is amplified in it."""
    A = M(v)
    det = A.det()
    if det == 0:
        return None, None
    a, b, cc, d, e, f = A.v
    inv = [d / det, -b / det, -cc / det, a / det, (cc * f - e * d) / det, (b * e - a * f) / det]
    amp = float((abs(a * d) + abs(b * cc)) / abs(det))
    mag = [abs(inv[0]), abs(inv[1]), abs(inv[2]), abs(inv[3]), (abs(cc * f) + abs(e * d)) / abs(det), (abs(b * e) + abs(a * f)) / abs(det)]
    return M(inv, mag), amp


@sub("C15", "inverse", st.tuples(invertible(), st.lists(anypair, min_size=1, max_size=4)).map(list), quick=2500, thorough=150000)
def inverse(case):
    from svgio import Matrix, Point
    Matrix = Twice(Matrix)

    v, points = case
    A = M(v)
    want, amp = inverse_of(v)
    if want is None or amp > 1e9:
        return False
    m = mk(v)
    i = ~m
    agree(m, A, "the matrix after ~")
    agree(i, want, "~A", amp)
    j = mk(v)
    k = j.inverse()
    agree(j, want, "A after inverse()", amp)
    agree(k, want, "A.inverse()", amp)
    for name, prod, bound in (("A * ~A", m * i, A.then(want)), ("~A * A", i * m, want.then(A))):
        got = coefficients(prod)
        for n in range(6):
            require(abs(got[n] - IDENTITY[n]) <= 32 * amp * EPS * (float(bound.mag[n]) + 1), "%s has %s = %r", name, "abcdef"[n], got[n])
    for z in points:
        there = m.point_in_matrix_space(Point(*z))
        back = m.point_in_inverse_space(there)
        # rounding of the image, carried back by the inverse
        inv = want.mag
        ix = [A.mag[0] * abs(F(z[0])) + A.mag[2] * abs(F(z[1])) + A.mag[4], A.mag[1] * abs(F(z[0])) + A.mag[3] * abs(F(z[1])) + A.mag[5]]
        tol = [float(inv[0] * ix[0] + inv[2] * ix[1] + inv[4]), float(inv[1] * ix[0] + inv[3] * ix[1] + inv[5])]
        for n, name in enumerate("xy"):
            require(abs(back[n] - z[n]) <= 64 * amp * EPS * tol[n] + 1e-300, "%s mapped there and back is %s", z, back)
        require(pt(there) == pt(m.point_in_matrix_space(z)), "mapping a point and a pair differ for %s", z)
    agree(m, A, "the matrix after mapping back")
    return v != IDENTITY


@sub("C15", "mapping points and vectors", st.tuples(anymatrix, anymatrix, st.lists(anypair, min_size=1, max_size=4)).map(list), quick=2500, thorough=150000)
def mapping(case):
    from svgio import Matrix, Point
    Matrix = Twice(Matrix)

    a, b, points = case
    A, B = M(a), M(b)
    AB = A.then(B)
    m, n = mk(a), mk(b)

    def near(p, w, mx, z, what):
        p = pt(p)
        tx = 32 * EPS * float(mx.mag[0] * abs(F(z[0])) + mx.mag[2] * abs(F(z[1])) + mx.mag[4])
        ty = 32 * EPS * float(mx.mag[1] * abs(F(z[0])) + mx.mag[3] * abs(F(z[1])) + mx.mag[5])
        require(abs(p.real - float(w[0])) <= tx and abs(p.imag - float(w[1])) <= ty, "%s of %s is %s, not %s", what, z, p, [float(x) for x in w])

    V = M(A.v[:4] + [0, 0])
    vec = m.vector()
    agree(vec, V, "vector()")
    agree(m, A, "the matrix after vector()")
    for z in points:
        w = A.at(z)
        p = Point(*z)
        near(m.point_in_matrix_space(p), w, A, z, "point_in_matrix_space")
        near(m.point_in_matrix_space(tuple(z)), w, A, z, "point_in_matrix_space (pair)")
        near(p * m, w, A, z, "Point * Matrix")
        require(pt(p) == c(z), "mapping a point changed it to %s", p)
        near(p * ("matrix(%s)" % ",".join(g(x) for x in a)), w, A, z, "Point * text")
        q = Point(*z)
        keep = q
        q *= m
        require(q is keep, "Point *= Matrix makes another point")
        near(q, w, A, z, "Point *= Matrix")
        q = Point(*z)
        r = q.matrix_transform(m)
        near(q, w, A, z, "Point.matrix_transform")
        near(r, w, A, z, "the result of Point.matrix_transform")
        q = Point(*z)
        r = m.transform_point(q)
        near(q, w, A, z, "transform_point")
        near(r, w, A, z, "the result of transform_point")
        l = list(z)
        m.transform_point(l)
        near(l, w, A, z, "transform_point of a list")
        wv = V.at(z)
        q = Point(*z)
        r = m.transform_vector(q)
        near(q, wv, V, z, "transform_vector")
        near(r, wv, V, z, "the result of transform_vector")
        near(vec.point_in_matrix_space(z), wv, V, z, "vector() applied")
        near((m * n).point_in_matrix_space(z), AB.at(z), AB, z, "A*B")
        near(n.point_in_matrix_space(m.point_in_matrix_space(z)), AB.at(z), AB, z, "A then B")
        near((p * m) * n, AB.at(z), AB, z, "Point * A * B")
    agree(m, A, "the matrix after mapping points")
    return a != IDENTITY and b != IDENTITY


# ------------------------------------------------------------------ elementary matrices and operations

factor = st.one_of(st.sampled_from([1, -1, 2, 0.5, 0, 3]), small, num)
turn = st.one_of(rotations.map(math.radians), st.floats(-7, 7).map(cleanf), st.sampled_from([0, 1]))
lean = st.one_of(st.floats(-1.4, 1.4).map(cleanf), st.sampled_from([0, 0.5, -0.5, math.pi / 4]))
center = st.one_of(st.just([]), st.tuples(num, num).map(list), st.tuples(ints_ := st.integers(-5, 5), ints_).map(list), st.tuples(num).map(list), st.tuples(st.none(), num).map(list), st.tuples(num, st.none()).map(list))

operation = st.one_of(
    st.tuples(st.just("scale"), factor, factor, center),
    st.tuples(st.just("scale"), factor, st.none(), center),
    st.tuples(st.just("scale_x"), factor, center),
    st.tuples(st.just("scale_y"), factor, center),
    st.tuples(st.just("translate"), num, num),
    st.tuples(st.just("translate_x"), num),
    st.tuples(st.just("translate_y"), num),
    st.tuples(st.just("rotate"), turn, center),
    st.tuples(st.just("skew"), lean, lean, center),
    st.tuples(st.just("skew_x"), lean, center),
    st.tuples(st.just("skew_y"), lean, center),
    st.tuples(st.just("cat"), anymatrix),
).map(list)


def elementary(op):
    """Exact (floats as given) matrix of an operation without its center."""
    k = op[0]
    if k == "cat":
        return M(op[1])
    if k == "scale":
        sx, sy = op[1], op[1] if op[2] is None else op[2]
        return M([sx, 0, 0, sy, 0, 0])
    if k == "scale_x":
        return M([op[1], 0, 0, 1, 0, 0])
    if k == "scale_y":
        return M([1, 0, 0, op[1], 0, 0])
    if k == "translate":
        return M([1, 0, 0, 1, op[1], op[2]])
    if k == "translate_x":
        return M([1, 0, 0, 1, op[1], 0])
    if k == "translate_y":
        return M([1, 0, 0, 1, 0, op[1]])
    if k == "rotate":
        ct, sn = math.cos(op[1]), math.sin(op[1])
        return M([ct, sn, -sn, ct, 0, 0])
    if k == "skew":
        return M([1, math.tan(op[2]), math.tan(op[1]), 1, 0, 0])
    if k == "skew_x":
        return M([1, 0, math.tan(op[1]), 1, 0, 0])
    if k == "skew_y":
        return M([1, math.tan(op[1]), 0, 1, 0, 0])
    raise ValueError(k)


def with_center(op):
    e = elementary(op)
    ctr = op[-1] if isinstance(op[-1], list) and op[0] != "cat" else []
    x = (ctr[0] if len(ctr) > 0 else 0) or 0
    y = (ctr[1] if len(ctr) > 1 else 0) or 0
    if x == 0 and y == 0:
        return e
    return M([1, 0, 0, 1, -F(x), -F(y)]).then(e).then(M([1, 0, 0, 1, x, y]))


def arguments(op):
    if op[0] == "cat":
        return None
    args = []
    for x in op[1:]:
        if isinstance(x, list):
            args += x
        else:
            args.append(x)
    return args


NEUTRAL = {"scale": (1,), "scale_x": (1,), "scale_y": (1,)}


def idle(op):
    return with_center(op).v == [F(x) for x in IDENTITY]


@sub("C15", "histories of pre and post operations",
     st.tuples(anymatrix, st.lists(st.tuples(st.sampled_from(["pre", "post"]), operation, st.integers(0, 3)).map(list), min_size=1, max_size=7)).map(list),
     quick=3000, thorough=200000, weight=2)
def histories(case):
    from svgio import Angle, Matrix
    Matrix = Twice(Matrix)

    start, ops = case
    m = mk(start)
    model = M(start)
    said = []
    for side, op, form in ops:
        e = with_center(op)
        args = arguments(op)
        f = getattr(m, "%s_%s" % (side, op[0]))
        if op[0] == "cat":
            v = op[1]
            if form == 0:
                f(*v)
            elif form == 1:
                f(list(v))
            elif form == 2:
                f("matrix(%s)" % ",".join(g(x) for x in v))
            else:
                other = mk(v)
                f(other)
                agree(other, M(v), "the operand of %s_cat" % side)
        else:
            if op[0] in ("rotate", "skew_x", "skew_y", "skew") and form == 1:
                args[0] = Angle.radians(args[0])
            if form == 2 and op[0] in ("scale", "scale_x", "scale_y", "rotate") and isinstance(op[-1], list):
                names = {"scale": ["sx", "sy"], "scale_x": ["sx"], "scale_y": ["sy"], "rotate": ["angle"]}[op[0]] + ["x", "y"]
                f(**dict(zip(names, args)))
            else:
                f(*args)
        model = e.then(model) if side == "pre" else model.then(e)
        said.append("%s_%s%s" % (side, op[0], tuple(args) if args is not None else (op[1],)))
        agree(m, model, " ".join(said), 4 * len(said))
        z = (len(said) * 0.75 - 1, start[0])
        unchanged_answers(m, mk([m[i] for i in range(6)]), [
            ("point_in_matrix_space%s" % (z,), lambda x: x.point_in_matrix_space(z)),
            ("point_in_inverse_space%s" % (z,), lambda x: x.point_in_inverse_space(z)),
            ("~", lambda x: list(~x)), ("is_identity", lambda x: x.is_identity()), ("vector", lambda x: list(x.vector())),
            ("str", str), ("repr", repr), ("== identity", lambda x: x == Matrix()),
            ("product", lambda x: list(x * Matrix(2, 1, 0, 3, 4, 5))), ("product from the left", lambda x: list(Matrix(2, 1, 0, 3, 4, 5) * x))], " ".join(said))
    return sum(not idle(op) for _, op, _ in ops) >= 2


@sub("C15", "elementary constructors", st.tuples(operation, st.integers(0, 2)).map(list), quick=1500, thorough=60000)
def constructors(case):
    from svgio import Angle, Matrix
    Matrix = Twice(Matrix)

    op, form = case
    if op[0] == "cat":
        v = op[1]
        m = [Matrix(*v), Matrix(list(v)), Matrix(mk(v))][form]
        agree(m, M(v), "Matrix of coefficients")
        m = Matrix(tuple(v))
        agree(m, M(v), "Matrix of a tuple")
        return v != IDENTITY
    args = [x for x in arguments(op[:-1] if isinstance(op[-1], list) else op)]
    if args and args[-1] is None:
        args.pop()
    if op[0] in ("rotate", "skew", "skew_x", "skew_y") and form == 1:
        args[0] = Angle(args[0])
    m = getattr(Matrix, op[0])(*args)
    require(type(m) is Matrix.cls, "Matrix.%s gives a %s", op[0], type(m).__name__)
    agree(m, elementary(op), "Matrix.%s%s" % (op[0], tuple(args)))
    if op[0] not in ("rotate", "skew"):
        require(getattr(Matrix, op[0])().is_identity(), "Matrix.%s() is not the identity", op[0])
    require(Matrix.rotate().is_identity() and Matrix.skew().is_identity() and Matrix().is_identity() and Matrix.identity().is_identity(), "a neutral matrix is not the identity")
    require(m.is_identity() == (coefficients(m) == [1, 0, 0, 1, 0, 0]), "is_identity of %s is %s", coefficients(m), m.is_identity())
    return not idle(op)


@sub("C15", "comparison, indexing, copies", st.tuples(anymatrix, st.integers(0, 5), num, anymatrix).map(list), quick=1500, thorough=60000)
def access(case):
    from svgio import Matrix
    Matrix = Twice(Matrix)

    v, i, x, w = case
    m = mk(v)
    require([m[k] for k in range(6)] == [float(y) for y in v], "indexing %s gives %s", v, [m[k] for k in range(6)])
    require(list(m) == [float(y) for y in v] and len(m) == 6, "iterating %s gives %s", v, list(m))
    try:
        m[6]
    except IndexError:
        pass
    else:
        require(False, "m[6] exists")
    named = (m.value_scale_x(), m.value_skew_x(), m.value_skew_y(), m.value_scale_y(), m.value_trans_x(), m.value_trans_y())
    require([float(y) for y in named] == [float(y) for y in v], "value_* of %s are %s", v, named)
    for n in (copy.copy(m), Matrix(m), m.__copy__(), copy.deepcopy(m)):
        require(n is not m and n == m and not (n != m), "a copy of %s is not equal to it", v)
        n[i] = x
        require([float(y) for y in coefficients(n)] == [float(x) if k == i else float(y) for k, y in enumerate(v)], "setting [%d] of %s to %r gives %s", i, v, x, coefficients(n))
        require(coefficients(m) == [float(y) for y in v], "changing a copy changed the original")
        if abs(x - v[i]) > 1e-11:
            require(n != m and not (n == m) and not (m == n), "%s == %s though coefficient %d differs", coefficients(n), v, i)
        n.reset()
        require(n.is_identity() and coefficients(n) == [1, 0, 0, 1, 0, 0] and n == Matrix(), "reset gives %s", coefficients(n))
    same = all(abs(p - q) <= 1e-13 for p, q in zip(v, w))
    differ = any(abs(p - q) > 1e-11 for p, q in zip(v, w))
    if same or differ:
        other = mk(w)
        require((m == other) == same and (m != other) == differ, "%s == %s is %s", v, w, m == other)
        text = "matrix(%s)" % " ".join(g(y) for y in w)
        require((m == text) == same and (m != text) == differ, "%s == %r is %s", v, text, m == text)
    require(not (m == None) and m != None and m != 5 and not (m == v[0]), "a matrix equals something that is none")  # noqa
    return v != IDENTITY


@sub("C15", "long histories",
     st.tuples(anymatrix, st.lists(st.tuples(st.sampled_from(["pre", "post"]), operation, st.integers(0, 3)).map(list), min_size=8, max_size=30)).map(list),
     quick=200, thorough=12000)
def long_histories(case):
    return histories(case)
