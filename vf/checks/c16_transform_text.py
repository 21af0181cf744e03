"""C16: transform attribute text means the matrix SVG and CSS define."""
import math
from fractions import Fraction as F

from hypothesis import strategies as st

from ..common import cleanf, pos, small
from ..core import require, rule, sub
from ..textgen import number_token
from ..spoil import Twice
from .c15_matrices import IDENTITY, M, coefficients

rule("C16", "cases are transform lists as text with their meaning; non-trivial: at least two functions, or one with a unit or an "
     "optional argument, and the whole is not the identity")

SPELLING = {
    "matrix": "matrix", "translate": "translate", "translatex": "translateX", "translatey": "translateY", "scale": "scale",
    "scalex": "scaleX", "scaley": "scaleY", "rotate": "rotate", "skew": "skew", "skewx": "skewX", "skewy": "skewY",
}
ANGLE = {"": math.pi / 180, "deg": math.pi / 180, "grad": math.pi / 200, "rad": 1.0, "turn": 2 * math.pi}
PHYSICAL = ["in", "cm", "mm"]
UNITS = ["", "", "", "px", "pt", "pc", "in", "cm", "mm", "%", "em", "ex", "vw", "vh", "vmin", "vmax"]

environment = st.fixed_dictionaries({
    "ppi": st.one_of(st.sampled_from([96, 72, 90, 300, 1000]), pos),
    "width": pos, "height": pos, "font_size": pos, "font_height": pos,
    "viewbox": st.one_of(st.tuples(pos, pos), st.tuples(pos, pos), st.tuples(pos, pos), st.tuples(pos, st.just(0)), st.tuples(st.just(0), pos)).map(list), "origin": st.tuples(small, small).map(list),
})


def px(value, unit, axis, env):
    """The pixels of a length, and how far its unit may be rounded."""
    vw, vh = env["viewbox"]
    f, rel = {
        "": (1, 0), "px": (1, 0), "pt": (4 / 3, 3e-5), "pc": (16, 0), "in": (env["ppi"], 0),
        "cm": (env["ppi"] / 2.54, 1e-6), "mm": (env["ppi"] / 25.4, 1e-6),
        "%": ((env["width"] if axis == 0 else env["height"]) / 100, 0),
        "em": (env["font_size"], 0), "ex": (env["font_height"], 0),
        "vw": (vw / 100, 0), "vh": (vh / 100, 0), "vmin": (min(vw, vh) / 100, 0), "vmax": (max(vw, vh) / 100, 0),
    }[unit]
    return value * f, abs(value * f) * (rel + 1e-14)


@st.composite
def angle(draw, lean):
    unit = draw(st.sampled_from(["", "", "", "deg", "grad", "rad", "turn"]))
    if lean:
        v = draw(st.one_of(st.sampled_from([0, 30, 45, -45, 10, 60, -30, 12.5]), st.integers(-80, 80)))
    else:
        v = draw(st.one_of(st.sampled_from([0, 90, 180, 270, -90, 45, 30, 360, 400]), st.integers(-720, 720), st.integers(-7200, 7200).map(lambda i: i / 10)))
    v = {"": v, "deg": v, "grad": v / 0.9, "rad": math.radians(v), "turn": v / 360}[unit]
    return ["%.*f" % (draw(st.sampled_from([0, 1, 3, 9])) if unit in ("", "deg", "grad") else draw(st.sampled_from([3, 9])), v), unit]


@st.composite
def function(draw, kinds, units):
    k = draw(st.sampled_from(kinds))
    n = number_token()
    number = n.map(lambda t: [t, ""])
    length = st.tuples(n, st.sampled_from(units)).map(list)
    center = st.sampled_from([0, 0, 0, 2, 2, 2, 1])  # like a translation, a center may leave out its y
    if k == "matrix":
        args = [draw(number) for _ in range(6)]
    elif k == "translate":
        args = [draw(length) for _ in range(draw(st.integers(1, 2)))]
    elif k in ("translatex", "translatey"):
        args = [draw(length)]
    elif k == "scale":
        args = [draw(number) for _ in range(draw(st.integers(1, 2)))]
    elif k in ("scalex", "scaley"):
        args = [draw(number)]
    elif k == "rotate":
        args = [draw(angle(False))] + [draw(length) for _ in range(draw(center))]
    elif k == "skew":
        args = [draw(angle(True))]
        if draw(st.integers(0, 3)):
            args += [draw(angle(True))]
            args += [draw(length) for _ in range(draw(center))]
    else:
        args = [draw(angle(True))] + [draw(length) for _ in range(draw(center))]
    return [k, args]


def spelled(draw, word):
    return draw(st.sampled_from([word, word, word, word.lower(), word.upper(), word.capitalize()]))


@st.composite
def transform_list(draw, kinds=tuple(SPELLING), units=tuple(UNITS), min_size=1, max_size=4):
    """[text, [[function, [[number text, unit], ...]], ...]]"""
    fs = draw(st.lists(function(list(kinds), list(units)), min_size=min_size, max_size=max_size))
    ws = st.sampled_from(["", "", "", " ", "\n", "\t", "  "])
    sep = st.sampled_from([" ", " ", ",", ", ", " ,", " , ", "\n", ",\n", "\t", "  "])
    tight = draw(st.booleans())
    parts = [draw(ws)]
    for i, (k, args) in enumerate(fs):
        if i:
            parts.append(draw(st.sampled_from(["", " ", " ", ",", ", ", "\n", " \t", " , "])))
        parts.append(spelled(draw, SPELLING[k]) + draw(st.sampled_from(["", "", "", " ", "\n"])) + "(" + draw(ws))
        for j, (t, u) in enumerate(args):
            if j:
                parts.append("" if tight and t[0] == "-" else draw(sep))
            parts.append(t + (spelled(draw, u) if u else ""))
        parts.append(draw(ws) + ")")
    parts.append(draw(ws))
    return ["".join(parts), fs]


def elementary(k, args, env):
    """Matrix (exact in the values as floats) and rounding bound of one function."""
    zero = (0.0, 0.0)

    def rot(a):
        v = float(a[0]) * ANGLE[a[1]]
        ct, sn = math.cos(v), math.sin(v)
        return M([ct, sn, -sn, ct, 0, 0], [F(32 * (1 + abs(v)))] * 4 + [0, 0])

    def lean(a, b):
        ta, tb = math.tan(float(a[0]) * ANGLE[a[1]]), math.tan(float(b[0]) * ANGLE[b[1]])
        return M([1, tb, ta, 1, 0, 0], [1, F(64 * (1 + tb * tb)), F(64 * (1 + ta * ta)), 1, 0, 0])

    def shift(x, y):
        (vx, dx), (vy, dy) = x, y
        # the unit's own rounding is counted in machine epsilons
        return M([1, 0, 0, 1, vx, vy], [1, 0, 0, 1, F(abs(vx) + dx / 2e-16), F(abs(vy) + dy / 2e-16)])

    def about(m, rest):
        if not rest:
            return m
        (vx, dx), (vy, dy) = px(float(rest[0][0]), rest[0][1], 0, env), px(float(rest[1][0]), rest[1][1], 1, env) if len(rest) > 1 else zero
        return shift((-vx, dx), (-vy, dy)).then(m).then(shift((vx, dx), (vy, dy)))

    if k == "matrix":
        return M([float(a[0]) for a in args])
    if k == "translate":
        return shift(px(float(args[0][0]), args[0][1], 0, env), px(float(args[1][0]), args[1][1], 1, env) if len(args) > 1 else zero)
    if k == "translatex":
        return shift(px(float(args[0][0]), args[0][1], 0, env), zero)
    if k == "translatey":
        return shift(zero, px(float(args[0][0]), args[0][1], 1, env))
    if k == "scale":
        sx = float(args[0][0])
        return M([sx, 0, 0, float(args[1][0]) if len(args) > 1 else sx, 0, 0])
    if k == "scalex":
        return M([float(args[0][0]), 0, 0, 1, 0, 0])
    if k == "scaley":
        return M([1, 0, 0, float(args[0][0]), 0, 0])
    if k == "rotate":
        return about(rot(args[0]), args[1:])
    if k == "skew":
        return about(lean(args[0], args[1] if len(args) > 1 else ["0", ""]), args[2:])
    if k == "skewx":
        return about(lean(args[0], ["0", ""]), args[1:])
    if k == "skewy":
        return about(lean(["0", ""], args[0]), args[1:])
    raise ValueError(k)


def meaning(fs, env):
    m = M(IDENTITY)
    for k, args in fs:
        m = elementary(k, args, env).then(m)  # the last written is applied first
    return m


def agree(m, want, what):
    got = coefficients(m, what)
    for i, x in enumerate(got):
        tol = 64 * 2e-16 * float(want.mag[i])
        require(abs(x - float(want.v[i])) <= tol, "%s: coefficient %s is %r, not %r", what, "abcdef"[i], x, float(want.v[i]))


def keywords(env):
    e = dict(env)
    e["viewbox"] = "%r %r %r %r" % (tuple(e.pop("origin", (0, 0))) + tuple(env["viewbox"]))
    return e


def elsewhere(env):
    """The keywords of another environment, in every respect."""
    return keywords({k: [x * 2 + 1 for x in v] if isinstance(v, list) else v * 2 + 1 for k, v in env.items()})


PLAIN = {"ppi": 96, "width": 1, "height": 1, "font_size": 1, "font_height": 1, "viewbox": [1, 1]}


def interesting(fs, m):
    return (len(fs) > 1 or any(u for _, a in fs for _, u in a) or len(fs[0][1]) > 1) and m.v != [F(x) for x in IDENTITY]


@sub("C16", "plain lists", transform_list(units=["", "", "", "px", "pc"], max_size=5), quick=4000, thorough=250000, weight=2)
def plain(case):
    from svgio import Matrix, Point
    Matrix = Twice(Matrix)

    text, fs = case
    want = meaning(fs, PLAIN)
    m = Matrix(text)
    agree(m, want, "Matrix(%r)" % text)
    got = coefficients(m)
    for kw in ({"ppi": 96}, {"width": 100, "height": 200}, {"relative_length": 50}):
        require(coefficients(Matrix(text, **kw)) == got, "Matrix(%r, %s) is %s, without it %s", text, kw, coefficients(Matrix(text, **kw)), got)
    m.render(ppi=300, width=100, height=50)
    require(coefficients(m) == got, "render changed %r to %s", text, coefficients(m))
    # text stands for its matrix
    r = Matrix(2, 1, -1, 3, 5, 7)
    require(coefficients(r * text) == coefficients(r * m), "matrix * %r is %s, not %s", text, r * text, r * m)
    require(coefficients(text * r) == coefficients(m * r), "%r * matrix is %s, not %s", text, text * r, m * r)
    p = Point(3, -2)
    a, b = p * text, p * m
    require((a.x, a.y) == (b.x, b.y), "point * %r is %s, not %s", text, a, b)
    require(m == text and not (m != text), "Matrix(%r) is not equal to its text", text)
    for name in ("pre_cat", "post_cat"):
        x, y = Matrix(r), Matrix(r)
        getattr(x, name)(text)
        getattr(y, name)(m)
        require(coefficients(x) == coefficients(y), "%s(%r) gives %s, not %s", name, text, x, y)
    # a list is the product of its parts, last first
    acc = Matrix()
    start = 0
    pieces = []
    for i, ch in enumerate(text):
        if ch == ")":
            pieces.append(text[start:i + 1])
            start = i + 1
    for piece in reversed(pieces):
        acc *= Matrix(piece)
    agree(acc, want, "the product of the parts of %r" % text)
    return interesting(fs, want)


@sub("C16", "lists with units", st.tuples(transform_list(), environment).map(list), quick=3000, thorough=200000, weight=2)
def with_units(case):
    from svgio import Matrix
    Matrix = Twice(Matrix)

    (text, fs), env = case
    want = meaning(fs, env)
    kw = keywords(env)
    Matrix(text, **elsewhere(env))
    m = Matrix(text, **kw)
    agree(m, want, "Matrix(%r, %s)" % (text, kw))
    got = coefficients(m)
    if env["width"] == env["height"] or not any(u == "%" for _, a in fs for _, u in a):
        del kw["width"], kw["height"]
        kw["relative_length"] = env["width"]
        agree(Matrix(text, **kw), want, "Matrix(%r, %s)" % (text, kw))
    return interesting(fs, want) and any(abs(x) > 0 for x in got[4:])


NEEDS = {"in": "ppi", "cm": "ppi", "mm": "ppi", "%": None, "em": "font_size", "ex": "font_height", "vw": "viewbox", "vh": "viewbox", "vmin": "viewbox", "vmax": "viewbox"}

one_length = st.tuples(
    transform_list(kinds=["scale", "scalex", "scaley"], max_size=2),
    transform_list(kinds=["translate", "translatex", "translatey"], units=[u for u in UNITS if u], max_size=1),
    transform_list(kinds=["scale", "scalex", "scaley"], max_size=2),
    environment,
).map(list)


@sub("C16", "deferred lengths", one_length, quick=2000, thorough=120000)
def deferred(case):
    from svgio import Length, Matrix
    Matrix = Twice(Matrix)

    before, shift, after, env = case
    text = before[0] + " " + shift[0] + " " + after[0]
    fs = before[1] + shift[1] + after[1]
    want = meaning(fs, env)
    kw = keywords(env)
    Matrix(text, **elsewhere(env))
    m = Matrix(text)
    Matrix(text).render(**elsewhere(env))
    open_ = [False, False]
    for k, args in shift[1]:
        axes = [1] if k == "translatey" else [0, 1]
        for (t, u), ax in zip(args, axes):
            if u in NEEDS and abs(float(t)) > 0:
                open_[ax] = True
    for ax, name in enumerate("ef"):
        v = m[4 + ax]
        if open_[ax]:
            scale = float(want.v[4 + ax])
            require(isinstance(v, Length) or (scale == 0 and v == 0), "%s of Matrix(%r) is %r before it can be known", name, text, v)
        else:
            require(isinstance(v, (float, int)) or v.amount == 0, "%s of Matrix(%r) is %r, though it is known", name, text, v)
    r = m.render(**kw)
    agree(m, want, "Matrix(%r).render(%s)" % (text, kw))
    require(r is m or r is None or coefficients(r) == coefficients(m), "render gives another matrix than it makes")
    # what does not suffice changes nothing
    n = Matrix(text)
    n.render()
    for name in ("ppi", "font_size", "font_height", "viewbox"):
        n.render(**{name: kw[name]})
    n.render(width=kw["width"])
    n.render(height=kw["height"])
    agree(n, want, "Matrix(%r) rendered step by step" % text)
    return any(open_) and want.v != [F(x) for x in IDENTITY]


physical = st.tuples(transform_list(units=["in", "cm", "mm"], kinds=["translate", "translatex", "translatey", "rotate", "scale", "skewx", "skewy", "skew"], max_size=4),
                     environment).map(list)


@sub("C16", "deferred physical lengths", physical, quick=2000, thorough=120000)
def deferred_physical(case):
    """Lengths of one kind may be rotated, scaled and added before they are resolved."""
    from svgio import Matrix
    Matrix = Twice(Matrix)

    (text, fs), env = case
    want = meaning(fs, env)
    m = Matrix(text)
    Matrix(text).render(ppi=env["ppi"] + 1)
    m.render(ppi=env["ppi"])
    got = coefficients(m)
    for i, x in enumerate(got):
        tol = 64 * 2e-16 * float(want.mag[i]) * (1 if i < 4 else 4)
        require(abs(x - float(want.v[i])) <= tol, "Matrix(%r).render(ppi=%r): %s is %r, not %r", text, env["ppi"], "abcdef"[i], x, float(want.v[i]))
    return interesting(fs, want) and any(abs(x) > 0 for x in got[4:])


coefficient = st.tuples(number_token(), st.sampled_from(UNITS)).map(list)


@sub("C16", "lengths as coefficients", st.tuples(st.lists(st.integers(-8, 8).map(lambda i: i / 4), min_size=4, max_size=4), coefficient, coefficient, environment, st.booleans()).map(list), quick=1500, thorough=80000)
def length_coefficients(case):
    """The translation of a matrix may be given as lengths, which are resolved like those of a list."""
    import copy

    from svgio import Length, Matrix
    Matrix = Twice(Matrix)

    four, e, f, env, as_text = case
    given = [t + u for t, u in (e, f)]
    if not as_text:
        given = [Length(x) for x in given]
    was = [str(x) for x in given]
    kw = keywords(env)
    (ve, de), (vf_, df) = (px(float(l[0]), l[1], ax, env) for ax, l in enumerate((e, f)))
    want = list(map(float, four)) + [ve, vf_]
    tol = [0] * 4 + [de + 1e-12 * abs(ve) + 1e-12, df + 1e-12 * abs(vf_) + 1e-12]

    def right(m, what):
        got = coefficients(m, what)
        require(all(abs(x - w) <= t for x, w, t in zip(got, want, tol)), "%s: %s, not %s", what, got, want)

    m = Matrix(*(four + given))
    n = copy.copy(m)
    require(m == n and not (m != n) and m == Matrix(m), "a matrix with %s is not equal to its copy", was)
    right(Matrix(*(four + given), **kw), "Matrix(%s, %s)" % (four, was))
    n.render(**kw)
    right(n, "Matrix(%s, %s) rendered" % (four, was))
    both = dict(kw, relative_length=env["width"] + env["height"] + 1)
    k = copy.copy(m)
    k.render(**both)
    right(k, "Matrix(%s, %s) rendered with a relative length as well" % (four, was))
    for side in ("width", "height"):  # which fills in for either side that is not given
        one = dict(kw, relative_length=kw[side])
        del one[side]
        k = copy.copy(m)
        k.render(**one)
        right(k, "Matrix(%s, %s) rendered with a relative length for the %s" % (four, was, side))
    left = [isinstance(x, Length) and u in NEEDS and x.amount != 0 for x, (t, u) in zip((m.e, m.f), (e, f))]
    require(left == [u in NEEDS and float(t) != 0 for t, u in (e, f)], "rendering a copy leaves %r, %r of %s", m.e, m.f, was)
    if any(left):
        require(m != n and n != m and not (m == n) and not (n == m), "a matrix with %s equals one with %r, %r", was, n.e, n.f)
        for i in (4, 5):
            o = Matrix(*(four + [3.0, 4.0]))
            o[i] = m[i]
            if left[i - 4]:
                require(o != m or m == o, "comparing matrices with lengths depends on their order")
                require(o != Matrix(*(four + [3.0, 4.0])) and Matrix(*(four + [3.0, 4.0])) != o, "a matrix with %s equals one with numbers", was)
    require([str(x) for x in given] == was, "using the matrix changed the lengths to %s, from %s", given, was)
    p = m.vector()
    require(p.e == 0 and p.f == 0 and [p.a, p.b, p.c, p.d] == [m.a, m.b, m.c, m.d], "vector() of a matrix with %s is %s", was, p)
    right(m.render(**kw) or m, "the matrix rendered at last")
    return any(left)


@sub("C16", "nothing to transform", st.sampled_from(["", " ", "\n", "translate(0)", "scale(1)", "rotate(0)", "matrix(1 0 0 1 0 0)", "skewX(0)", "translate(0,0)", "none"]), quick=20, thorough=20)
def neutral(text):
    from svgio import Matrix
    Matrix = Twice(Matrix)

    require(Matrix(text) == Matrix() and coefficients(Matrix(text)) == IDENTITY, "Matrix(%r) is %s", text, Matrix(text))
    return bool(text.strip())


@sub("C16", "long lists", transform_list(units=["", "", "", "px", "pc"], min_size=6, max_size=20), quick=200, thorough=12000)
def long_lists(case):
    return plain(case)


@sub("C16", "long lists with units", st.tuples(transform_list(min_size=5, max_size=12), environment).map(list), quick=200, thorough=12000)
def long_with_units(case):
    return with_units(case)
