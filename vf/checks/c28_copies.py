"""C28: copies are equal and independent, and operators spare their operands."""
import copy

from hypothesis import strategies as st

from ..big import big_commands
from ..common import (anypair, defining, invertible, kind, make, num, path_commands, path_text, segments_any, snap)
from ..core import Violation, require, rule, sub
from ..histories import fragment, seg_spec
from .c15_matrices import coefficients
from .c18_lengths_units import ALL
from .c19_colour_text import channels
from .c20_colour_components import colour

rule("C28", "cases are a value, how it is copied or which operator is applied, and changes made afterwards on either side; "
     "non-trivial: some change was visible on the side it was made on")

# ------------------------------------------------------------------ values and their whole observable state
# ["path", commands, matrix or None] ["subpath", commands, k] ["seg", spec] ["point", x, y] ["matrix", six]
# ["colour", four or None] ["length", amount, unit]

plain_commands = st.one_of(path_commands(min_size=1, max_size=6), path_commands(min_size=2, max_size=8, letters="MLZQZC"))
multi = path_commands(min_size=2, max_size=8, letters="MLMLQCZA")
length_amount = st.one_of(st.integers(-9, 9), st.integers(-80, 80).map(lambda i: i / 8))
translation = st.one_of(num, num, st.tuples(length_amount, st.sampled_from(["mm", "%", "em", "px"])).map(list))
matrix_value = st.one_of(invertible(), invertible(), st.tuples(num, num, num, num, translation, translation).map(list)).map(lambda m: ["matrix", m])
marks = st.one_of(st.just(0), st.integers(0, 1023))  # which segments are marked relative, which smooth
path_value = st.tuples(plain_commands, st.one_of(st.none(), invertible()), marks).map(lambda t: ["path"] + list(t))
subpath_value = st.tuples(multi, st.integers(0, 4), st.one_of(st.none(), invertible()), marks).map(lambda t: ["subpath"] + list(t))
seg_value = st.tuples(st.one_of(segments_any, segments_any, seg_spec()), marks).map(lambda t: ["seg"] + list(t))
point_value = anypair.map(lambda p: ["point", p[0], p[1]])
colour_value = st.one_of(colour, colour, st.none()).map(lambda v: ["colour", v])
length_value = st.tuples(length_amount, st.sampled_from(ALL)).map(lambda t: ["length", t[0], t[1]])
values = st.one_of(path_value, path_value, subpath_value, subpath_value, seg_value, seg_value, matrix_value, point_value, colour_value, length_value)


def matrix(m):
    from svgio import Matrix

    return Matrix(*[("%r%s" % (v[0], v[1]) if isinstance(v, list) else v) for v in m])


def marked(segs, marks):
    for i, s in enumerate(segs):
        if marks >> (2 * i) & 1:
            s.relative = True
        if marks >> (2 * i) & 2:
            s.smooth = kind(s) in "QC"
    return segs


def value(spec):
    from svgio import Color, Length, Path, Point

    k = spec[0]
    if k == "path":
        p = Path(path_text(spec[1]))
        if spec[2] is not None:
            p *= matrix(spec[2])
        return marked(p, spec[3])
    if k == "subpath":
        p = Path(path_text(spec[1]))
        if spec[3] is not None:
            p *= matrix(spec[3])
        marked(p, spec[4])
        return p.subpath(spec[2] % p.count_subpaths()) if len(p) else None
    if k == "seg":
        return marked([make(spec[1])], spec[2])[0]
    if k == "point":
        return Point(spec[1], spec[2])
    if k == "matrix":
        return matrix(spec[1])
    if k == "colour":
        return Color("none") if spec[1] is None else Color(*spec[1])
    if k == "length":
        return Length("%r%s" % (spec[1], spec[2]))
    if k == "text":
        return spec[1]
    if k == "number":
        return spec[1]
    if k == "pair":
        return tuple(spec[1])
    if k == "complex":
        return complex(*spec[1])
    raise KeyError(k)


def amount(x):
    from svgio import Length

    if isinstance(x, Length):
        # nothing, and lengths in pixels, are what their numbers are: a matrix may keep either
        return x.amount if x.amount == 0 or x.units in ("", "px") else ("length", x.amount, x.units)
    return x


def state(v):
    """All that can be observed of a value, exactly, as plain data."""
    from svgio import Color, Length, Matrix, Path, Point
    from svgio.path import PathSegment, Subpath

    if isinstance(v, Path):
        return ["path", [state(s) for s in v], state(v.transform), [snap_or_none(s) for s in v.segments()], v.d() if complete(v) else None]
    if isinstance(v, Subpath):
        return ["subpath", [state(s) for s in v], len(v), [snap_or_none(s) for s in v.segments()]]
    if isinstance(v, PathSegment):
        return ["seg", snap_or_none(v), v.relative, v.smooth if kind(v) in "QC" else None]
    if isinstance(v, Point):
        return ["point", v.x, v.y]
    if isinstance(v, Matrix):
        return ["matrix", v.a, v.b, v.c, v.d, amount(v.e), amount(v.f)]
    if isinstance(v, Color):
        return ["colour", v.value, None if v.value is None else channels(v)]
    if isinstance(v, Length):
        return ["length", v.amount, v.units]
    return v


def snap_or_none(s):
    return snap(s)


def complete(path):
    return all(None not in defining(s)[2:] for s in path) and all(None not in defining(s)[1:] for s in list(path)[1:])


# ------------------------------------------------------------------ changes

shift = st.tuples(st.sampled_from([1, -2, 0.5, 100]), st.sampled_from([3, -1, 0.25])).map(list)
points_of = {"M": ["start", "end"], "L": ["start", "end"], "Z": ["start", "end"], "Q": ["start", "control", "end"],
             "C": ["start", "control1", "control2", "end"], "A": ["start", "end", "center", "prx", "pry"]}
change = st.one_of(
    st.just(["points"]), st.just(["points"]),  # every point there is, moved in place
    st.tuples(st.just("point"), st.integers(0, 40), shift).map(list),
    st.tuples(st.just("replace"), st.integers(0, 40), anypair).map(list),
    st.tuples(st.just("transform"), invertible()).map(list),
    st.tuples(st.just("post"), invertible()).map(list),
    st.just(["reverse"]),
    st.just(["flags"]),
    st.just(["reify"]),
    st.tuples(st.just("append"), fragment).map(list),
    st.tuples(st.just("set"), st.integers(0, 9), seg_spec()).map(list),
    st.tuples(st.just("del"), st.integers(0, 9)).map(list),
    st.tuples(st.just("slice"), st.integers(0, 9), st.integers(0, 9)).map(list),
    st.tuples(st.just("window"), st.integers(0, 4), invertible()).map(list),
    st.tuples(st.just("component"), st.integers(0, 9), st.sampled_from([0, 1, 7, 200])).map(list),
    st.just(["clear"]),
)
changes = st.lists(change, min_size=1, max_size=4).map(lambda l: l + [["points"]])


def segments_of(v):
    from svgio import Path
    from svgio.path import PathSegment, Subpath

    if isinstance(v, PathSegment):
        return [v]
    if isinstance(v, (Path, Subpath)):
        return list(v)
    return []


def alter(v, ch):
    """Makes one change to a value in place, as far as its kind allows. Errors of impossible edits are no matter here."""
    from svgio import Color, Length, Matrix, Path, Point
    from svgio.path import PathSegment, Subpath

    k = ch[0]
    segs = segments_of(v)
    try:
        if isinstance(v, Point):
            if k == "point" or k == "points":
                dx, dy = ch[2] if k == "point" else (5, -3)
                v.x += dx
                v[1] = v.y + dy
            elif k == "transform":
                v *= matrix(ch[1])
            elif k == "replace":
                v += tuple(ch[2])
            else:
                v -= Point(1, 2)
        elif isinstance(v, Matrix):
            if k in ("point", "points"):
                v.e = v.e + 3 if not isinstance(v.e, Length) else 3
                v.a += 1
                v[1] = v.b + 1
                v.c -= 2
                v.f = 17
            elif k == "transform":
                v *= matrix(ch[1])
            elif k == "post":
                v.post_cat(matrix(ch[1]))
            elif k == "clear":
                v.reset()
            elif k == "reverse":
                v.inverse()
            elif k == "flags":
                if isinstance(v.e, Length):
                    v.e += Length(1, v.e.units)
                    v.e.amount += 4
                if isinstance(v.f, Length):
                    v.f *= 2
                    v.f.amount -= 4
            elif k == "reify":
                v.render(width=200, height=300, font_size=12, ppi=96, relative_length=100)
            else:
                v.pre_scale(2, 3)
        elif isinstance(v, Color):
            if v.value is None or k == "replace":
                v.value = 0x12345678
            elif k == "component":
                setattr(v, ["red", "green", "blue", "alpha"][ch[1] % 4], ch[2])
            elif k == "transform":
                v.opacity = 0.25
            else:
                v.red, v.green, v.blue, v.alpha = v.red ^ 1, v.green ^ 2, v.blue ^ 4, v.alpha ^ 8
        elif isinstance(v, Length):
            if k == "component":
                v *= ch[2]
            elif k == "transform":
                v += Length(3, v.units)
            elif k == "replace":
                v.units = "pt"
            else:
                v.amount += 4
        elif k == "points":
            for s in segs:
                for n in points_of[kind(s)]:
                    p = getattr(s, n)
                    if p is not None:
                        p.x += 5
                        p.y -= 3
            if isinstance(v, Path):
                v.transform.post_translate(3, 1)
        elif k in ("point", "replace") and segs:
            s = segs[ch[1] % len(segs)]
            names = points_of[kind(s)]
            n = names[ch[1] // len(segs) % len(names)]
            if k == "replace":
                setattr(s, n, Point(*ch[2]))
            elif getattr(s, n) is not None:
                p = getattr(s, n)
                p += tuple(ch[2])
        elif k == "transform":
            v *= matrix(ch[1])
        elif k == "reverse":
            v.reverse()
        elif k == "flags":
            for s in segs:
                s.relative = not s.relative
                s.smooth = not s.smooth
                if kind(s) == "A":
                    s.sweep = -s.sweep
        elif isinstance(v, PathSegment):
            if k in ("post", "window"):
                v *= matrix(ch[-1])
            else:
                v.end = Point(77, 78)
        elif k == "append":
            v += path_text(ch[1])
        elif k == "set":
            v[ch[1] % len(v)] = make(ch[2])
        elif k == "del":
            del v[ch[1] % len(v)]
        elif k == "slice":
            del v[min(ch[1:]):max(ch[1:])]
        elif isinstance(v, Path):
            if k == "post":
                v.transform.post_cat(matrix(ch[1]))
                v.transform.a += 1
            elif k == "reify":
                v.reify()
            elif k == "window":
                w = v.subpath(ch[1] % v.count_subpaths())
                w *= matrix(ch[2])
            elif k == "clear":
                v.clear()
    except (ValueError, IndexError, TypeError, AttributeError, ZeroDivisionError):
        pass


def hooked(v):
    """What a subpath is a window on counts as part of it."""
    from svgio.path import Subpath

    if isinstance(v, Subpath):
        return [state(v), v.d() if complete(v) else None]
    return state(v)


def copies_of(v, how):
    from svgio import Angle, Color, Length, Matrix, Path, Point

    if how == 1 and type(v) in (Color, Length, Matrix, Path, Point):
        return type(v)(v), "%s(x)" % type(v).__name__
    if how == 2:
        return v.__copy__() if hasattr(v, "__copy__") else copy.copy(v), "copy"
    if how == 3:
        return copy.deepcopy(v), "deepcopy"
    if how == 4 and type(v) in (Matrix, Path, Point) and type(v) is not Path:
        return type(v)(*(v if type(v) is Point else [v.a, v.b, v.c, v.d, v.e, v.f])), "made of the parts"
    return copy.copy(v), "copy"


def as_path(spec, first, second):
    """A path made of a subpath: its segments under the same transform, with lives of their own."""
    from svgio import Path

    p = value(["path", spec[1], spec[3], spec[4]])
    v = p.subpath(spec[2] % p.count_subpaths())
    before = hooked(v)
    w = Path(v)
    require(hooked(v) == before, "making a path of a subpath changed it")
    require(w == v and v == w and not (w != v), "Path(subpath) is not equal to the subpath")
    require(state(w)[1] == before[0][1] and state(w)[3] == before[0][3], "Path(subpath) is %s, the subpath is %s", state(w), before)
    home, seen = state(p), False
    for ch in first:
        old = state(w)
        alter(w, ch)
        seen = seen or state(w) != old
        require(hooked(v) == before and state(p) == home, "%s done to Path(subpath) shows in the subpath or its path", ch[0])
    after = state(w)
    for ch in second:
        alter(v, ch)
        alter(p, ch)
        require(state(w) == after, "%s done to a subpath or its path shows in the path made of it", ch[0])
    return seen


@sub("C28", "copies", st.tuples(values, st.sampled_from([0, 0, 0, 1, 1, 2, 3, 4, 5]), changes, changes).map(list), quick=2200, thorough=150000)
def copies(case):
    spec, how, first, second = case
    v = value(spec)
    if v is None or spec[0] == "path" and not len(v):
        return False
    before = hooked(v)
    if how == 5 and spec[0] == "subpath":
        return as_path(spec, first, second)
    w, word = copies_of(v, how)
    what = "%s of the %s" % (word, spec[0])
    require(type(w) is type(v), "the %s is a %s", what, type(w).__name__)
    require(hooked(v) == before, "making a %s changed it", what)
    require(hooked(w) == before, "the %s is %s, the original is %s", what, hooked(w), before)
    if all(None not in defining(s) for s in segments_of(v)):
        require(w == v and v == w and not (w != v) and not (v != w), "the %s is not equal to it", what)
    # changes to the copy do not show in the original
    seen = False
    for ch in first:
        alter(w, ch)
        require(hooked(v) == before, "%s done to the %s shows in the original: %s, before %s", ch[0], what, hooked(v), before)
        seen = seen or hooked(w) != before
    # nor the other way round
    after = hooked(w)
    for ch in second:
        alter(v, ch)
        require(hooked(w) == after, "%s done to the original shows in the %s: %s, before %s", ch[0], what, hooked(w), after)
    return seen


long_values = st.tuples(big_commands(10, 40), st.one_of(st.none(), invertible()), marks, st.integers(0, 30), st.booleans()).map(
    lambda t: ["subpath", t[0], t[3], t[1], t[2]] if t[4] else ["path"] + list(t[:3]))


@sub("C28", "long", st.tuples(long_values, st.sampled_from([0, 1, 2, 3, 4, 5]), changes, changes).map(list), quick=80, thorough=5000)
def long_copies(case):
    return copies(case)


@sub("C28", "chains", st.tuples(values, changes, changes, changes).map(list), quick=600, thorough=40000)
def chains(case):
    """A copy, changed, then a copy of that: three values with lives of their own."""
    spec, a, b, d = case
    v = value(spec)
    if v is None:
        return False
    for ch in a[:-1]:
        alter(v, ch)
    s1 = hooked(v)
    w = copy.copy(v)
    require(hooked(w) == s1, "the copy of a changed %s is %s, not %s", spec[0], hooked(w), s1)
    for ch in b:
        alter(w, ch)
    s2 = hooked(w)
    u = copy.copy(w)
    require(hooked(u) == s2, "the copy of a changed copy of a %s is %s, not %s", spec[0], hooked(u), s2)
    for ch in d:
        alter(w, ch)
    require(hooked(v) == s1, "changes to a copy show in the %s", spec[0])
    require(hooked(u) == s2, "changes to a %s show in its copy", spec[0])
    s3 = hooked(w)
    for ch in b:
        alter(v, ch)
        alter(u, ch)
    require(hooked(w) == s3, "changes to a %s or to a copy of its copy show in the copy", spec[0])
    return s3 != s2


# ------------------------------------------------------------------ operators

text_path = fragment.map(lambda cm: ["text", path_text(cm)])
text_matrix = st.sampled_from(["scale(2)", "translate(3,4)", "rotate(30)", "matrix(1 2 3 4 5 6)", "skewX(10) scale(-1,2)"]).map(lambda t: ["text", t])
plain_matrix = invertible().map(lambda m: ["matrix", m])
number = st.sampled_from([2, -1, 0.5, 3]).map(lambda n: ["number", n])
pairs = anypair.map(lambda p: ["pair", p])
complexes = anypair.map(lambda p: ["complex", p])
same_unit = st.tuples(length_amount, length_amount, st.sampled_from(ALL)).map(lambda t: [["length", t[0], t[2]], ["length", t[1], t[2]]])


def two(a, b):
    return st.tuples(a, b).map(list)


operations = st.one_of(
    two(path_value, path_value).map(lambda p: ["+"] + p), two(path_value, text_path).map(lambda p: ["+"] + p),
    two(path_value, seg_value).map(lambda p: ["+"] + p), two(seg_value, path_value).map(lambda p: ["+"] + p),
    two(text_path, path_value).map(lambda p: ["+"] + p), two(path_value, subpath_value).map(lambda p: ["+"] + p),
    two(subpath_value, path_value).map(lambda p: ["+"] + p), two(subpath_value, text_path).map(lambda p: ["+"] + p),
    two(subpath_value, seg_value).map(lambda p: ["+"] + p), two(seg_value, subpath_value).map(lambda p: ["+"] + p),
    two(text_path, subpath_value).map(lambda p: ["+"] + p),
    two(seg_value, seg_value).map(lambda p: ["+"] + p), two(seg_value, text_path).map(lambda p: ["+"] + p),
    two(path_value, plain_matrix).map(lambda p: ["*"] + p), two(plain_matrix, path_value).map(lambda p: ["*"] + p),
    two(path_value, text_matrix).map(lambda p: ["*"] + p), two(subpath_value, plain_matrix).map(lambda p: ["*"] + p),
    two(path_value, plain_matrix).map(lambda p: ["@"] + p),
    two(subpath_value, text_matrix).map(lambda p: ["*"] + p),
    two(plain_matrix, subpath_value).map(lambda p: ["*"] + p), two(seg_value, plain_matrix).map(lambda p: ["*"] + p),
    two(seg_value, text_matrix).map(lambda p: ["*"] + p), two(plain_matrix, seg_value).map(lambda p: ["*"] + p),
    two(matrix_value, plain_matrix).map(lambda p: ["*"] + p), two(plain_matrix, text_matrix).map(lambda p: ["*"] + p),
    two(plain_matrix, matrix_value).map(lambda p: ["*"] + p), two(plain_matrix, plain_matrix).map(lambda p: ["@"] + p),
    two(text_matrix, plain_matrix).map(lambda p: ["*"] + p), two(point_value, plain_matrix).map(lambda p: ["*"] + p),
    two(plain_matrix, point_value).map(lambda p: ["*"] + p), two(point_value, text_matrix).map(lambda p: ["*"] + p),
    two(point_value, st.one_of(point_value, pairs, complexes, number)).map(lambda p: ["+"] + p),
    two(point_value, st.one_of(point_value, pairs, complexes, number)).map(lambda p: ["-"] + p),
    two(st.one_of(pairs, complexes, number), point_value).map(lambda p: ["+"] + p),
    two(st.one_of(pairs, complexes, number), point_value).map(lambda p: ["-"] + p),
    two(point_value, st.one_of(point_value, complexes, number)).map(lambda p: ["*"] + p),
    same_unit.map(lambda p: ["+"] + p), same_unit.map(lambda p: ["-"] + p), same_unit.map(lambda p: ["/"] + p),
    two(length_value, number).map(lambda p: ["*"] + p), two(number, length_value).map(lambda p: ["*"] + p), two(length_value, number).map(lambda p: ["/"] + p),
    path_value.map(lambda p: ["abs", p, ["number", 0]]), length_value.map(lambda p: ["neg", p, ["number", 0]]),
    length_value.map(lambda p: ["abs", p, ["number", 0]]), plain_matrix.map(lambda p: ["~", p, ["number", 0]]),
    colour_value.map(lambda p: ["abs", p, ["number", 0]]),
)
OPERATORS = {
    "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b, "@": lambda a, b: a @ b,
    "abs": lambda a, b: abs(a), "neg": lambda a, b: -a, "~": lambda a, b: ~a,
}


def whole(v):
    return hooked(v) if hasattr(v, "__dict__") or hasattr(type(v), "__slots__") else v


@sub("C28", "operators", st.tuples(operations, changes, changes).map(list), quick=2800, thorough=200000)
def operators(case):
    (op, left, right), first, second = case
    a, b = value(left), value(right)
    if a is None or b is None:
        return False
    f = OPERATORS[op]
    sa, sb = whole(a), whole(b)
    what = "%s %s %s" % (left[0], op, right[0])
    try:
        r = f(a, b)
    except (TypeError, ValueError, ZeroDivisionError):
        r = None
    require(whole(a) == sa, "%s changed its left operand from %s to %s", what, sa, whole(a))
    require(whole(b) == sb, "%s changed its right operand from %s to %s", what, sb, whole(b))
    if r is None or isinstance(r, (int, float, complex, str)):
        return False
    require(r is not a and r is not b, "%s is one of its operands", what)
    sr = whole(r)
    # the same again, while the first result is changed
    seen = False
    for ch in first:
        alter(r, ch)
        seen = seen or whole(r) != sr
        require(whole(a) == sa, "%s done to the result of %s shows in its left operand: %s, before %s", ch[0], what, whole(a), sa)
        require(whole(b) == sb, "%s done to the result of %s shows in its right operand: %s, before %s", ch[0], what, whole(b), sb)
    r2 = f(a, b)
    require(whole(r2) == sr, "%s is %s the second time, was %s", what, whole(r2), sr)
    for ch in second:
        alter(a, ch)
        require(whole(r2) == sr, "%s done to the left operand of %s shows in its result: %s, before %s", ch[0], what, whole(r2), sr)
        alter(b, ch)
        require(whole(r2) == sr, "%s done to the right operand of %s shows in its result: %s, before %s", ch[0], what, whole(r2), sr)
    return seen


@sub("C28", "with itself", st.tuples(st.one_of(path_value, subpath_value, point_value, plain_matrix, length_value, seg_value), st.sampled_from(["+", "*", "-", "@"]), changes).map(list), quick=600, thorough=20000)
def itself(case):
    """Both operands being one and the same value."""
    spec, op, chs = case
    a = value(spec)
    if a is None:
        return False
    sa = whole(a)
    try:
        r = OPERATORS[op](a, a)
    except (TypeError, ValueError, AttributeError):
        require(whole(a) == sa, "%s %s itself changed it", spec[0], op)
        return False
    require(whole(a) == sa, "%s %s itself changed it from %s to %s", spec[0], op, sa, whole(a))
    if isinstance(r, (int, float, complex, str)) or r is None:
        return False
    require(r is not a, "%s %s itself is no new value", spec[0], op)
    sr = whole(r)
    for ch in chs:
        alter(r, ch)
        require(whole(a) == sa, "%s done to %s %s itself shows in it", ch[0], spec[0], op)
    r2 = OPERATORS[op](a, a)
    require(whole(r2) == sr, "%s %s itself is different the second time", spec[0], op)
    for ch in chs:
        alter(a, ch)
        require(whole(r2) == sr, "%s done to a %s shows in its %s with itself", ch[0], spec[0], op)
    return True
