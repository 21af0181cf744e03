"""C32: reading a value never changes it, and an answer depends only on what the value is."""
import re

from hypothesis import strategies as st

from .. import trees
from ..big import big_commands
from ..common import anypair, c, closes_end_subpaths, frac, invertible, kind, make, matrices, num, pair, path_commands, path_text, pt, remade, segments_any, snap
from ..core import Violation, require, rule, sub
from ..histories import Skip, op
from .c08_measure import _sound, edit, extra

rule("C32", "cases are histories of readings and edits of one value; each is done again on a value made anew which was never read; "
     "non-trivial: at least two different readings and an edit after a reading, or three different readings")

ERR = 1e-5
_absent = object()


def answer(x, depth=0):
    """What was read, as plain data."""
    import svgio
    from svgio.nodes import Node
    from svgio.path import PathSegment, Subpath

    if x is None or isinstance(x, (bool, str, bytes)):
        return x
    if isinstance(x, Node):
        where = []
        while x.parent is not None:
            where.append([i for i, n in enumerate(x.parent) if n is x][:1])
            x = x.parent
        return ["node", type(x).__name__, where[::-1]]
    if isinstance(x, PathSegment):
        return ["segment", kind(x), answer(snap(x)), x.relative, getattr(x, "smooth", None)]
    if isinstance(x, svgio.Path):
        return ["path", [answer(s) for s in x], answer(x.transform)]
    if isinstance(x, Subpath):
        return ["subpath", [answer(s) for s in x]]
    if isinstance(x, svgio.Matrix):
        return ["matrix"] + [answer(x[i]) for i in range(6)]
    if isinstance(x, svgio.Length):
        return ["length", answer(x.amount), x.units]
    if isinstance(x, svgio.Color):
        return ["colour", x.value]
    if isinstance(x, svgio.Point):
        return ["point", answer(x.x), answer(x.y)]
    if isinstance(x, complex):
        return ["complex", answer(x.real), answer(x.imag)]
    if isinstance(x, int):
        return x
    if isinstance(x, float):
        return "nan" if x != x else float(x)
    if hasattr(x, "tolist"):
        return answer(x.tolist(), depth)
    if isinstance(x, dict):
        return ["dict", [[str(k), answer(v, depth + 1)] for k, v in x.items()]]
    if isinstance(x, (list, tuple)) or hasattr(x, "__next__"):
        return [answer(y, depth + 1) for y in x]
    return ["other", type(x).__name__]


def alike(a, b, tol=1e-9):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(alike(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, (bool, str)) or isinstance(b, (bool, str)) or a is None or b is None or isinstance(a, list) or isinstance(b, list):
            return False
        return a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    return type(a) is type(b) and a == b


def ask(fn, *args):
    """The answer, or the kind of exception raised."""
    try:
        return answer(fn(*args))
    except Violation:
        raise
    except Exception as e:
        return ["raises", type(e).__name__]


def walk(start, steps, state, edit, readings, tol=lambda name: 1e-9):
    """Steps are edits ["edit", ...] or readings ["read", name, argument]. start() makes the value. Values made anew get the edits only."""
    v = start()
    edits = []
    names = set()
    edited_since = False
    for step in steps:
        if step[0] == "edit":
            try:
                v = edit(v, step[1])
            except Skip:
                continue
            edits.append(step[1])
            edited_since = edited_since or bool(names)
            continue
        _, name, arg = step
        w = start()
        for e in edits:
            w = edit(w, e)
        was = state(w)
        require(alike(state(v), was), "the value is %s, one made alike and edited alike but not read is %s", state(v), was)
        want = ask(readings[name], w, arg)
        got = ask(readings[name], v, arg)
        require(alike(got, want, tol(name)), "after %d edits and the readings %s, %s(%s) is %s, that of a value made anew is %s", len(edits), sorted(names), name, arg, got, want)
        require(alike(state(v), was), "reading %s(%s) made %s of %s", name, arg, state(v), was)
        require(alike(state(w), was), "the first reading %s(%s) made %s of %s", name, arg, state(w), was)
        names.add(name)
    return len(names) >= 3 or edited_since and len(names) >= 2


def steps(readings, edits, argument, low=3, high=9):
    read = st.tuples(st.just("read"), st.sampled_from(sorted(readings)), argument).map(list)
    change = st.tuples(st.just("edit"), edits).map(list)
    return st.lists(st.one_of(read, read, change), min_size=low, max_size=high)


def sweep(start, edits, order, argument, state, edit, readings, tol=lambda name: 1e-9):
    """Two values made alike: every reading of both, on the second in the opposite order, gives the same and leaves the state."""
    v, w = start(), start()
    for o in edits:
        try:
            v, w = edit(v, o), edit(w, o)
        except Skip:
            continue
    was = state(v)
    require(alike(was, state(w)), "two values made alike are %s and %s", was, state(w))
    names = sorted(readings)
    names = names[order % len(names):] + names[:order % len(names)]
    if order % 2:
        names = names[::2] + names[1::2]
    got, want = {}, {}
    for out, x, seq in ((got, v, names), (want, w, names[::-1])):
        for name in seq:
            out[name] = ask(readings[name], x, argument)
            require(alike(state(x), was), "reading %s(%s) made %s of %s", name, argument, state(x), was)
    for name in names:
        require(alike(got[name], want[name], tol(name)), "%s(%s) is %s or %s, depending on what was read before", name, argument, got[name], want[name])
    return True


def swept(edits, argument, high=3):
    return [st.lists(edits, max_size=high), st.integers(0, 99), argument]


# ------------------------------------------------------------------ paths

path_argument = st.tuples(st.integers(0, 8), frac, invertible(), anypair).map(list)


def nth(p, i):
    return p[i % len(p)]


PATH = {
    "length": lambda p, a: p.length(error=ERR),
    "point": lambda p, a: p.point(a[1], error=ERR),
    "npoint": lambda p, a: p.npoint([a[1], 0, 1, 0.5], error=ERR),
    "d": lambda p, a: p.d(),
    "d relative": lambda p, a: p.d(relative=a[0] % 2 == 0),
    "d smooth": lambda p, a: p.d(smooth=a[0] % 2 == 0),
    "d plain": lambda p, a: p.d(transformed=False),
    "str": lambda p, a: str(p),
    "repr": lambda p, a: repr(p),
    "len": lambda p, a: len(p),
    "bool": lambda p, a: bool(p),
    "segments": lambda p, a: p.segments(),
    "segments plain": lambda p, a: p.segments(False),
    "abs": lambda p, a: abs(p),
    "times": lambda p, a: p * pmatrix(a),
    "times text": lambda p, a: p * "rotate(30) scale(2)",
    "at": lambda p, a: p @ pmatrix(a),
    "plus": lambda p, a: p + "L %r,%r" % tuple(a[3]),
    "plus path": lambda p, a: p + p,
    "text plus": lambda p, a: "M %r,%r" % tuple(a[3]) + p,
    "first": lambda p, a: p.first_point,
    "current": lambda p, a: p.current_point,
    "z": lambda p, a: p.z_point,
    "smooth point": lambda p, a: p.smooth_point,
    "count": lambda p, a: p.count_subpaths(),
    "subpaths": lambda p, a: list(p.as_subpaths()),
    "subpath": lambda p, a: p.subpath(a[0] % max(1, p.count_subpaths())),
    "subpath d": lambda p, a: p.subpath(a[0] % max(1, p.count_subpaths())).d(),
    "subpath box": lambda p, a: p.subpath(a[0] % max(1, p.count_subpaths())).bbox(),
    "subpath segments": lambda p, a: p.subpath(a[0] % max(1, p.count_subpaths())).segments(),
    "subpath times": lambda p, a: p.subpath(a[0] % max(1, p.count_subpaths())) * pmatrix(a),
    "subpath plus": lambda p, a: p.subpath(a[0] % max(1, p.count_subpaths())) + "L 1,2",
    "subpath copy": lambda p, a: copied(p.subpath(a[0] % max(1, p.count_subpaths()))),
    "subpath item": lambda p, a: p.subpath(a[0] % max(1, p.count_subpaths()))[a[0] % 3],
    "subpath text": lambda p, a: [f(p.subpath(a[0] % max(1, p.count_subpaths()))) for f in (str, repr, len)],
    "subpath equal": lambda p, a: p.subpath(0) == p.subpath(max(0, p.count_subpaths() - 1)),
    "points": lambda p, a: list(p.as_points()),
    "item": lambda p, a: nth(p, a[0]),
    "slice": lambda p, a: p[a[0] % 4:a[0]],
    "backwards": lambda p, a: list(reversed(p)),
    "index": lambda p, a: p.index(nth(p, a[0])),
    "tally": lambda p, a: p.count(nth(p, a[0])),
    "contains": lambda p, a: nth(p, a[0]) in p,
    "equal": lambda p, a: [p == p, p != p, p == p.d(), p == "M0,0", p == 7],
    "copy": lambda p, a: copied(p),
    "path of": lambda p, a: type(p)(p),
    "part box": lambda p, a: nth(p, a[0]).bbox(),
    "part length": lambda p, a: nth(p, a[0]).length(error=ERR),
    "part point": lambda p, a: nth(p, a[0]).point(a[1]),
    "part d": lambda p, a: nth(p, a[0]).d(),
    "part times": lambda p, a: nth(p, a[0]) * pmatrix(a),
    "start": lambda p, a: p.start,
    "end": lambda p, a: p.end,
}


def pmatrix(a):
    from svgio import Matrix

    return Matrix(*a[2])


def copied(x):
    from copy import copy

    return copy(x)


def path_state(p):
    return answer(p)


def allowed_edit(p, o):
    lazy = not p.transform.is_identity()
    if o[0] in ("subset", "submul", "set", "setslice", "radd", "parse", "subadd") and lazy:
        raise Skip
    return edit(p, o)


def path_edit(p, o):
    q = allowed_edit(p, o)
    if len(q) and q[0].start is None and kind(q[0]) != "M":
        raise Violation("unreachable")
    return q


def admissible(commands, steps):
    """How far the history stays within paths which begin somewhere and whose arcs are ellipses."""
    from svgio import Path

    p = Path(path_text(commands))
    kept = []
    for step in steps:
        if step[0] == "edit":
            o = step[1]
            lazy = not p.transform.is_identity()
            if o[0] in ("subset", "submul", "set", "setslice", "radd", "parse", "subadd") and lazy:
                continue
            try:
                p = edit(p, o)
            except Skip:
                continue
            if len(p) and p[0].start is None and kind(p[0]) != "M":
                break
            if any(kind(s) == "A" and not _sound(s) for s in p):
                break
            if len(p) > 40:
                break
        kept.append(step)
    return kept


@sub("C32", "paths", st.tuples(path_commands(min_size=1, max_size=6), steps(PATH, st.one_of(op(), extra), path_argument)).map(list), quick=900, thorough=40000, weight=3)
def paths(case):
    from svgio import Path

    commands, history = case
    history = admissible(commands, history)
    return walk(lambda: Path(path_text(commands)), history, path_state, path_edit, PATH, path_tolerance)


@sub("C32", "all of a path", st.tuples(path_commands(min_size=1, max_size=6), st.one_of(st.none(), invertible()), *swept(st.one_of(op(), extra), path_argument)).map(list), quick=300, thorough=10000, weight=3)
def all_of_a_path(case):
    from svgio import Matrix, Path

    commands, matrix, edits, order, argument = case
    edits = [e[1] for e in admissible(commands, [["edit", e] for e in edits])]

    def start():
        return Path(path_text(commands))

    def change(p, o):
        return path_edit(p, o) if o[0] != "pending" else p.__imul__(Matrix(*o[1]))

    if matrix is not None:
        edits = edits + [["pending", matrix]]
    return sweep(start, edits, order, argument, path_state, change, PATH, path_tolerance)


def bare(x):
    """0.0 and 0 are the same number in text as well."""
    if isinstance(x, list):
        return [bare(y) for y in x]
    return re.sub(r"(?<![\d.])(\d+)\.0(?!\d)", r"\1", x) if isinstance(x, str) else x


def everything(p, argument, which):
    """All which can be read of the path and of its segments, by what was asked."""
    out = {}
    for name in sorted(PATH):
        if which % 3 != 1 or "length" not in name:
            out[name] = ask(PATH[name], p, argument)
    for i, s in enumerate(p):
        for name in sorted(SEGMENT):
            if "length" not in name:
                out["%s of segment %d" % (name, i)] = ask(SEGMENT[name], s, argument)
    return out


small_index = st.integers(-3, 4)
reshaping = st.one_of(  # edits which move the ends of what stays, and those which would show points held twice
    st.tuples(st.sampled_from(["del", "pop"]), small_index).map(list),
    st.tuples(st.sampled_from(["insert", "set"]), small_index, st.tuples(st.sampled_from("ML"), st.none(), anypair).map(list).map(lambda s: ["seg", s])).map(list),
    st.tuples(st.just("subreverse"), st.integers(0, 1)).map(list),
    st.tuples(st.just("submul"), st.integers(0, 1), invertible()).map(list),
    st.tuples(st.sampled_from(["mulreify", "abs", "mul", "mul"]), invertible()).map(list),
    st.just(["reverse"]),
    st.tuples(st.just("subset"), st.integers(0, 1), st.integers(0, 3), anypair).map(list),
    st.tuples(st.just("subdel"), st.integers(0, 1), st.integers(1, 3)).map(list),
)
arced = st.one_of(path_commands(min_size=1, max_size=6), path_commands(min_size=3, max_size=6, letters="LLAAQCMZ"))


@sub("C32", "remade paths", st.tuples(arced, st.lists(st.one_of(reshaping, reshaping, op(), extra), min_size=1, max_size=4), path_argument).map(list), quick=600, thorough=20000, weight=3)
def remade_paths(case):
    """What a path was before does not show: after each edit it reads like one made of the same numbers, and is edited alike."""
    from svgio import Path

    commands, edits, argument = case
    p = Path(path_text(commands))
    done = 0
    for o in edits:
        q = remade(p)
        was = path_state(p)
        require(alike(path_state(q), was), "a path made of %s is %s", was, path_state(q))
        everything(p, argument, argument[0])
        require(path_state(p) == was, "reading changed the path")
        try:
            p = edit(p, o)
        except Skip:
            continue
        q = edit(q, o)
        if len(p) and p[0].start is None and kind(p[0]) != "M" or len(p) > 40:
            break
        done += 1
        require(alike(path_state(p), path_state(q)), "%s makes %s of the path, of one made of the same numbers %s", o, path_state(p), path_state(q))
        r = remade(p)
        got, want = everything(p, argument, argument[0]), everything(r, argument, argument[0])
        for name in want:
            require(alike(bare(got.get(name)), bare(want[name]), path_tolerance(name)), "after %s %s(%s) is %s, for a path made of the same numbers %s", o, name, argument, got.get(name), want[name])
    return done


def path_tolerance(name):
    return 1e-4 if "length" in name else 1e-6 if "point" in name else 1e-9


# ------------------------------------------------------------------ segments

SEGMENT = {
    "length": lambda s, a: s.length(error=ERR),
    "rough length": lambda s, a: s.length(error=1e-2),
    "point": lambda s, a: s.point(a[1]),
    "points": lambda s, a: s.npoint([a[1], 0.0, 1.0]),
    "box": lambda s, a: s.bbox(),
    "d": lambda s, a: s.d(),
    "d relative": lambda s, a: s.d(current_point=c(a[3]), relative=a[0] % 2 == 0),
    "d smooth": lambda s, a: s.d(smooth=a[0] % 2 == 0),
    "str": lambda s, a: str(s),
    "repr": lambda s, a: repr(s),
    "times": lambda s, a: s * pmatrix(a),
    "times text": lambda s, a: s * "skewX(20)",
    "plus": lambda s, a: s + "L 7,8",
    "len": lambda s, a: len(s),
    "item": lambda s, a: s[a[0] % 6],
    "list": lambda s, a: list(s),
    "backwards": lambda s, a: [x for x in reversed(s)],
    "equal": lambda s, a: [s == s, s != s, s == copied(s), s == make(["L", [0, 0], a[3]]), s == "M0,0", s == 3],
    "copy": lambda s, a: copied(s),
    "nearest": lambda s, a: s.closest_segment_point(c(a[3]), a[0] % 2 == 0),
    "smooth from": lambda s, a: s.is_smooth_from(make(["C", [0, 0], [1, 1], [2, 2], a[3]])),
    "ends": lambda s, a: [s.start, s.end],
    # arcs
    "theta": lambda s, a: [s.theta, s.delta],
    "radii": lambda s, a: [s.rx, s.ry, s.get_rotation(), s.radius, s.is_circular()],
    "angles": lambda s, a: [s.get_start_angle(), s.get_end_angle(), s.get_start_t(), s.get_end_t()],
    "at angle": lambda s, a: s.point_at_angle(a[1] * 7),
    "angle at": lambda s, a: s.angle_at_point(s.point(a[1])),
    "t at": lambda s, a: s.t_at_point(s.point(a[1])),
    "at t": lambda s, a: s.point_at_t(a[1] * 9 - 3),
    "quads": lambda s, a: list(s.as_quad_curves(None if a[0] < 4 else a[0])),
    "cubics": lambda s, a: list(s.as_cubic_curves(None if a[0] < 4 else a[0])),
}


def segment_edit(s, o):
    if o[0] == "reverse":
        s.reverse()
    elif o[0] == "times":
        from svgio import Matrix

        s *= Matrix(*o[1])
    elif kind(s) == "A":
        raise Skip
    elif o[0] == "move":  # a point of the segment itself is moved
        q = [x for x in s if x is not None]
        if not q:
            raise Skip
        q = q[o[1] % len(q)]
        q.x += o[2][0]
        q.y += o[2][1]
    elif o[0] == "mark":
        s.relative = o[1]
    return s


segment_edits = st.one_of(st.just(["reverse"]), st.tuples(st.just("times"), invertible()).map(list), st.tuples(st.just("move"), st.integers(0, 3), anypair).map(list),
                          st.tuples(st.just("mark"), st.booleans()).map(list))


@st.composite
def long_arcs(draw):
    """Arcs by center, radii, rotation and any sweep, of more than a turn too."""
    return ["N", draw(anypair), draw(st.integers(1, 30)), draw(st.integers(1, 30)), draw(st.integers(-12, 12)) / 4, draw(st.integers(-12, 12)) / 4, draw(st.integers(-40, 40)) / 4]


recipes = st.one_of(segments_any, segments_any, segments_any, long_arcs())


def made(spec):
    from math import cos, sin

    from svgio import Arc

    if spec[0] != "N":
        return make(spec)
    _, m, rx, ry, rot, t, n = spec
    m = c(m)
    u, v = rx * complex(cos(rot), sin(rot)), ry * complex(-sin(rot), cos(rot))
    return Arc(*[point_of([z.real, z.imag]) for z in (m + cos(t) * u + sin(t) * v, m + cos(t + n) * u + sin(t + n) * v, m, m + u, m + v)], n)


def in_shape(spec, edits):
    """The edits up to where an arc gets out of shape."""
    s = made(spec)
    kept = []
    for o in edits:
        if o[0] != "read":
            try:
                s = segment_edit(s, o[1] if o[0] == "edit" else o)
            except Skip:
                continue
            if kind(s) == "A" and not _sound(s):
                break
        kept.append(o)
    return kept


@sub("C32", "segments", st.tuples(recipes, steps(SEGMENT, segment_edits, path_argument)).map(list), quick=1800, thorough=80000, weight=2)
def segments(case):
    spec, history = case
    if spec[0] == "A" and spec[1] == spec[7]:
        return False
    return walk(lambda: made(spec), in_shape(spec, history), answer, segment_edit, SEGMENT, lambda name: 1e-4 if "length" in name else 1e-9)


@sub("C32", "all of a segment", st.tuples(recipes, *swept(segment_edits, path_argument)).map(list), quick=600, thorough=20000, weight=2)
def all_of_a_segment(case):
    spec, edits, order, argument = case
    if spec[0] == "A" and spec[1] == spec[7]:
        return False
    return sweep(lambda: made(spec), in_shape(spec, edits), order, argument, answer, segment_edit, SEGMENT, lambda name: 1e-4 if "length" in name else 1e-9)


# ------------------------------------------------------------------ matrices, points, angles, lengths, colours

MATRIX = {
    "items": lambda m, a: [m.a, m.b, m.c, m.d, m.e, m.f],
    "str": lambda m, a: str(m),
    "repr": lambda m, a: repr(m),
    "len": lambda m, a: len(m),
    "equal": lambda m, a: [m == m, m != m, m == type(m)(*a[2]), m == "scale(2)", m == 1],
    "identity": lambda m, a: m.is_identity(),
    "invert": lambda m, a: ~m,
    "times": lambda m, a: m * type(m)(*a[2]),
    "at": lambda m, a: m @ type(m)(*a[2]),
    "text at": lambda m, a: "rotate(20)" @ m,
    "determinant": lambda m, a: m.determinant,
    "vector": lambda m, a: m.vector(),
    "parts": lambda m, a: [m.value_trans_x(), m.value_trans_y(), m.value_scale_x(), m.value_scale_y(), m.value_skew_x(), m.value_skew_y()],
    "point": lambda m, a: m.point_in_matrix_space(c(a[3])),
    "point back": lambda m, a: m.point_in_inverse_space(c(a[3])),
    "image": lambda m, a: m.transform_point(list(a[3])),
    "vector image": lambda m, a: m.transform_vector(list(a[3])),
    "point times": lambda m, a: point_of(a[3]) * m,
    "copy": lambda m, a: copied(m),
    "matrix of": lambda m, a: type(m)(m),
}


def point_of(p):
    from svgio import Point

    return Point(*p)


def matrix_edit(m, o):
    if o[0] == "item":
        m[o[1]] = o[2]
    elif o[0] == "imatmul":
        m @= type(m)(*o[1])
    elif o[0] == "inverse":
        m.inverse()
    elif o[0] == "reset":
        m.reset()
    else:
        getattr(m, o[0])(*o[1])
    return m


matrix_edits = st.one_of(
    st.tuples(st.just("item"), st.integers(0, 5), num).map(list),
    st.tuples(st.just("imatmul"), matrices).map(list),
    st.tuples(st.sampled_from(["post_scale", "post_translate", "post_skew", "pre_scale", "pre_translate", "pre_skew"]), anypair).map(list),
    st.tuples(st.sampled_from(["post_rotate", "pre_rotate", "post_skew_x", "pre_skew_y"]), st.tuples(st.sampled_from([0.5, 1.0, -2.0]), num, num).map(list)).map(list),
    st.just(["inverse"]), st.just(["reset"]),
)


@sub("C32", "matrices", st.tuples(matrices, steps(MATRIX, matrix_edits, path_argument)).map(list), quick=1200, thorough=60000)
def matrices_(case):
    from svgio import Matrix

    def change(m, o):
        try:
            return matrix_edit(m, o)
        except ZeroDivisionError:
            raise Skip

    return walk(lambda: Matrix(*case[0]), case[1], answer, change, MATRIX)


@sub("C32", "all of a matrix", st.tuples(matrices, *swept(matrix_edits, path_argument)).map(list), quick=300, thorough=10000)
def all_of_a_matrix(case):
    from svgio import Matrix

    def change(m, o):
        try:
            return matrix_edit(m, o)
        except ZeroDivisionError:
            raise Skip

    return sweep(lambda: Matrix(*case[0]), case[1], case[2], case[3], answer, change, MATRIX)


POINT = {
    "items": lambda p, a: [p.x, p.y, p[0], p[1], p.real, p.imag],
    "str": lambda p, a: str(p),
    "repr": lambda p, a: repr(p),
    "list": lambda p, a: list(p),
    "hash": lambda p, a: hash(p) == hash(copied(p)),
    "equal": lambda p, a: [p == p, p == a[3], p == c(a[3]), p != point_of(a[3]), p == 5],
    "plus": lambda p, a: p + a[3],
    "minus": lambda p, a: p - c(a[3]),
    "from": lambda p, a: c(a[3]) - p,
    "times": lambda p, a: p * 3,
    "times point": lambda p, a: p * point_of(a[3]),
    "times matrix": lambda p, a: p * pmatrix(a),
    "times text": lambda p, a: p * "rotate(45)",
    "abs": lambda p, a: abs(p),
    "power": lambda p, a: p ** 2,
    "complex": lambda p, a: complex(p),
    "conjugate": lambda p, a: p.conjugate(),
    "argz": lambda p, a: p.argz(),
    "distance": lambda p, a: p.distance_to(a[3]),
    "angle": lambda p, a: p.angle_to(a[3]),
    "polar": lambda p, a: type(p).polar(p, a[1], 5),
    "reflected": lambda p, a: p.reflected_across(c(a[3])),
    "copy": lambda p, a: copied(p),
    "hull": lambda p, a: list(type(p).convex_hull([p, point_of(a[3]), point_of([a[3][1], a[3][0]]), p])),
    "towards": lambda p, a: type(p).towards(p, point_of(a[3]), a[1]),
}


def point_edit(p, o):
    if o[0] == "x":
        p.x = o[1]
    elif o[0] == "item":
        p[o[1]] = o[2]
    elif o[0] == "plus":
        p += o[1]
    elif o[0] == "minus":
        p -= o[1]
    elif o[0] == "times":
        from svgio import Matrix

        p *= Matrix(*o[1])
    elif o[0] == "transform":
        from svgio import Matrix

        p.matrix_transform(Matrix(*o[1]))
    elif o[0] == "polar":
        p.polar_to(*o[1])
    else:
        p.move_towards(point_of(o[1]), 0.25)
    return p


point_edits = st.one_of(
    st.tuples(st.just("x"), num).map(list), st.tuples(st.just("item"), st.integers(0, 1), num).map(list),
    st.tuples(st.sampled_from(["plus", "minus", "towards", "polar"]), anypair).map(list), st.tuples(st.sampled_from(["times", "transform"]), matrices).map(list),
)


@sub("C32", "points", st.tuples(anypair, steps(POINT, point_edits, path_argument)).map(list), quick=1200, thorough=60000)
def points(case):
    return walk(lambda: point_of(case[0]), case[1], answer, point_edit, POINT)


@sub("C32", "all of a point", st.tuples(anypair, *swept(point_edits, path_argument)).map(list), quick=300, thorough=10000)
def all_of_a_point(case):
    return sweep(lambda: point_of(case[0]), case[1], case[2], case[3], answer, point_edit, POINT)


def length_of(t):
    from svgio import Length

    return Length("%r%s" % (t[0], t[1]))


UNITS = ["", "px", "mm", "cm", "in", "pt", "pc", "%"]
length_argument = st.tuples(num, st.sampled_from(UNITS), st.integers(1, 300)).map(list)
LENGTH = {
    "amount": lambda l, a: [l.amount, l.units],
    "value": lambda l, a: l.value(ppi=a[2], relative_length=200),
    "value of length": lambda l, a: l.value(ppi=a[2], relative_length="%dmm" % a[2]),
    "value unknown": lambda l, a: l.value(),
    "mm": lambda l, a: l.to_mm(ppi=a[2]),
    "cm": lambda l, a: l.to_cm(ppi=a[2], relative_length=10),
    "inch": lambda l, a: l.to_inch(ppi=a[2]),
    "units": lambda l, a: [l.value_in_units(), l.in_pixels(), l.in_inches()],
    "float": lambda l, a: float(l),
    "str": lambda l, a: str(l),
    "repr": lambda l, a: repr(l),
    "plus": lambda l, a: l + length_of(a),
    "minus": lambda l, a: l - length_of(a),
    "times": lambda l, a: l * 3,
    "by": lambda l, a: l / length_of(a),
    "over": lambda l, a: l / 4,
    "negative": lambda l, a: -l,
    "abs": lambda l, a: abs(l),
    "less": lambda l, a: l < length_of(a),
    "more": lambda l, a: l >= length_of(a),
    "equal": lambda l, a: [l == length_of(a), l != length_of(a), l == l, l == "1px", l == 4],
    "copy": lambda l, a: copied(l),
    "text of": lambda l, a: type(l)(l),
}


def length_edit(l, o):
    try:
        if o[0] == "plus":
            l += length_of(o[1])
        elif o[0] == "minus":
            l -= length_of(o[1])
        elif o[0] == "times":
            l *= o[1][0]
    except ValueError:
        raise Skip
    return l


length_edits = st.tuples(st.sampled_from(["plus", "minus", "times"]), length_argument).map(list)


@sub("C32", "lengths", st.tuples(length_argument, steps(LENGTH, length_edits, length_argument)).map(list), quick=1200, thorough=60000)
def lengths(case):
    return walk(lambda: length_of(case[0]), case[1], answer, length_edit, LENGTH)


@sub("C32", "all of a length", st.tuples(length_argument, *swept(length_edits, length_argument)).map(list), quick=500, thorough=20000)
def all_of_a_length(case):
    return sweep(lambda: length_of(case[0]), case[1], case[2], case[3], answer, length_edit, LENGTH)


byte = st.integers(0, 255)
colour = st.one_of(st.none(), st.tuples(byte, byte, byte, byte).map(list))


def colour_of(q):
    from svgio import Color

    return Color(None) if q is None else Color("#%02x%02x%02x%02x" % tuple(q))


COLOUR = {
    k: (lambda k: lambda v, a: getattr(v, k))(k)
    for k in ["rgb", "rgba", "argb", "opacity", "alpha", "red", "green", "blue", "hexa", "hex", "hue", "saturation", "lightness", "intensity", "brightness", "blackness",
              "luminance", "luma", "hsl", "value"]
}
COLOUR.update({
    "int": lambda v, a: int(v),
    "str": lambda v, a: str(v),
    "repr": lambda v, a: repr(v),
    "abs": lambda v, a: abs(v),
    "equal": lambda v, a: [v == colour_of(a), v != colour_of(a), v == v, v == "red", v == 255, v == None],  # noqa: E711
    "over": lambda v, a: type(v).over(v, colour_of(a)),
    "under": lambda v, a: type(v).over(colour_of(a), v),
    "distance": lambda v, a: type(v).distance(v, colour_of(a)),
    "distance to": lambda v, a: v.distance_to(colour_of(a)),
    "colour of": lambda v, a: type(v)(v),
    "copy": lambda v, a: copied(v),
})


def colour_edit(v, o):
    if o[0] == "blend":
        v.blend(colour_of(o[1]), o[2])
    elif v.value is None and o[0] not in ("rgb", "rgba"):
        raise Skip
    else:
        setattr(v, o[0], o[1])
    return v


colour_edits = st.one_of(
    st.tuples(st.sampled_from(["red", "green", "blue", "alpha"]), byte).map(list), st.tuples(st.just("rgb"), st.integers(0, 0xFFFFFF)).map(list),
    st.tuples(st.sampled_from(["rgba", "argb"]), st.integers(0, 0xFFFFFFFF)).map(list), st.tuples(st.sampled_from(["opacity", "saturation", "lightness"]), st.integers(0, 8).map(lambda i: i / 8)).map(list),
    st.tuples(st.just("hue"), st.integers(0, 359)).map(list),
)


@sub("C32", "colours", st.tuples(colour, steps(COLOUR, colour_edits, st.tuples(byte, byte, byte, byte).map(list))).map(list), quick=1200, thorough=60000)
def colours(case):
    return walk(lambda: colour_of(case[0]), case[1], answer, colour_edit, COLOUR)


@sub("C32", "all of a colour", st.tuples(colour, *swept(colour_edits, st.tuples(byte, byte, byte, byte).map(list))).map(list), quick=500, thorough=20000)
def all_of_a_colour(case):
    return sweep(lambda: colour_of(case[0]), case[1], case[2], case[3], answer, colour_edit, COLOUR)


ANGLE = {
    "radians": lambda t, a: t.as_radians, "degrees": lambda t, a: t.as_degrees, "gradians": lambda t, a: t.as_gradians, "turns": lambda t, a: t.as_turns,
    "positive": lambda t, a: t.as_positive_degrees, "normalized": lambda t, a: t.normalized(), "orthogonal": lambda t, a: t.is_orthogonal, "repr": lambda t, a: repr(t),
    "str": lambda t, a: str(t), "equal": lambda t, a: [t == t, t != t, t == a, t == t + 6.283185307179586], "copy": lambda t, a: copied(t), "float": lambda t, a: float(t),
}


@sub("C32", "angles", st.tuples(num, steps(ANGLE, st.nothing(), num)).map(list), quick=300, thorough=10000)
def angles(case):
    from svgio import Angle

    return walk(lambda: Angle(case[0]), case[1], answer, None, ANGLE)


# ------------------------------------------------------------------ documents

GETTERS = ["first_child", "last_child", "next_sibling", "previous_sibling", "is_connected", "owner_document", "parent_element", "parent_node", "id", "child_element_count",
           "first_element_child", "last_element_child", "next_element_sibling", "previous_element_sibling", "fill", "stroke", "fill_opacity", "stroke_opacity", "stroke_width",
           "x", "y", "width", "height", "rx", "ry", "cx", "cy", "r", "x1", "y1", "x2", "y2", "position", "center", "points", "d", "data", "viewBox", "preserveAspectRatio",
           "href", "css_class", "class_name", "class_list", "transform", "attributes", "parent", "children", "unit_type", "desc", "dx", "dy", "style"]


def node_at(doc, i):
    nodes = []
    todo = [doc]
    while todo:
        n = todo.pop(0)
        nodes.append(n)
        todo.extend(list(n))
    return nodes[i % len(nodes)]


def getter(name):
    def read(doc, a):
        return object.__getattribute__(node_at(doc, a[0]), name)
    return read


DOCUMENT = {k: getter(k) for k in GETTERS}
DOCUMENT.update({
    "values": lambda doc, a: doc.get_values(node_at(doc, a[0])),
    "ancestors": lambda doc, a: list(doc.get_ancestors(node_at(doc, a[0]))),
    "str": lambda doc, a: str(node_at(doc, a[0])),
    "repr": lambda doc, a: repr(node_at(doc, a[0])),
    "xml": lambda doc, a: node_at(doc, a[0]).xml(),
    "tag": lambda doc, a: node_at(doc, a[0]).tag(),
    "by id": lambda doc, a: doc.get_element_by_id(a[2]),
    "by url": lambda doc, a: doc.get_element_by_url("url(#%s)" % a[2]),
    "contains": lambda doc, a: node_at(doc, a[0]).contains(node_at(doc, a[1])),
    "same": lambda doc, a: node_at(doc, a[0]).is_same_node(node_at(doc, a[1])),
    "equal": lambda doc, a: node_at(doc, a[0]).is_equal_node(node_at(doc, a[1])),
    "children": lambda doc, a: node_at(doc, a[0]).has_child_nodes(),
    "root": lambda doc, a: node_at(doc, a[0]).get_root_node(),
    "len": lambda doc, a: len(node_at(doc, a[0])),
    "segments": lambda doc, a: node_at(doc, a[0]).segments(),
    "path data": lambda doc, a: node_at(doc, a[0]).d(),
    "box": lambda doc, a: node_at(doc, a[0]).bbox(),
    "saved": lambda doc, a: saved(doc),
    "builder": lambda doc, a: type(getattr(node_at(doc, a[0]), "rect")).__name__,
})


def saved(doc):
    import os
    import tempfile

    fd, name = tempfile.mkstemp(suffix=".svg", prefix="vf")
    os.close(fd)
    try:
        doc.write(name)
        with open(name, encoding="utf-8") as f:
            return f.read()
    finally:
        os.unlink(name)


def tree_state(doc):
    def one(n):
        return [type(n).__name__, n.tag(), dict_items(n.attributes), n.document is doc, [one(x) if x.parent is n else "astray" for x in n]]

    return [one(doc), sorted([k, answer(v)] for k, v in doc.objects.items()), saved(doc) if all(type(x) is not type(doc) for x in doc) else None]


def dict_items(d):
    return [[k, answer(v)] for k, v in d.items()]


plain = st.sampled_from(["fill", "stroke", "fill-opacity", "stroke-opacity", "stroke-width", "x", "y", "width", "height", "r", "cx", "cy", "rx", "d", "points", "class", "style", "transform", "viewBox", "href", "id"])
plain_value = st.one_of(st.sampled_from(["red", "#f008", "none", "0.5", "10", "5mm", "50%", "M0,0 L3,4 z", "0,0 3,4 5,-1", "a b", "rotate(30)", "0 0 10 20", "a", "b", "data:image/png;base64,QUJD"]), trees.strings)


def document_edit(doc, o):
    k, i, name, value = o
    node = node_at(doc, i)
    if k == "set":
        if name == "id":
            raise Skip
        node.attributes[name] = value
    elif k == "unset":
        if name == "id" or name not in node.attributes:
            raise Skip
        del node.attributes[name]
    elif k == "build":
        getattr(node, ["rect", "circle", "g", "path", "image", "ellipse", "text"][len(value) % 7])(**{name: value})
    elif k == "remove":
        if node is doc or node.parent is None:
            raise Skip
        at = [j for j, n in enumerate(node.parent) if n is node][0]
        del node.parent[at]
    return doc


document_edits = st.tuples(st.sampled_from(["set", "set", "unset", "build", "build", "remove"]), st.integers(0, 12), plain, plain_value).map(list)
document_argument = st.tuples(st.integers(0, 12), st.integers(0, 12), st.sampled_from(["a", "b", "c", "n1"])).map(list)


@sub("C32", "documents", st.tuples(trees.trees(7), st.lists(st.integers(0, 999), max_size=6), steps(DOCUMENT, document_edits, document_argument, 3, 12)).map(list), quick=1200, thorough=40000, weight=2)
def documents(case):
    import io

    from svgio.nodes import Document

    tree, ints, history = case
    text = trees.render(tree, ints).encode("utf-8")
    return walk(lambda: Document(io.BytesIO(text)), history, tree_state, document_edit, DOCUMENT)


@sub("C32", "all of a document", st.tuples(trees.trees(7), st.lists(st.integers(0, 999), max_size=6), *swept(document_edits, document_argument, 6)).map(list), quick=300, thorough=10000, weight=3)
def all_of_a_document(case):
    import io

    from svgio.nodes import Document

    text = trees.render(case[0], case[1]).encode("utf-8")
    return sweep(lambda: Document(io.BytesIO(text)), case[2], case[3], case[4], tree_state, document_edit, DOCUMENT)


@sub("C32", "long paths", st.tuples(big_commands(10, 30, styles=("ints", "grid", "eighths")), steps(PATH, st.one_of(op(), extra), path_argument)).map(list), quick=40, thorough=2500)
def long_paths(case):
    return paths(case)
