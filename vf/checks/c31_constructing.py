"""C31: segments and paths are made of what they are given, in whatever documented form it is given."""
from hypothesis import strategies as st

from ..big import big_commands
from ..common import anypair, c, compare_arc, connected, invertible, kind, make, nudges, path_commands, path_text, pt, segments_any, snap
from ..core import require, rule, sub

rule("C31", "cases are the parts of a segment or path with the form each is given in; non-trivial: a part is given by name "
     "or not as a point, or the segment is marked relative or not smooth")

forms = st.sampled_from(["point", "pair", "list", "complex", "text", "text"])
place = st.tuples(anypair, forms).map(list)
mark = st.sampled_from([None, None, True, False])


def given(p):
    """The argument standing for a point, and a function which spoils it afterwards."""
    from svgio import Point

    (x, y), form = p
    if form == "point":
        q = Point(x, y)

        def spoil():
            q.x += 17
            q.y -= 3
        return q, spoil
    if form == "list":
        q = [x, y]

        def spoil():
            q[0] += 17
        return q, spoil
    return {"pair": (x, y), "complex": complex(x, y), "text": "%r,%r" % (x, y)}[form], lambda: None


def there(z, p, what):
    if p is None:
        require(z is None, "%s is %r though none was given", what, z)
    else:
        require(z is not None and pt(z, what) == c(p[0]), "%s is %s, given was %s", what, z, p)


NAMES = {"M": ["start", "end"], "L": ["start", "end"], "Z": ["start", "end"], "Q": ["start", "control", "end"], "C": ["start", "control1", "control2", "end"]}


@st.composite
def parts(draw):
    """[kind, parts or None, how many by position, relative, smooth, by name in another order]"""
    k = draw(st.sampled_from("MMLZQQCC"))
    n = len(NAMES[k])
    pts = [draw(place) for _ in range(n)]
    if k in "MLZ":
        for i in range(n):
            if draw(st.integers(0, 4)) == 0:
                pts[i] = None
    elif draw(st.integers(0, 4)) == 0:
        pts[0] = None
    return [k, pts, draw(st.integers(0, n)), draw(mark), draw(mark), draw(st.booleans()), draw(st.booleans())]


def construct(case, spoilers):
    import svgio

    k, pts, pos, relative, smooth, other, alone = case
    cls = {"M": svgio.Move, "L": svgio.Line, "Z": svgio.Close, "Q": svgio.QuadraticBezier, "C": svgio.CubicBezier}[k]
    names = NAMES[k]

    def arg(p):
        if p is None:
            return None
        a, spoil = given(p)
        spoilers.append(spoil)
        return a

    args, named = [], {}
    if k == "M" and alone and pos == 1 and pts[1] is not None:
        # the only place given by position is the one moved to
        args = [arg(pts[1])]
        if pts[0] is not None:
            named["start"] = arg(pts[0])
    else:
        if k == "M" and pos == 1 and pts[1] is None:
            pos = 2
        args = [arg(p) for p in pts[:pos]]
        for n, p in list(zip(names, pts))[pos:]:
            if p is not None or k in "QC":
                named[n] = arg(p)
        if k == "M" and not args and pts[0] is None and pts[1] is None:
            named = {}
    if other:
        named = dict(reversed(list(named.items())))
    if relative is not None:
        named["relative"] = relative
    if smooth is not None:
        named["smooth"] = smooth
    return cls(*args, **named), cls


@sub("C31", "segments", parts(), quick=3000, thorough=150000, weight=2)
def segments(case):
    k, pts, pos, relative, smooth, other, alone = case
    spoilers = []
    s, cls = construct(case, spoilers)
    what = cls.__name__

    def check(when):
        require(type(s) is cls, "a %s is made", type(s).__name__)
        for n, p in zip(NAMES[k], pts):
            there(getattr(s, n), p, "%s of the %s%s" % (n, what, when))
        require(s.relative is bool(relative), "%s(relative=%s) has relative=%r", what, relative, s.relative)
        if k in "QC":
            require(s.smooth is (smooth is not False), "%s(smooth=%s) has smooth=%r", what, smooth, s.smooth)

    check("")
    for spoil in spoilers:
        spoil()
    check(" after changing what it was made of")
    mine = [getattr(s, n) for n in NAMES[k] if getattr(s, n) is not None]
    require(len(set(map(id, mine))) == len(mine), "two parts of a %s are one and the same point", what)
    same, _ = construct(case, [])
    require(same == s and not (same != s), "two %s made alike are not equal", what)
    return pos < len(pts) or relative is not None or smooth is False or any(p and p[1] != "point" for p in pts)


@sub("C31", "one place for all", st.tuples(st.sampled_from("MLZQC"), anypair, st.booleans()).map(list), quick=200, thorough=5000)
def one_place(case):
    """One point object given for every part: the segment has points of its own for each."""
    import svgio

    k, xy, named = case
    cls = {"M": svgio.Move, "L": svgio.Line, "Z": svgio.Close, "Q": svgio.QuadraticBezier, "C": svgio.CubicBezier}[k]
    p = svgio.Point(*xy)
    s = cls(**{n: p for n in NAMES[k]}) if named else cls(*[p] * len(NAMES[k]))
    mine = [getattr(s, n) for n in NAMES[k]]
    require(len(set(map(id, mine + [p]))) == len(mine) + 1, "the parts of a %s share a point", cls.__name__)
    require(all(pt(q) == c(xy) for q in mine), "the parts of a %s are %s", cls.__name__, mine)
    return True


arc_ways = st.sampled_from(["args", "complex", "complexkw", "pairs", "texts"])


@sub("C31", "arcs", st.tuples(anypair, st.integers(1, 40), st.integers(1, 40), st.integers(-360, 360), st.booleans(), st.booleans(), anypair, arc_ways, mark, mark, st.booleans()).map(list),
     quick=700, thorough=30000)
def arcs(case):
    """Arcs by endpoint parameters, marked or not."""
    from svgio import Arc, Point

    s, rx, ry, rot, large, sweep, e, way, relative, smooth, number = case
    if s == e:
        return False
    marks = {}
    if relative is not None:
        marks["relative"] = relative
    if smooth is not None:
        marks["smooth"] = smooth
    fl = (int(large), int(sweep)) if number else (large, sweep)
    if way == "args":
        p, q = Point(*s), Point(*e)
        arc = Arc(p, rx, ry, rot, fl[0], fl[1], q, **marks)
        p.x += 9
        q.y += 9
    elif way == "pairs":
        arc = Arc(tuple(s), rx, ry, rot, fl[0], fl[1], list(e), **marks)
    elif way == "texts":
        arc = Arc("%r,%r" % tuple(s), rx, ry, rot, fl[0], fl[1], "%r %r" % tuple(e), **marks)
    elif way == "complex":
        arc = Arc(c(s), complex(rx, ry), rot, fl[0], fl[1], c(e), **marks)
    else:
        arc = Arc(start=c(s), radius=complex(rx, ry), rotation=rot, arc_flag=fl[0], sweep_flag=fl[1], end=c(e), **marks)
    require(type(arc) is Arc, "an %s is made", type(arc).__name__)
    compare_arc(arc, c(s), rx, ry, rot, large, sweep, c(e))
    require(arc.relative is bool(relative), "Arc(relative=%s) has relative=%r", relative, arc.relative)
    mine = [arc.start, arc.end, arc.center, arc.prx, arc.pry]
    require(len(set(map(id, mine))) == 5, "an arc shares points between its parts")
    return relative is not None or way != "args"


@sub("C31", "paths", st.tuples(path_commands(min_size=1, max_size=7), st.sampled_from(["text", "segments", "list", "tuple", "path", "subpath", "segment", "keep"]), st.integers(0, 9), st.one_of(st.none(), invertible())).map(list),
     quick=900, thorough=40000)
def paths(case):
    """A path made of text, of segments, of a path, or of a part of one holds these segments."""
    from copy import copy

    from svgio import Matrix, Path

    commands, how, k, matrix = case
    p = Path(path_text(commands))
    if matrix is not None and how in ("path", "subpath"):
        p *= Matrix(*matrix)
    segs = list(p)
    want = [snap(s) for s in segs]
    if how == "text":
        q = Path(path_text(commands))
    elif how == "segments":
        if len(segs) == 1:
            return False
        q = Path(*[copy(s) for s in segs])
    elif how == "list":
        given = [copy(s) for s in segs]
        q = Path(given)
        given.reverse()
        del given[len(given) // 2:]
    elif how == "tuple":
        q = Path(tuple(copy(s) for s in segs))
    elif how == "path":
        q = Path(p)
    elif how == "subpath":
        k %= p.count_subpaths()
        sp = p.subpath(k)
        inside = list(sp)
        at = [i for i, s in enumerate(segs) if any(s is x for x in inside)]
        want = [want[i] for i in at]
        q = Path(sp)
    elif how == "segment":
        k %= len(segs)
        want = want[k:k + 1]
        q = Path(copy(segs[k]))
    else:  # the very segments given are those of the path
        q = Path(segs) if k % 2 else Path(*segs)
        if len(segs) > 1 or k % 2:
            require(len(q) == len(segs) and all(a is b for a, b in zip(q, segs)), "a path of segments holds others")
    require(type(q) is Path, "a %s is made", type(q).__name__)
    got = [snap(s) for s in q]
    require(got == want, "a path made of %s has the segments %s, not %s", how, got, want)
    require([s.relative for s in q] == [s.relative for s in (inside if how == "subpath" else segs[k:k + 1] if how == "segment" else segs)],
            "a path made of %s has other relative marks", how)
    require(q.transform is not p.transform and q.transform == p.transform, "a path made of %s has the transform %s, not %s", how, q.transform, p.transform)
    require([snap(s) for s in q.segments()] == [snap(s) for s in q] if matrix is None or how not in ("path", "subpath") else len(q.segments()) == len(q), "a path made of %s has other segments when transformed", how)
    if how not in ("keep", "segment"):
        require(not any(s is x for s in q for x in segs), "a path made of %s shares a segment", how)
        connected(list(q), "a path made of %s" % how)
    require([snap(s) for s in p] == [snap(s) for s in segs], "making a path of %s changed it", how)
    require(len(Path()) == 0 and Path() == Path("") and Path().d() == "", "the empty path is not empty")
    return len(want) > 1


@sub("C31", "long paths", st.tuples(big_commands(12, 50), st.sampled_from(["text", "segments", "list", "tuple", "path", "subpath", "segment", "keep"]), st.integers(0, 60), st.one_of(st.none(), invertible())).map(list),
     quick=100, thorough=6000)
def long_paths(case):
    return paths(case)


@st.composite
def alike(draw):
    """Two segments: the same, nearly the same, of another kind with the same ends, or any two."""
    a = draw(segments_any)
    how = draw(st.sampled_from(["same", "part", "kind", "missing", "any"]))
    b = [list(v) if isinstance(v, list) else v for v in a]
    if how == "any":
        b = draw(segments_any)
    elif how == "kind" and a[0] in "MLZ":
        b[0] = draw(st.sampled_from("MLZ"))
    elif how == "kind" and a[0] in "QC":
        b = [draw(st.sampled_from("LZ")), b[1], b[-1]]
    elif how == "part":
        i = draw(st.sampled_from([i for i, v in enumerate(b) if isinstance(v, list)]))
        b[i][draw(st.integers(0, 1))] += draw(st.one_of(nudges, st.integers(-3, 3)))
    elif how == "missing" and a[0] in "MLZQC":
        b[draw(st.integers(1, len(b) - 1)) if a[0] in "MLZ" else 1] = None
    return [a, b, draw(mark), draw(mark)]


@st.composite
def alike_arcs(draw):
    """Two arcs given by all their parts, which differ in one of them or none."""
    a = ["P"] + [draw(anypair) for _ in range(5)] + [draw(st.sampled_from([1.5, -1.5, 3.0, 0.25]))]
    b = [list(v) if isinstance(v, list) else v for v in a]
    i = draw(st.integers(0, 6))
    if i == 6:
        b[i] = draw(st.sampled_from([1.5, -1.5, 3.0, 0.25]))
    elif i:
        b[i][draw(st.integers(0, 1))] += draw(st.one_of(nudges, st.integers(-3, 3)))
    return [a, b, draw(mark), draw(mark)]


def built(spec):
    """The segment of a case some parts of which may be missing."""
    import svgio.path as sp

    if spec[0] == "A":
        return make(spec)
    if spec[0] == "P":
        return sp.Arc(*[sp.Point(*p) for p in spec[1:6]], spec[6])
    pts = [None if p is None else sp.Point(*p) for p in spec[1:]]
    if spec[0] == "M":
        return sp.Move(start=pts[0], end=pts[1])
    return {"L": sp.Line, "Z": sp.Close, "Q": sp.QuadraticBezier, "C": sp.CubicBezier}[spec[0]](*pts)


def gap(x, y):
    """How far two parts are from each other, which are no parts of equal segments if one is missing."""
    if x is None or y is None:
        return 0 if x is y else float("inf")
    return max(abs(x.real - y.real), abs(x.imag - y.imag))


@sub("C31", "comparing", st.one_of(alike(), alike(), alike_arcs()), quick=1500, thorough=60000)
def comparing(case):
    """Equal are segments of one kind whose parts are all equal."""
    from svgio import Path

    x, y, rel, smooth = case
    a, b = built(x), built(y)
    for s, v in ((a, rel), (b, smooth)):
        if v is not None:
            s.relative = v
    if kind(a) == kind(b):
        far = max(gap(p, q) for p, q in zip(snap(a)[1:], snap(b)[1:]))
        if 1e-13 < far < 1e-9:
            return False
        want = far < 1e-11
    else:
        want = False
    for p, q in ((a, b), (b, a)):
        require((p == q) is want, "%r == %r is %r", p, q, p == q)
        require((p != q) is not want, "%r != %r is %r", p, q, p != q)
    for s in (a, b):
        require(s == s and not s != s, "%r differs from itself", s)
        for other in (None, 5, "M", (0, 0), [s], object()):
            require(not s == other and s != other, "%r equals %r", s, other)
    one, two = Path(make(["M", None, [1, 1]]), a), Path(make(["M", None, [1, 1]]), b)
    require((one == two) is want and (one != two) is not want, "that %r equals %r is %r", one, two, one == two)
    more = Path(*(list(one) + [make(["M", None, [1, 1]])]))
    require(not one == more and not more == one and one != more and more != one, "%r equals %r", one, more)
    return not want
