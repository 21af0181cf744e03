"""C05: a path against a Python list of its segments."""
from copy import copy

from hypothesis import strategies as st

from ..big import big_commands, far_index, far_slices
from ..common import anypair, defining, make, path_commands, path_text, pt, segments_any, snap
from ..core import Violation, require, rule, sub
from ..spoil import touch
from ..histories import (complete, elem_of_spec, history, index, link, long_history, make_seg, operand, run, seg_operand, seg_spec, slices, text_operand, tolerance)

rule("C05", "cases are a path with a history of list operations, or a path with indices and slices, or a pair of paths; "
     "non-trivial: at least two operations took effect / the path has at least three segments")


def judge(p, model, before, o):
    what = "after %s" % (o[0] if o else "parsing")
    require(len(p) == len(model), "%s the path has %d segments, the list %d", what, len(p), len(model))
    tol = tolerance(model)
    for i, (s, e) in enumerate(zip(p, model)):
        d = defining(s)
        require(d[0] == e.k, "%s segment %d is a %s, in the list a %s", what, i, d[0], e.k)
        got, want = d[2:], e.mid + (e.end,)
        if e.k == "Z":
            continue  # where a close ends depends on its place (C04)
        for x, y in zip(got, want):
            require(x is not None and abs(x - y) <= tol, "%s segment %d (%s) has %s, in the list %s", what, i, e.k, got, want)


@sub("C05", "history", history, quick=1200, thorough=100000, weight=3)
def check_history(case):
    return run(case, judge) >= 2


@sub("C05", "long history", long_history, quick=120, thorough=10000)
def check_long_history(case):
    return check_history(case)


def same_error(f, h):
    """Both give the same result or raise the same exception."""
    try:
        want, err = h(), None
    except (IndexError, ValueError) as e:
        want, err = None, type(e)
    try:
        got = f()
    except (IndexError, ValueError) as e:
        require(err is type(e), "raises %s, the list %s", type(e).__name__, err.__name__ if err else "does not")
        return None, None
    require(err is None, "does not raise %s as the list does", err and err.__name__)
    return got, want


@sub("C05", "reading", st.tuples(path_commands(max_size=8), st.lists(index, max_size=5), st.lists(slices, max_size=5)).map(list), quick=500, thorough=30000)
def reading(case):
    from svgio import Path

    commands, idx, sls = case
    p = Path(path_text(commands))
    items = [p[i] for i in range(len(p))]
    require(len(items) == len(p) == len(commands), "%d commands, %d segments", len(commands), len(p))
    require(all(a is b for a, b in zip(p, items)) and len(list(p)) == len(items), "iteration differs from indexing")
    require(all(a is b for a, b in zip(reversed(p), items[::-1])), "reversed() differs")
    for i in idx:
        got, want = same_error(lambda: p[i], lambda: items[i])
        require(got is want, "p[%d] is not the segment there", i)
    for sl in sls:
        got, want = same_error(lambda: list(p[slice(*sl)]), lambda: items[slice(*sl)])
        require(len(got) == len(want) and all(a is b for a, b in zip(got, want)), "p[%r] differs from the list's", sl)
    for s in items:
        require(s in p, "a segment of the path is not in it")
        require(p[p.index(s)] == s, "index() finds another segment")
    require(p == Path(path_text(commands)) and not (p != Path(path_text(commands))), "equal paths compare unequal")
    require(bool(len(p)) and len(Path()) == 0 and list(Path()) == [], "the empty path is not empty")
    return len(items) >= 3


@sub("C05", "long reading", st.tuples(big_commands(), st.lists(far_index, max_size=9), st.lists(far_slices, max_size=9)).map(list), quick=80, thorough=6000)
def long_reading(case):
    return reading(case)


@sub("C05", "equality", st.tuples(path_commands(max_size=6), st.integers(0, 30), st.sampled_from(["same", "end", "mid", "kind", "drop", "add", "swap", "mirror", "mirror"]), anypair).map(list), quick=500, thorough=30000)
def equality(case):
    from svgio import Path

    commands, k, how, xy = case
    other = [list(x) for x in commands]
    i = k % len(other)
    if how == "mirror":
        commands, other = mirrored(other)
    elif how == "drop":
        del other[i]
    elif how == "add":
        other.insert(i + 1, ["L", [xy[0] + 1000, xy[1]]])
    elif how == "swap":
        j = (i + 1) % len(other)
        other[i], other[j] = other[j], other[i]
    elif how == "end" and isinstance(other[i][-1], list):
        other[i][-1] = [other[i][-1][0] + 0.5, other[i][-1][1]]
    elif how == "mid" and len(other[i]) > 2:
        other[i][1] = [other[i][1][0], other[i][1][1] - 0.25] if isinstance(other[i][1], list) else other[i][1] + 1
    elif how == "kind" and other[i][0] in "LMZ":
        if other[i][0] == "Z":
            other[i] = ["L", [xy[0] + 1000, xy[1]]]
        else:
            other[i] = ["M" if other[i][0] == "L" else "L", other[i][1]]
    p = Path(path_text(commands))
    try:
        q = Path(path_text(other))
    except ValueError:
        return False
    ps, qs = list(p), list(q)
    want = len(ps) == len(qs) and all(defining(a) == defining(b) and snap(a) == snap(b) for a, b in zip(ps, qs))
    near = len(ps) == len(qs) and all(close(a, b) for a, b in zip(ps, qs))
    if want != near:
        return False
    if (k % 3 or how == "mirror") and other and commands[0][0] == other[0][0] == "M":
        for x in (p, q):
            if k % 2:
                touch(x)
            else:
                x.length(error=1e-3)
    for a, b, name in ((p, q, "path"), (q, p, "path"), (p, path_text(other), "string"), (q, path_text(commands), "string")):
        require((a == b) is want, "comparing with a %s gives %r, the segments are %s", name, a == b, "equal" if want else "different")
        require((a != b) is (not want), "!= with a %s gives %r", name, a != b)
    for a, b in zip(ps, qs):
        e = defining(a) == defining(b) and snap(a) == snap(b)
        require((a == b) == e or close(a, b) != e, "segments %r and %r compare %r", a, b, a == b)
        require((a != b) is not (a == b), "segments %r and %r: == is %r and != is %r", a, b, a == b, a != b)
    a = ps[i % len(ps)]
    for name in ("start", "end", "control", "control1", "control2", "center", "prx", "pry", "sweep"):
        # the same segment but for one part
        v = getattr(a, name, None)
        if v is not None:
            b = copy(a)
            require(a == b and b == a and not (a != b), "a copy of %r differs from it: %r", a, b)
            setattr(b, name, v + 0.5 if name == "sweep" else (v.x, v.y + 0.5) if k % 2 else (v.x - 0.5, v.y))
            require(not (a == b) and a != b and not (b == a), "%r equals %r, of other %s", a, b, name)
            require(Path([copy(a)]) != Path([copy(b)]), "paths of %r and %r are equal", a, b)
    require(not (p == 5) and p != 5 and not (p == None), "a path equals something that is no path")  # noqa
    return how != "same"


def mirrored(commands):
    """The path with its last end at the height of its first, and its image in the horizontal line through both: as long, and with the same ends."""
    one = [list(x) for x in commands]
    y = one[0][1][1]
    if len(one) > 1 and isinstance(one[-1][-1], list):
        one[-1] = one[-1][:-1] + [[one[-1][-1][0], y]]
    two = []
    for x in one:
        x = [[v[0], 2 * y - v[1]] if isinstance(v, list) else v for v in x]
        if x[0] == "A":
            x[3], x[5] = -x[3], not x[5]
        elif x[0] == "V":
            x[1] = 2 * y - x[1]
        two.append(x)
    return one, two


def close(a, b):
    x, y = snap(a), snap(b)
    if x[0] != y[0]:
        return False
    return all((u is None) == (v is None) and (u is None or abs(u - v) < 1e-6) for u, v in zip(x[1:], y[1:]))


@sub("C05", "long equality", st.tuples(big_commands(10, 40), st.integers(0, 60), st.sampled_from(["same", "end", "mid", "kind", "drop", "add", "swap", "mirror"]), anypair).map(list), quick=80, thorough=6000)
def long_equality(case):
    return equality(case)


@sub("C05", "several_in_one_place", st.tuples(path_commands(max_size=6), index, path_commands(min_size=2, max_size=4)).map(list), quick=200, thorough=8000)
def several(case):
    """A string of several segments for one index: ValueError, nothing changed."""
    from svgio import Path

    commands, i, other = case
    p = Path(path_text(commands))
    before = [snap(s) for s in p]
    try:
        p[i] = path_text(other)
    except ValueError:
        pass
    except Exception as e:
        raise Violation("raises %s" % type(e).__name__)
    else:
        raise Violation("several segments assigned to one index")
    require([snap(s) for s in p] == before, "the failed assignment changed the path")
    return len(commands) > 2


def points_of(seg):
    k = type(seg).__name__
    if k == "QuadraticBezier":
        out = [seg.start, seg.control, seg.end]
    elif k == "CubicBezier":
        out = [seg.start, seg.control1, seg.control2, seg.end]
    elif k == "Arc":
        out = [seg.start, seg.end, seg.center, seg.prx, seg.pry]
    else:
        out = [seg.start, seg.end]
    return [None if p is None else pt(p) for p in out]


@sub("C05", "points", st.tuples(path_commands(max_size=6), st.integers(-9, 9)).map(list), quick=300, thorough=10000)
def points(case):
    """A segment read as the list of its defining points, however many readers there are; unknown ones are passed over."""
    from svgio import Close, Move, Path

    commands, far = case
    p = Path(path_text(commands))
    total = []
    for s in list(p) + [Move(None, (1, 2)), Close(None, (3, 4)), Close((5, 6), None)]:
        want = points_of(s)
        require(len(s) == len(want), "a %s has %d points, not %d", type(s).__name__, len(s), len(want))
        require([None if x is None else pt(x) for x in (s[i] for i in range(len(s)))] == want, "the points of %r read by index are %s, not %s", s, [s[i] for i in range(len(s))], want)
        try:
            s[len(s) + abs(far)]
            raise Violation("a %s has a point number %d" % (type(s).__name__, len(s) + abs(far)))
        except IndexError:
            pass
        known = [z for z in want if z is not None]
        require([pt(x) for x in s] == known, "%r iterates as %s, not %s", s, list(s), known)
        pairs = [(pt(a), pt(b)) for a in s for b in s]
        require(pairs == [(a, b) for a in known for b in known], "two iterations over %r disturb each other: %s", s, pairs)
        if any(s is x for x in p):
            total += known
    require([pt(x) for x in p.as_points()] == total, "the points of the path are %s, not %s", list(p.as_points()), total)
    both = [(pt(a), pt(b)) for a, b in zip(p.as_points(), p.as_points())]
    require(both == [(z, z) for z in total], "two readers of the points disturb each other")
    return len(p) >= 3


@sub("C05", "sums of segments", st.tuples(seg_spec(), st.one_of(text_operand, seg_operand)).map(list), quick=400, thorough=10000)
def sums(case):
    """A segment and what is added to it make a path of both."""
    from svgio import Path

    spec, other = case
    first = elem_of_spec(spec)
    if first.end is None:
        return False
    make, add = operand(other, [first])
    if add is None:
        return False
    model = [first] + add
    link(model)
    if not complete(model):
        return False
    a, b = make_seg(spec), make()
    before = snap(a)
    p = a + b
    require(type(p) is Path, "a segment and %s make a %s", other[0], type(p).__name__)
    judge(p, model, None, ["segment + " + other[0]])
    require(snap(a) == before and a not in [s for s in p if s is a], "the sum holds its operand, or changed it")
    if other[0] == "seg":
        q = Path(a) + b
        require(q == p, "Path(segment) + segment is %s, segment + segment %s", q, p)
    return True
