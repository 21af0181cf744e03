"""C07: reversal retraces the same curve backwards."""
from hypothesis import strategies as st

from ..big import big_commands
from ..common import (closes_end_subpaths, connected, defining, drawn, frac, geometry, invertible, kind, make, path_commands,
                      path_text, pt, snap, snapshot, TS)
from ..core import require, rule, sub
from ..histories import subpath_ranges
from ..spoil import Twice

rule("C07", "cases are single segments or paths (closes end their subpath); non-trivial: a curve or an arc among the "
     "segments, or more than one subpath, or a close of non-zero length")

US = (0.0, 0.1, 0.25, 0.4, 0.5, 0.61, 0.75, 0.9, 1.0)


def traced(seg):
    """Kind and points of a drawn segment, at US (which is not symmetric, so direction matters)."""
    return kind(seg), [pt(seg.point(t)) for t in US], [pt(seg.point(1 - t)) for t in US], pt(seg.start), pt(seg.end)


def same_trace(a, b, tol, what):
    if a[0] == "A":
        tol *= 5000  # half-turn arcs: their ends fix the center only to about the root of the rounding
    require(a[0] == b[0], "%s is a %s instead of a %s", what, a[0], b[0])
    for x, y in zip(a[1] + [a[3], a[4]], b[1] + [b[3], b[4]]):
        require(abs(x - y) <= tol, "%s passes %s where %s is expected", what, x, y)


def backwards(t):
    return t[0], t[2], t[1], t[4], t[3]


def scale(ts):
    return max([1.0] + [abs(z) for t in ts for z in t[1]])


@sub("C07", "segments", st.tuples(drawn, st.booleans()).map(list), quick=700, thorough=50000)
def segments(case):
    spec, measured = case
    if spec[0] == "A" and spec[1] == spec[7]:
        return False
    s = make(spec)
    before = traced(s)
    exact = snap(s)
    length = float(s.length(error=1e-5))
    box = s.bbox()
    r = s.reverse()
    tol = 1e-9 * scale([before])
    require(r is None or r is s, "reverse() returned another object")
    same_trace(traced(s), backwards(before), tol, "reversed %s" % spec[0])
    require(pt(s.start) == exact[-1 if spec[0] != "A" else 2] and pt(s.end) == exact[1], "ends are not exchanged exactly")
    require(abs(float(s.length(error=1e-5)) - length) <= 1e-4 * (1 + length), "the length went from %g to %g", length, float(s.length(error=1e-5)))
    require(all(abs(x - y) <= 1e-7 * scale([before]) for x, y in zip(box, s.bbox())), "the bounding box went from %s to %s", box, s.bbox())
    s.reverse()
    same_trace(traced(s), before, tol, "twice reversed %s" % spec[0])
    require(defining(s) == exact[:len(defining(s))], "reversing twice does not restore %s but %s", exact, defining(s))
    return spec[0] in "QCA"


def drawn_parts(path):
    """For every subpath: (start of its move, traces of its drawn segments)."""
    segs = list(path)
    out = []
    for a, b in subpath_ranges([kind(s) for s in segs]):
        part = segs[a:b]
        mv = pt(part[0].end) if kind(part[0]) == "M" else None
        out.append((mv, [traced(s) for s in part if kind(s) != "M"]))
    return out


def reversed_parts(parts):
    out = []
    for mv, ts in reversed(parts):
        if not ts:
            out.append((mv, []))
            continue
        close = ts[-1] if ts[-1][0] == "Z" else None
        body = ts[:-1] if close else ts
        new = [backwards(t) for t in reversed(body)]
        if close:
            new.append(backwards(close))
        if mv is not None and new:
            mv = new[0][3]
        out.append((mv, new))
    return out


def same_parts(got, want, tol, what):
    require(len(got) == len(want), "%s: %d subpaths instead of %d", what, len(got), len(want))
    for i, ((m1, t1), (m2, t2)) in enumerate(zip(got, want)):
        require((m1 is None) == (m2 is None) and (m1 is None or abs(m1 - m2) <= tol), "%s: subpath %d begins at %s instead of %s", what, i, m1, m2)
        require([t[0] for t in t1] == [t[0] for t in t2], "%s: subpath %d is drawn by %s instead of %s", what, i, [t[0] for t in t1], [t[0] for t in t2])
        for j, (x, y) in enumerate(zip(t1, t2)):
            same_trace(x, y, tol, "%s: segment %d of subpath %d" % (what, j, i))


def total_box(path):
    boxes = [b for b in (sp.bbox() for sp in path.as_subpaths()) if b is not None]
    if not boxes:
        return None
    return (min(b[0] for b in boxes), min(b[1] for b in boxes), max(b[2] for b in boxes), max(b[3] for b in boxes))


def interesting(path):
    k = [kind(s) for s in path]
    return bool(set(k) & set("QCA")) or k.count("M") > 1 or any(kind(s) == "Z" and pt(s.start) != pt(s.end) for s in path)


@st.composite
def reversible(draw, max_size=9):
    """Commands whose closes are followed by a move or nothing."""
    return closing(draw(path_commands(min_size=2, max_size=max_size, letters="LLMQTCSHVAZZ")))


def closing(cmds):
    out = []
    for cm in cmds:
        if out and out[-1][0] == "Z" and cm[0] != "M":
            out.append(["M", cm[-1] if isinstance(cm[-1], list) else [3, 4]])
            if cm[0] == "Z":
                out.pop()
                continue
        out.append(cm)
    return out


@sub("C07", "paths", st.tuples(reversible(), st.booleans()).map(list), quick=900, thorough=60000, weight=2)
def paths(case):
    from svgio import Path
    Path = Twice(Path)

    commands, measured = case
    p = Path(path_text(commands))
    parts = drawn_parts(p)
    tol = 1e-9 * max([1.0] + [scale(t) for _, t in parts if t])
    exact = snapshot(p)
    curved = any(kind(s) in "CA" for s in p)
    length = None
    if measured and not curved:
        length = p.length()
    box = total_box(p)
    r = p.reverse()
    require(r is p, "reverse() did not return the path")
    connected(list(p), "after reverse")
    require(len(p) == len(exact), "reversing changed the number of segments from %d to %d", len(exact), len(p))
    same_parts(drawn_parts(p), reversed_parts(parts), tol, "reversed")
    nb = total_box(p)
    require((box is None) == (nb is None) and (box is None or all(abs(x - y) <= 100 * tol for x, y in zip(box, nb))), "the bounding box went from %s to %s", box, nb)
    if length is not None:
        require(abs(p.length() - length) <= 1e-9 * (1 + length), "the length went from %g to %g", length, p.length())
    require(snap(p[0])[1] == exact[0][1] or kind(p[0]) != "M", "the start of the first move went from %s to %s", exact[0][1], snap(p[0])[1])
    p.reverse()
    connected(list(p), "after reversing twice")
    same_parts(drawn_parts(p), parts, tol, "twice reversed")
    return interesting(p)


big = big_commands(12, 60, letters="LLMQTCSHVAZZ").map(closing)


@sub("C07", "long paths", st.tuples(big, st.booleans()).map(list), quick=100, thorough=8000)
def long_paths(case):
    return paths(case)


@sub("C07", "subpaths", st.tuples(reversible(), st.integers(0, 6)).map(list), quick=400, thorough=30000)
def subpaths(case):
    from svgio import Path
    Path = Twice(Path)

    commands, k = case
    p = Path(path_text(commands))
    parts = drawn_parts(p)
    k %= len(parts)
    tol = 1e-9 * max([1.0] + [scale(t) for _, t in parts if t])
    sp = p.subpath(k)
    r = sp.reverse()
    require(r is sp or r is None, "reverse() returned another object")
    connected(list(p), "after reversing subpath %d" % k)
    want = list(parts)
    want[k] = reversed_parts([parts[k]])[0]
    same_parts(drawn_parts(p), want, tol, "subpath %d reversed" % k)
    p.subpath(k).reverse()
    same_parts(drawn_parts(p), parts, tol, "subpath %d twice reversed" % k)
    return interesting(p)


@sub("C07", "long subpaths", st.tuples(big, st.integers(0, 60)).map(list), quick=60, thorough=5000)
def long_subpaths(case):
    return subpaths(case)


@sub("C07", "transformed", st.tuples(reversible(max_size=5), invertible()).map(list), quick=200, thorough=15000)
def transformed(case):
    """Reversing a path that holds a transform still reverses what it draws."""
    from svgio import Matrix, Path
    Path = Twice(Path)

    commands, m = case
    p = Path(path_text(commands)) * Matrix(*m)
    parts = drawn_parts(abs(p))
    tol = 1e-6 * max([1.0] + [scale(t) for _, t in parts if t])
    p.reverse()
    same_parts(drawn_parts(abs(p)), reversed_parts(parts), tol, "reversed under a transform")
    return interesting(p)


@sub("C07", "fragments", path_commands(min_size=2, max_size=6, letters="LQCA"), quick=200, thorough=10000)
def fragments(commands):
    """A run of segments without a move."""
    from svgio import Path
    Path = Twice(Path)

    p = Path(path_text(commands))
    del p[0]
    parts = drawn_parts(p)
    tol = 1e-9 * max([1.0] + [scale(t) for _, t in parts if t])
    p.reverse()
    connected(list(p), "reversed fragment")
    same_parts(drawn_parts(p), reversed_parts(parts), tol, "reversed fragment")
    return interesting(p)


@sub("C07", "direct_close", reversible(), quick=500, thorough=30000)
def direct_close(commands):
    from svgio import Path
    Path = Twice(Path)

    p = Path(path_text(commands))
    want = []
    for s in p:
        d = snap(s)
        if d[0] == "Z" and d[1] != d[2]:
            want += [("L", d[1], d[2]), ("Z", d[2], d[2])]
        else:
            want.append(d)
    parts = drawn_parts(p)
    p.direct_close()
    got = snapshot(p)
    require(got == want, "after direct_close the path is %s instead of %s", got, want)
    connected(list(p), "after direct_close")
    p.direct_close()
    require(snapshot(p) == want, "a second direct_close changed the path")
    p.reverse()
    connected(list(p), "reversed after direct_close")
    starts = [mv for mv, t in parts][::-1]
    got = [(mv, t) for mv, t in drawn_parts(p)]
    for (mv, t), s in zip(got, starts):
        if t and t[-1][0] == "Z":
            require(mv == s, "a directly closed subpath from %s begins at %s when reversed", s, mv)
    return any(d[0] == "Z" for d in want)


@sub("C07", "long direct_close", big, quick=60, thorough=5000)
def long_direct_close(commands):
    return direct_close(commands)
