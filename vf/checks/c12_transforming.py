"""C12: transforming a shape transforms every point of it."""
import cmath
import math

from hypothesis import strategies as st

from ..big import big_commands
from ..common import (TS, c, closes_end_subpaths, connected, defining, drawn, g, geometry, invertible, kind, magnified, make, mapped, moves, mul, path_commands,
                      path_text, powers, pt, segments_any, snap, snapshot)
from ..core import require, rule, sub
from ..histories import Skip, op, subpath_ranges
from ..spoil import chosen, touch
from .c08_measure import _sound, edit
from ..oracle.geom import svg_arc

rule("C12", "cases are segments or paths with matrices; non-trivial: a drawn curve or arc (paths: two drawn segments) and a "
     "matrix whose linear part is not the identity")

forms = st.sampled_from(["mul", "rmul", "imul", "text", "itext", "text2"])


def text_of(m):
    return "matrix(%s)" % " ".join(g(v) for v in m)


def norm(m):
    return max(abs(v) for v in m[:4])


def tol_for(points, m, arc):
    scale = max([1e-12] + [abs(z) for z in points])
    return (1e-6 if arc else 1e-10) * (scale * norm(m) + abs(m[4]) + abs(m[5]))


def stretch(m):
    """How much more a matrix stretches one direction than another, at most."""
    return sum(v * v for v in m[:4]) / abs(m[0] * m[3] - m[1] * m[2])


def interesting(m):
    return [abs(v - w) > 1e-9 for v, w in zip(m[:4], (1, 0, 0, 1))].count(True) > 0


def arc_axes(a, what):
    """prx and pry of an arc are the ends of its axes, and its endpoint parameters describe it."""
    ctr, px, py = pt(a.center), pt(a.prx), pt(a.pry)
    u, v = px - ctr, py - ctr
    if not a.sweep or abs(u) == 0 or abs(v) == 0 or not 1e-3 < abs(u) / abs(v) < 1e3:
        return
    noise = 1e-9 * (abs(ctr) + abs(u) + abs(v)) * (abs(u) + abs(v))  # a far center has few digits left
    require(abs((u * v.conjugate()).real) <= noise + 1e-9 * abs(u) * abs(v), "%s: the axes of the arc are not at right angles: %s %s", what, u, v)
    s, e, sweep = pt(a.start), pt(a.end), float(a.sweep)
    if min(abs(abs(sweep) - k * math.pi) for k in range(3)) < 0.05 or abs(sweep) > 6.25:
        return
    scale = abs(ctr) + abs(u) + abs(v)
    if scale > 1e4 * min(abs(u), abs(v)):
        return
    r = svg_arc(s, float(a.rx), float(a.ry), math.degrees(float(a.get_rotation())), abs(sweep) > math.pi, sweep > 0, e)
    for t in TS:
        require(abs(r.at(t) - pt(a.point(t))) <= 1e-6 * scale * (scale / min(abs(u), abs(v))), "%s: radii, rotation and flags of the arc do not describe it: %s instead of %s at %g",
                what, r.at(t), pt(a.point(t)), t)


@sub("C12", "segments", st.tuples(st.one_of(drawn, drawn, segments_any), invertible(), forms).map(list), quick=3000, thorough=200000, weight=2)
def segments(case):
    from svgio import Matrix

    spec, m, form = case
    if spec[0] == "A" and spec[1] == spec[7]:
        return False
    s = make(spec)
    before = snap(s)
    pts = [p for p in geometry(s)[1:] if p is not None]
    mm = Matrix(*m)
    if form == "mul":
        r = s * mm
    elif form == "rmul":
        r = mm * s
    elif form == "text":
        r = s * text_of(m)
    elif form == "text2":  # the last written is applied first
        r = s * ("translate(%s,%s) matrix(%s,0,0)" % (g(m[4]), g(m[5]), ",".join(g(v) for v in m[:4])))
    elif form == "imul":
        r = s
        r *= mm
    else:
        r = s
        r *= text_of(m)
    require([float(v) for v in (mm.a, mm.b, mm.c, mm.d, mm.e, mm.f)] == [float(v) for v in m], "the matrix was changed")
    if form in ("imul", "itext"):
        require(r is s, "*= made a new segment")
    else:
        require(r is not s and snap(s) == before, "* changed its operand")
        s2 = s
    require(kind(r) == spec[0], "a %s became a %s", spec[0], kind(r))
    arc = spec[0] == "A"
    tol = tol_for(pts + ([before[3]] if arc else []), m, arc)
    src = make(spec)
    for a, b in zip(defining(src)[1:], defining(r)[1:]):
        require((a is None) == (b is None), "a point of the segment appeared or vanished")
        if a is not None:
            require(abs(mapped(m, a) - b) <= tol_for(pts, m, False), "%s went to %s, its image is %s", a, b, mapped(m, a))
    if spec[0] == "M":
        return interesting(m)
    for t in TS:
        a, b = pt(src.point(t)), pt(r.point(t))
        require(abs(mapped(m, a) - b) <= tol, "the point at %g went to %s, its image is %s (tolerance %g)", t, b, mapped(m, a), tol)
    if arc:
        arc_axes(r, "transformed")
    return spec[0] in "QCA" and interesting(m)


@sub("C12", "magnitudes", st.tuples(st.tuples(drawn, powers).map(magnified), invertible(), forms).map(list), quick=800, thorough=40000)
def magnitudes(case):
    return segments(case)


@st.composite
def chains(draw, long=False):
    if long:
        commands, ms = draw(big_commands(12, 50)), draw(st.lists(invertible(), min_size=1, max_size=6))
    else:
        commands = draw(st.one_of(path_commands(min_size=2, max_size=7), path_commands(min_size=2, max_size=6, letters="MLQCAZ")))
        ms = draw(st.lists(invertible(), min_size=1, max_size=3))
    return [commands, ms, draw(st.lists(st.sampled_from(["mul", "imul", "text", "itext", "matmul", "imatmul", "rmul", "rmatmul", "imatmul text"]), min_size=len(ms), max_size=len(ms))),
            draw(st.integers(0, 60 if long else 7))]


def images(geos, m):
    return [tuple([gm[0]] + [None if z is None else mapped(m, z) for z in gm[1:]]) for gm in geos]


def agree(got, want, tol, what):
    require(len(got) == len(want), "%s: %d segments instead of %d", what, len(got), len(want))
    for i, (a, b) in enumerate(zip(got, want)):
        require(a[0] == b[0], "%s: segment %d is a %s, not a %s", what, i, a[0], b[0])
        for x, y in zip(a[1:], b[1:]):
            require((x is None) == (y is None) and (x is None or abs(x - y) <= tol), "%s: segment %d passes %s, expected %s (tolerance %g)", what, i, x, y, tol)


@sub("C12", "paths", chains(), quick=2000, thorough=60000, weight=3)
def paths(case):
    from svgio import Matrix, Path
    from svgio.path import Subpath

    commands, ms, hows, pick = case
    text = path_text(commands)
    p = Path(text)
    exact = snapshot(p)
    geos = [geometry(s) for s in p]
    arc = any(x[0] == "A" for x in geos)
    if arc and math.prod(stretch(m) for m in ms) > 1e7:
        return False  # the ellipse becomes so flat that its angles keep too few digits
    pts = [z for x in exact for z in x[1:] if isinstance(z, complex)] + [z for x in geos for z in x[1:] if z is not None]
    total = [1, 0, 0, 1, 0, 0]
    tol = 1e-10
    scale = max([1.0] + [abs(z) for z in pts])
    q = p
    own = False  # q is p, changed in place from here on
    for m, how in zip(ms, hows):
        total = mul(total, m)
        scale = scale * max(1.0, 2 * norm(m)) + abs(m[4]) + abs(m[5])
        mat = Matrix(*m)
        prev, lazy = q, [float(v) for v in (q.transform.a, q.transform.b, q.transform.c, q.transform.d, q.transform.e, q.transform.f)]
        psnap = snapshot(q)
        if how == "mul":
            q = q * mat
        elif how == "rmul":
            q = mat * q if len(ms) % 2 else text_of(m) * q
        elif how == "text":
            q = q * text_of(m)
        elif how == "matmul":
            q = q @ (text_of(m) if len(ms) == 2 else mat)
        elif how == "rmatmul":
            q = mat @ q if len(ms) % 2 else text_of(m) @ q
        elif how in ("imul", "itext"):
            q *= mat if how == "imul" else text_of(m)
        elif how == "imatmul text":
            q @= text_of(m)
        else:
            q @= mat
        require(list(mat) == list(Matrix(*m)), "the matrix was changed by %s", how)
        if how in ("imul", "itext", "imatmul", "imatmul text"):
            require(q is prev, "%s made a new path", how)
        else:
            require(q is not prev, "%s gave the same path", how)
            now = [float(v) for v in (prev.transform.a, prev.transform.b, prev.transform.c, prev.transform.d, prev.transform.e, prev.transform.f)]
            require(now == lazy and snapshot(prev) == psnap, "%s changed its operand", how)
        if "matmul" in how:
            require(q.transform.is_identity(), "%s leaves the transform %r", how, q.transform)
    want = images(geos, total)
    tol = (1e-6 if arc else 1e-9) * scale
    agree([geometry(s) for s in q.segments()], want, tol, "segments()")
    flat = abs(q)
    require(flat is not q, "abs gave the same path")
    agree([geometry(s) for s in flat], want, tol, "abs")
    agree([geometry(s) for s in flat.segments()], want, tol, "segments() of abs")
    connected(flat)
    raw = [geometry(s) for s in q]
    data = q.d()
    if all(abs(z) < 1e6 for x in want for z in x[1:] if z is not None) and not arc:
        agree([geometry(s) for s in Path(data)], want, tol + 1e-9, "path data")
    require(q.d() == flat.d(), "path data %r differs from that of abs, %r", q.d(), flat.d())
    require(str(q) == data, "str is %r, the path data %r", str(q), data)
    require([geometry(s) for s in q] == raw, "printing changed the path")
    r = q.reify()
    require(r is q and q.transform.is_identity(), "reify leaves the transform %r", q.transform)
    agree([geometry(s) for s in q], want, tol, "reify")
    require(q.d() == data, "path data %r after reify, %r before", q.d(), data)
    # one subpath alone
    n = q.count_subpaths()
    k = pick % n
    m = ms[0]
    fresh = Path(text)
    a, b = subpath_ranges([kind(s) for s in fresh])[k]
    sp = fresh.subpath(k)
    moved = sp * Matrix(*m)
    require(snapshot(fresh) == exact, "multiplying a subpath changed its path")
    tol1 = (1e-6 if arc else 1e-9) * (max([1.0] + [abs(z) for z in pts]) * max(1, norm(m)) + abs(m[4]) + abs(m[5]))
    body = [x if x[0] != "M" else x[:1] + x[2:] for x in images(geos[a:b], m)]  # where its move comes from is the previous subpath's
    agree([x if x[0] != "M" else x[:1] + x[2:] for x in (geometry(s) for s in moved)], body, tol1, "subpath * matrix")
    sp *= text_of(m)
    agree([x if x[0] != "M" else x[:1] + x[2:] for x in (geometry(s) for s in sp)], body, tol1, "subpath *= matrix")
    if b == len(geos) or geos[b][0] == "M":
        agree([geometry(s) for s in fresh[:a]], geos[:a], tol1, "what precedes the subpath")
        skip = [x if x[0] != "M" else x[:1] + x[2:] for x in geos[b:]]
        agree([x if x[0] != "M" else x[:1] + x[2:] for x in (geometry(s) for s in fresh[b:])], skip, tol1, "what follows the subpath")
    return len([x for x in geos if x[0] != "M"]) >= 2 and interesting(total)


@sub("C12", "long paths", chains(long=True), quick=100, thorough=6000)
def long_paths(case):
    return paths(case)


edits = st.one_of(
    op(), op(),
    st.just(["reverse"]),
    st.tuples(st.just("subreverse"), st.integers(0, 3)).map(list),
    st.tuples(st.just("submul"), st.integers(0, 3), invertible()).map(list),
    st.tuples(st.just("subdel"), st.integers(0, 3), st.integers(1, 3)).map(list),
)


@sub("C12", "pending", st.tuples(path_commands(min_size=1, max_size=6, letters="MLHVQTCSZA"), st.lists(st.one_of(edits, invertible().map(lambda m: ["mul", m])), min_size=1, max_size=5), invertible()).map(list), quick=500, thorough=25000)
def pending(case):
    """A path under a transform shows the image of what its segments are, whatever is done to them and was read before."""
    from svgio import Matrix, Path

    commands, history, m = case
    p = Path(path_text(commands))
    if any(kind(s) == "A" for s in p) and norm(m) > 1e3:
        return False
    p *= Matrix(*m)
    total = m
    done = 0
    for o in [None] + history:
        if o is not None:
            if o[0] == "radd":  # makes another path
                continue
            if o[0] == "mul" and stretch(total) * stretch(o[1]) > 1e4:
                continue
            if len(p) > 40 or o[0] in ("reverse", "subreverse") and not closes_end_subpaths(p):
                continue
            try:
                p = edit(p, o)
            except Skip:
                continue
            if len(p) and p[0].start is None and kind(p[0]) != "M" or any(kind(s) == "A" and not _sound(s) for s in p):
                break
            done += 1
            if o[0] == "mul":
                total = mul(total, o[1])
        require([float(p.transform[i]) for i in range(6)] == [float(x) for x in Matrix(*m)] or done, "the transform of a path *= %s is %r", m, p.transform)
        now = [float(p.transform[i]) for i in range(6)]
        require(all(abs(x - y) <= 1e-9 * (1 + abs(y)) * max(1, norm(total)) for x, y in zip(now, total)), "after %s the transform is %s, not %s", o, now, total)
        raw = [geometry(s) for s in p]
        want = images(raw, now)
        scale = max([1.0] + [abs(z) for x in raw for z in x[1:] if z is not None]) * max(1.0, 2 * norm(now)) + abs(now[4]) + abs(now[5])
        tol = (1e-6 if any(x[0] == "A" for x in raw) else 1e-9) * scale
        touch(p) if chosen(o) and len(p) and kind(p[0]) == "M" else None
        agree([geometry(s) for s in p.segments()], want, tol, "segments() after %s" % (o,))
        agree([geometry(s) for s in abs(p)], want, tol, "abs after %s" % (o,))
        require([geometry(s) for s in p.segments(transformed=False)] == raw, "segments(transformed=False) after %s are not those of the path", o)
    return done and interesting(m)
