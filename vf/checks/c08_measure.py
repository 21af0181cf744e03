"""C08: path length and points along a path agree with its segments, also after edits."""
from hypothesis import strategies as st

from ..big import big_commands, far_index, far_slices
from ..common import closes_end_subpaths, defining, frac, invertible, kind, path_commands, path_text, pt, pair
from ..core import require, rule, sub, without
from ..histories import Elem, Skip, apply_model, apply_real, op, start_path, complete

rule("C08", "cases are paths with fractions, or histories mixing edits and measurements; non-trivial: at least two segments "
     "of non-zero length (histories: measured before and after an edit which changed the length)")

ERR = 1e-5  # accuracy asked for, so that the subdivision used without scipy stays affordable


def fresh_lengths(segs):
    return [float(s.length(error=ERR)) for s in segs]


def expect_at(segs, lengths, t, slack=1e-11):
    """Points the path may report at fraction t, with a tolerance each: several at the joints."""
    total = sum(lengths)
    out = []
    scale = max([1.0] + [abs(z) for s in segs for z in defining(s)[1:] if z is not None])
    cum = 0.0
    for s, n in zip(segs, lengths):
        if n == 0:
            continue
        lo, hi = cum / total, (cum + n) / total
        cum += n
        if lo - slack <= t <= hi + slack:
            u = min(1.0, max(0.0, (t - lo) / (hi - lo)))
            near = [max(0.0, u - 2 * slack / (hi - lo)), min(1.0, u + 2 * slack / (hi - lo))]
            p = pt(s.point(u))
            out.append((p, 1e-10 * scale + 4 * max(abs(pt(s.point(v)) - p) for v in near)))
    if t >= 1 - slack and lengths[-1] == 0 and segs[-1].end is not None:
        out.append((pt(segs[-1].end), 1e-12))  # moves after the last line: the path ends there
    return out


def judge(p, ts, what=""):
    """The path against its own segments, measured one by one."""
    segs = list(p)
    if not segs:
        require(p.length(error=ERR) == 0, "%sempty path has length %r", what, p.length(error=ERR))
        require(p.point(0.5) is None, "%sempty path has a point", what)
        return 0, []
    lengths = fresh_lengths(segs)
    total = sum(lengths)
    got = float(p.length(error=ERR))
    require(abs(got - total) <= 1e-9 * (1 + total), "%slength %r, its segments add up to %r", what, got, total)
    pts = [pt(p.point(t, error=ERR)) for t in ts]
    for t, z in zip(ts, pts):
        if t == 0:
            want = [(pt(segs[0].point(0)), 1e-12)]
        elif t == 1:
            want = [(pt(segs[-1].end), 1e-12)]
        elif total == 0:
            want = [(pt(s.end), 1e-12) for s in segs] + [(pt(s.start), 1e-12) for s in segs if s.start is not None]
        else:
            want = expect_at(segs, lengths, t)
        require(any(abs(z - w) <= tol for w, tol in want), "%spoint(%r) is %s, expected one of %s", what, t, z, [w for w, _ in want])
    return total, pts


def same_points(a, b, scale, p, ts, what):
    for i, (x, y) in enumerate(zip(a, b)):
        if abs(x - y) <= 1e-9 * scale:
            continue
        segs = list(p)
        want = expect_at(segs, fresh_lengths(segs), ts[i]) if sum(fresh_lengths(segs)) else []
        # at a jump between subpaths either side is right for the same fraction
        require(any(abs(y - w) <= tol for w, tol in want), "%s: %s at %r instead of %s", what, y, ts[i], x)


fractions = st.lists(frac, min_size=1, max_size=6)


@st.composite
def measured(draw):
    commands = draw(st.one_of(
        path_commands(min_size=1, max_size=9),
        path_commands(min_size=3, max_size=9, letters="MLLZQ", coords=st.tuples(st.integers(0, 2), st.integers(0, 2)).map(list)),
        path_commands(min_size=2, max_size=5, letters="MLZ", coords=st.just([3, 4])),
        path_commands(min_size=2, max_size=7, letters="LHVMZ"),
    ))
    ts = draw(fractions)
    return [commands, ts, draw(st.booleans())]


@sub("C08", "static", measured(), quick=900, thorough=40000, weight=2)
def static(case):
    from svgio import Path

    commands, ts, joints = case
    p = Path(path_text(commands))
    segs = list(p)
    lengths = fresh_lengths(segs)
    total = sum(lengths)
    if joints and total:  # exactly the fractions at which one segment ends
        cum = 0.0
        for n in lengths:
            cum += n / total
            ts = ts + [min(1.0, cum)]
    _, pts = judge(p, ts)
    scale = max([1.0] + [abs(z) for z in pts])
    many = p.npoint(ts, error=ERR)
    require(len(many) == len(ts), "npoint gives %d points for %d fractions", len(many), len(ts))
    same_points(pts, [pt(z) for z in many], scale, p, ts, "npoint")
    q = Path(path_text(commands))  # measured for the first time by npoint
    same_points(pts, [pt(z) for z in q.npoint(ts, error=ERR)], scale, p, ts, "npoint of a path not yet measured")
    with without("numpy"):
        q = Path(path_text(commands))
        got = fresh_lengths(q)
        if all(abs(a - b) <= 1e-12 * (1 + total) for a, b in zip(got, lengths)):  # not so where scipy would import it
            same_points(pts, [pt(z) for z in q.npoint(ts, error=ERR)], scale, p, ts, "npoint without numpy")
        got = float(q.length(error=ERR))
        require(abs(got - total) <= 1e-3 * (1 + total), "length without numpy %r, not %r", got, total)
    return sum(1 for n in lengths if n > 0) >= 2


@sub("C08", "long", st.tuples(big_commands(12, 60), fractions, st.booleans()).map(list), quick=60, thorough=4000)
def long_static(case):
    return static(case)


small_measured = st.tuples(path_commands(min_size=2, max_size=4, coords=st.tuples(st.integers(-5, 5), st.integers(-5, 5)).map(list), letters="MLCQAZ"), fractions).map(list)


@sub("C08", "fallback", small_measured, quick=60, thorough=3000)
def fallback(case):
    """Without numpy and scipy the lengths are approximations, so the points are near the exact ones."""
    from svgio import Path

    commands, ts = case
    if any(cmd[0] == "A" and max(cmd[1], cmd[2]) > 100 for cmd in commands):
        return False
    p = Path(path_text(commands))
    exact = float(p.length())
    with without("numpy", "scipy"):
        q = Path(path_text(commands))
        segs = list(q)
        ls = [float(s.length(error=1e-4)) for s in segs]
        got = float(q.length(error=1e-4))
        require(abs(got - sum(ls)) <= 1e-9 * (1 + got), "length %r, its segments add up to %r", got, sum(ls))
        require(abs(got - exact) <= 0.05 * (1 + exact), "length %r without scipy, %r with", got, exact)
        pts = [pt(q.point(t, error=1e-4)) for t in ts]
        many = [pt(z) for z in q.npoint(ts, error=1e-4)]
        require(pts == many, "npoint %s and point %s differ", many, pts)
        if got:
            for t, z in zip(ts, pts):
                if 0 < t < 1:
                    want = expect_at(segs, ls, t)
                    require(any(abs(z - w) <= tol for w, tol in want), "point(%r) is %s, expected one of %s", t, z, want)
    return len(segs) > 2


def level(cmd):
    """Some of the cubic curves made wave about their middle: halving them shows nothing new at first."""
    if cmd[0] == "C" and (cmd[1][0] + cmd[2][1]) % 2:
        (ax, ay), (bx, by), (x, y) = cmd[1:]
        return ["c", [ax, ay], [x - ax, y - ay], [x, y]]
    return cmd


@sub("C08", "accuracies", st.tuples(path_commands(min_size=1, max_size=4, coords=st.tuples(st.integers(-9, 9), st.integers(-9, 9)).map(list), letters="CCCCQALMZ"),
                                   st.lists(st.tuples(st.sampled_from([10.0, 1.0, 0.1, 1e-2, 1e-3]), st.integers(0, 5), frac, st.booleans()).map(list), min_size=2, max_size=4),
                                   st.sampled_from([True, True, True, False])).map(list), quick=300, thorough=6000)
def accuracies(case):
    """However roughly the path was measured before, a length is as accurate as now asked for."""
    from svgio import Path

    commands, asked, bare = case
    if any(cmd[0] == "A" and max(cmd[1], cmd[2]) > 100 for cmd in commands):
        return False
    with without(*(["numpy", "scipy"] if bare else [])):
        p = Path(path_text([level(cmd) for cmd in commands]))
        segs = list(p)
        seen = []
        worth = False
        for error, depth, t, by_point in asked:
            depth = 5 if by_point else depth  # points are measured to the default depth
            seen.append((error, depth))
            # measured now, or before with at least that accuracy and depth
            ls = [[float(s.length(error=e, min_depth=d)) for s in segs] for e, d in seen if e <= error and d >= depth]
            if by_point:
                z = pt(p.point(t, error=error))
                if 0 < t < 1 and sum(ls[-1]):
                    want = [w for m in ls for w in expect_at(segs, m, t)]
                    require(any(abs(z - w) <= tol for w, tol in want), "point(%r, error=%r) after measurements with %s is %s, expected one of %s", t, error, seen, z, [w for w, _ in want])
                continue
            got = float(p.length(error=error, min_depth=depth))
            ls = [sum(m) for m in ls]
            require(any(abs(got - x) <= 1e-9 * (1 + x) for x in ls), "length(error=%r) after measurements with %s is %r, expected one of %s", error, seen, got, ls)
            worth = worth or max(ls) - min(ls) > 1e-9 or len(seen) > 1 and abs(ls[-1] - sum(float(s.length(error=seen[0][0], min_depth=seen[0][1])) for s in segs)) > 1e-9
    return worth


extra = st.one_of(
    st.just(["reverse"]),
    st.tuples(st.just("mul"), invertible()).map(list),
    st.tuples(st.just("mulreify"), invertible()).map(list),
    st.tuples(st.just("abs"), invertible()).map(list),
    st.tuples(st.just("imatmul"), invertible()).map(list),
    st.just(["reify"]),
    st.tuples(st.just("subreverse"), st.integers(0, 3)).map(list),
    st.tuples(st.just("submul"), st.integers(0, 3), invertible()).map(list),
    st.tuples(st.just("subset"), st.integers(0, 3), st.integers(0, 3), pair).map(list),
    st.tuples(st.just("subdel"), st.integers(0, 3), st.integers(1, 3)).map(list),
    st.tuples(st.just("subadd"), st.integers(0, 3), pair).map(list),
    st.just(["direct"]),
    st.tuples(st.just("arcs"), st.booleans()).map(list),
    st.tuples(st.just("parse"), pair).map(list),
)

mixed = st.fixed_dictionaries({
    "init": st.one_of(path_commands(min_size=1, max_size=6), path_commands(min_size=2, max_size=8, letters="MLZQZ")),
    "ops": st.lists(st.tuples(st.one_of(op(), op(), extra, extra), st.sampled_from([0, 1, 1, 2])).map(list), min_size=2, max_size=9),
    "ts": fractions,
})


def model_of(p):
    out = []
    for s in p:
        d = defining(s)
        out.append(Elem(d[0], d[1], d[2:-1], d[-1]))
    return out


def perform(p, o):
    from svgio import Line, Matrix

    k = o[0]
    if k in ("reverse", "subreverse") and not closes_end_subpaths(p):
        raise Skip
    if k == "reverse":
        p.reverse()
    elif k == "mul":
        p *= Matrix(*o[1])
    elif k == "mulreify":
        p *= Matrix(*o[1])
        p.reify()
    elif k == "abs":
        p = abs(p * Matrix(*o[1]))
    elif k == "imatmul":
        p @= Matrix(*o[1])
    elif k == "reify":
        p.reify()
    elif k == "direct":
        p.direct_close()
    elif k == "arcs":
        (p.approximate_arcs_with_cubics if o[1] else p.approximate_arcs_with_quads)()
    elif k == "parse":
        p.parse("M%r,%r L 1,1" % tuple(o[1]))
    else:
        n = p.count_subpaths()
        if not n:
            raise Skip
        s = p.subpath(o[1] % n)
        if k == "subreverse":
            s.reverse()
        elif k == "submul":
            s *= Matrix(*o[2])
        elif k == "subadd":
            s += "L %r,%r" % tuple(o[2])
        elif len(s) < 2:
            raise Skip
        elif k == "subdel":
            i = o[2] % len(s)
            if i == 0:
                raise Skip
            del s[i]
        else:
            i = o[2] % len(s)
            if i == 0:
                raise Skip
            s[i] = Line(None, tuple(o[3]))
    return p


def edit(p, o):
    """Performs one operation where it is allowed; the path afterwards."""
    if o[0] in ("append", "insert", "set", "setslice", "del", "delslice", "pop", "extend", "iadd", "add", "radd", "draw", "clear", "remove"):
        model = model_of(p)
        if not complete(model):
            raise Skip
        _, error = apply_model(model, o)
        if error is not None:
            raise Skip
        return apply_real(p, o, model)
    return perform(p, o)


@sub("C08", "histories", mixed, quick=700, thorough=20000, weight=3)
def histories(case):
    p, model = start_path(case)
    if p is None:
        return False
    interesting = False
    lazy = False  # holding a transform not yet applied
    old = None
    for o, how in case["ops"]:
        if o[0] in ("subset", "submul", "set", "setslice", "radd", "parse", "subadd") and lazy:
            continue
        try:
            p = edit(p, o)
        except Skip:
            continue
        if len(p) and p[0].start is None and kind(p[0]) != "M":
            return interesting  # begins nowhere
        lazy = not p.transform.is_identity()
        if any(a is not None and not _sound(s) for s in p for a in [kind(s) == "A" or None]):
            return interesting  # an arc left inconsistent by a moved end
        if how:
            what = "after %s: " % o[0]
            total, pts = judge(p, case["ts"], what)
            if how == 2 and len(p):
                same_points(pts, [pt(z) for z in p.npoint(case["ts"], error=ERR)], max([1.0] + [abs(z) for z in pts]), p, case["ts"], what + "npoint")
            if old is not None and abs(old - total) > 1e-9:
                interesting = True
            old = total
        # otherwise whatever was measured before has to be forgotten by itself
    return interesting


@sub("C08", "long histories", st.fixed_dictionaries({
    "init": big_commands(12, 50, letters="MLLHVTQZ"),
    "ops": st.lists(st.tuples(st.one_of(op(far_index, far_slices), extra), st.sampled_from([0, 1, 1, 2])).map(list), min_size=2, max_size=9),
    "ts": fractions}), quick=80, thorough=5000)
def long_histories(case):
    return histories(case)


def _sound(arc):
    """The ends of the arc lie on its ellipse."""
    if not arc.sweep:
        return True
    a = pt(arc.point_at_t(arc.get_start_t()))
    b = pt(arc.point_at_t(arc.get_start_t() + arc.sweep))
    tol = 1e-5 * (1 + abs(a) + abs(b))
    return abs(a - pt(arc.start)) <= tol and abs(b - pt(arc.end)) <= tol
