"""C06: subpaths as windows on a path, against list slices and the linking model."""
from hypothesis import strategies as st

from ..big import big_commands, far_index, far_slices
from ..common import (anypair, closes_end_subpaths, connected, defining, geometries, invertible, kind, mapped, path_commands,
                      path_text, remade, same_geometry, snap, snapshot)
from ..core import Violation, require, rule, sub
from ..histories import (Elem, Skip, apply_model, apply_real, complete, elem, index, link, list_operand, op, operand, path_operand, seg_operand,
                         slices, subpath_ranges, text_operand, tolerance)
from ..oracle.svgpath import read
from ..spoil import chosen, touch
from .c04_connectivity import judge as judge_model

rule("C06", "cases are a path of several subpaths with reads of, or a history of edits through, its subpaths; "
     "non-trivial: the path has at least two subpaths")

multi = path_commands(min_size=2, max_size=10, letters="MLMLQCTSZHA")
many = big_commands(12, 60, letters="MLMLQCTSZHA")


@sub("C06", "partition", st.one_of(multi, path_commands(min_size=1, max_size=8, letters="MLLQMCTSZ", start_move=False)), quick=700, thorough=30000)
def partition(commands):
    from svgio import Path

    if commands[0][0] in "ZTS":
        return False
    p = Path(path_text(commands))
    segs = list(p)
    ranges = subpath_ranges([kind(s) for s in segs])
    subs = list(p.as_subpaths())
    require(len(subs) == len(ranges), "%d subpaths instead of %d", len(subs), len(ranges))
    require(p.count_subpaths() == len(ranges), "count_subpaths() is %d, there are %d", p.count_subpaths(), len(ranges))
    for k, (a, b) in enumerate(ranges):
        for sp in (subs[k], p.subpath(k), p.subpath(k - len(ranges))):
            got = list(sp)
            require(len(sp) == b - a == len(got), "subpath %d has length %d, %d segments, not %d", k, len(sp), len(got), b - a)
            require(all(x is y for x, y in zip(got, segs[a:b])), "subpath %d holds other segments than path[%d:%d]", k, a, b)
    try:
        p.subpath(len(ranges))
    except IndexError:
        pass
    else:
        raise Violation("subpath(%d) exists" % len(ranges))
    return len(ranges) > 1


def parts(p, what):
    """The subpaths are the stretches of the list of segments which begin with a move."""
    segs = list(p)
    ranges = subpath_ranges([kind(s) for s in segs])
    subs = list(p.as_subpaths())
    require(len(subs) == len(ranges) == p.count_subpaths(), "%s: %d subpaths, count_subpaths() %d, instead of %d", what, len(subs), p.count_subpaths(), len(ranges))
    for k, (a, b) in enumerate(ranges):
        for sp in (subs[k], p.subpath(k), p.subpath(k - len(ranges))):
            got = list(sp)
            require(len(sp) == b - a == len(got) and all(x is y for x, y in zip(got, segs[a:b])), "%s: subpath %d is not path[%d:%d] but %s", what, k, a, b, got)
    return len(ranges)


level = path_commands(min_size=3, max_size=9, letters="MLLMH", coords=st.tuples(st.integers(0, 9), st.just(0)).map(list))  # their lengths are exact sums
touching = st.tuples(st.just("touch"), st.integers(0, 2)).map(list)


@sub("C06", "partition along histories", st.tuples(st.one_of(multi, level), st.lists(st.one_of(op(), op(), st.tuples(st.just("reverse"), st.integers(0, 5)).map(list), touching, touching), min_size=1, max_size=8)).map(list), quick=600, thorough=20000)
def partition_along(case):
    """However a path came to be what it is, and whatever was read of it before, its subpaths are those of its segments."""
    from svgio import Path

    commands, history = case
    p = Path(path_text(commands))
    many = parts(p, "at first")
    done = []
    for o in history:
        model = [Elem(d[0], d[1], d[2:-1], d[-1]) for d in map(defining, p)]
        if o[0] == "reverse":
            if not closes_end_subpaths(p):
                continue
            again = complete(model) and model and model[0].k == "M" and not chosen(o, 3)
            if again:
                touch(p)
            p.reverse()
            if again:
                touch(p)
        elif o[0] == "touch":
            if not complete(model) or not model or model[0].k != "M":
                continue
            touch(p)
        else:
            try:
                if apply_model(model, o)[1] is not None:
                    continue
            except Skip:
                continue
            p = apply_real(p, o, model)
        done.append(o[0])
        if len(p) and (o is history[-1] or not chosen(o, 3)):
            many = max(many, parts(p, "after %s" % done))
    return many > 1 and len(done) > 1


@sub("C06", "partition of many", many, quick=80, thorough=6000)
def partition_of_many(commands):
    return partition(commands)


@sub("C06", "reading", st.tuples(multi, st.integers(0, 9), st.lists(index, max_size=5), st.lists(slices, max_size=4), st.one_of(st.none(), invertible())).map(list), quick=500, thorough=30000)
def reading(case):
    from copy import copy

    from svgio import Line, Matrix, Move, Path

    commands, k, idx, sls, m = case
    p = Path(path_text(commands))
    segs = list(p)
    ranges = subpath_ranges([kind(s) for s in segs])
    k %= len(ranges)
    a, b = ranges[k]
    part = segs[a:b]
    sp = p.subpath(k)
    before = snapshot(p)
    for i in list(idx) + [len(part), -len(part) - 1, len(part) - 1, -len(part)]:
        try:
            want = part[i]
        except IndexError:
            try:
                got = sp[i]
            except IndexError:
                continue
            raise Violation("subpath[%d] of %d segments gives %r" % (i, len(part), got))
        require(sp[i] is want, "subpath[%d] is not the segment there", i)
    for sl in sls:
        got, want = list(sp[slice(*sl)]), part[slice(*sl)]
        require(len(got) == len(want) and all(x is y for x, y in zip(got, want)), "subpath[%r] differs from the list's", sl)
    # equality, data, bounding box
    lone = Path(*[copy(s) for s in part])
    require(sp == lone and not (sp != lone), "a subpath differs from a path of its segments")
    require(sp == p.subpath(k) and not (sp != p.subpath(k)), "a subpath differs from itself")
    require(snapshot(Path(sp)) == before[a:b], "Path(subpath) has other segments")
    for part_ in ranges:  # a subpath equals what equals its segments: text as well
        text = Path.svg_d(segs[part_[0]:part_[1]])
        if isinstance(segs[part_[0]], Move):
            require((sp == text) == (lone == Path(text)) and (sp != text) == (lone != Path(text)), "the subpath %r compares %s to %r, a path of its segments does not", lone.d(), sp == text, text)
    longer = Path(*([copy(s) for s in part] + [Line(copy(part[-1].end), (1, 2))]))
    require(sp != longer and longer != sp and not (sp == longer) and not (longer == sp), "a subpath equals a longer path")
    for q in range(len(ranges)):
        if q != k:
            c0, d0 = ranges[q]
            same = before[c0:d0] == before[a:b]
            if not same and (d0 - c0 != b - a or any(x[0] != y[0] for x, y in zip(before[c0:d0], before[a:b]))):
                require(sp != p.subpath(q) and not (sp == p.subpath(q)), "different subpaths compare equal")
    boxes = [s.bbox() for s in part if kind(s) != "M"]
    box = sp.bbox()
    if not boxes:
        require(box is None, "a subpath drawing nothing has the box %r", box)
    else:
        want = (min(x[0] for x in boxes), min(x[1] for x in boxes), max(x[2] for x in boxes), max(x[3] for x in boxes))
        require(tuple(box) == want, "box of the subpath is %r, of its segments %r", tuple(box), want)
    require(sp.d() == Path.svg_d(part), "data of the subpath is %r, of its segments %r", sp.d(), Path.svg_d(part))
    require([snap(s) for s in sp.segments(transformed=False)] == before[a:b], "segments() differs from the window")
    if m is not None:
        p *= Matrix(*m)
        require([snap(s) for s in p.subpath(k).segments()] == [snap(s) for s in p.segments()][a:b], "segments() of the subpath differ from those of the transformed path there")
        require([snap(s) for s in sp.segments(transformed=False)] == before[a:b], "segments() without the transform show it")
    require(snapshot(p) == before, "reading changed the path")
    return len(ranges) > 1


@sub("C06", "reading many", st.tuples(many, st.integers(0, 40), st.lists(far_index, max_size=6), st.lists(far_slices, max_size=5), st.one_of(st.none(), invertible())).map(list), quick=80, thorough=6000)
def reading_many(case):
    return reading(case)


ops = st.one_of(
    st.tuples(st.just("set"), index, st.one_of(seg_operand, text_operand)).map(list),
    st.tuples(st.just("setslice"), slices, st.one_of(list_operand, text_operand, path_operand)).map(list),
    st.tuples(st.just("del"), index).map(list),
    st.tuples(st.just("delslice"), slices).map(list),
    st.tuples(st.just("iadd"), st.one_of(seg_operand, text_operand, path_operand)).map(list),
)


def apply_window(model, a, b, o):
    """The model after editing its window [a, b); returns (model, new b, error)."""
    m = [e.copy() for e in model]
    w = m[a:b]
    try:
        if o[0] in ("set", "setslice"):
            _, add = operand(o[2])
            if add is None:
                raise Skip
            if o[0] == "set":
                if not -len(w) <= o[1] < len(w):
                    raise IndexError
                if not add:
                    raise Skip
                if len(add) > 1:
                    raise ValueError
                w[o[1]] = add[0]
            else:
                w[slice(*o[1])] = add
        elif o[0] == "del":
            del w[o[1]]
        elif o[0] == "delslice":
            del w[slice(*o[1])]
        elif o[0] == "iadd":
            _, add = operand(o[1])
            if add is None:
                raise Skip
            w += add
    except (IndexError, ValueError) as e:
        return model, b, type(e)
    m[a:b] = w
    if not m or m[0].end is None:
        raise Skip
    link(m)
    if not complete(m):
        raise Skip
    return m, a + len(w), None


@sub("C06", "edits", st.tuples(multi, st.integers(0, 9), st.lists(ops, min_size=1, max_size=5)).map(list), quick=1200, thorough=80000, weight=3)
def edits(case):
    from svgio import Path

    commands, k, history = case
    text = path_text(commands)
    segs, ok = read(text)
    p = Path(text)
    model = [elem(w) for w in segs]
    ranges = subpath_ranges([e.k for e in model])
    k %= len(ranges)
    a, b = ranges[k]
    sp = p.subpath(k)
    done = 0
    for o in history:
        try:
            after, nb, error = apply_window(model, a, b, o)
        except Skip:
            continue
        if chosen(o) and complete(model) and model and model[0].k == "M":
            touch(p)
        try:
            if o[0] == "set":
                sp[o[1]] = operand(o[2])[0]()
            elif o[0] == "setslice":
                sp[slice(*o[1])] = operand(o[2])[0]()
            elif o[0] == "del":
                del sp[o[1]]
            elif o[0] == "delslice":
                del sp[slice(*o[1])]
            else:
                q = sp
                q += operand(o[1])[0]()
                require(q is sp, "+= made a new subpath")
        except (IndexError, ValueError) as e:
            require(error is type(e), "%s raises %s, on a list %s", o[0], type(e).__name__, error)
        else:
            require(error is None, "%s passes, a list raises %s", o[0], error)
            done += 1
        model, b = after, nb
        judge_model(p, model, None, [o[0] + " through a subpath"])
        require(len(sp) == b - a, "after %s the window has %d segments instead of %d", o[0], len(sp), b - a)
        inside = list(p)[a:b]
        got = list(sp)
        require(len(got) == len(inside) and all(x is y for x, y in zip(got, inside)), "after %s the window shows other segments", o[0])
    return done and len(ranges) > 1


@sub("C06", "edits of many", st.tuples(many, st.integers(0, 40), st.lists(ops, min_size=2, max_size=10)).map(list), quick=120, thorough=10000)
def edits_of_many(case):
    return edits(case)


@sub("C06", "transform", st.tuples(multi, st.integers(0, 9), invertible(), st.booleans(), st.booleans()).map(list), quick=300, thorough=20000)
def transform(case):
    from svgio import Matrix, Path

    commands, k, m, as_text, inplace = case
    p = Path(path_text(commands))
    if not closes_end_subpaths(p):
        return False
    ranges = subpath_ranges([kind(s) for s in p])
    k %= len(ranges)
    a, b = ranges[k]
    before = geometries(p)
    sp = p.subpath(k)
    mat = Matrix(*m)
    if as_text:
        m = [float("%.9f" % v) for v in m]
        mat = "matrix(%.9f %.9f %.9f %.9f %.9f %.9f)" % tuple(m)
    if inplace:
        sp *= mat
        q, a2, b2 = p, a, b
        connected(list(p), "after transforming a subpath")
    else:
        other = sp * mat
        require(geometries(p) == before, "subpath * matrix changed the path")
        q = list(other)
        a2, b2 = 0, b - a
        require(len(q) == b - a, "subpath * matrix has %d segments instead of %d", len(q), b - a)
    after = geometries(q)
    scale = max([1.0] + [abs(z) for s in before + after for z in s[1:] if z is not None]) * max(1.0, max(abs(v) for v in m[:4]))
    for i in range(a, b):
        want = (before[i][0],) + tuple(None if z is None else mapped(m, z) for z in before[i][1:])
        got = after[a2 + i - a]
        if i == a:  # a move starts where the subpath before it ends
            want, got = (want[0],) + want[2:], (got[0],) + got[2:]
        require(same_geometry(want, got, 1e-6 * scale if want[0] == "A" else 1e-9 * scale),
                "segment %d of the transformed subpath is %s instead of %s", i - a, got, want)
    if inplace:
        for i in list(range(0, a)) + list(range(b, len(p))):
            x, y = before[i], after[i]
            if i == b:
                x, y = (x[0],) + x[2:], (y[0],) + y[2:]
            require(x == y, "transforming subpath %d changed segment %d from %s to %s", k, i, x, y)
    return len(ranges) > 1


@sub("C06", "transform of many", st.tuples(big_commands(12, 50, letters="MLMLQCTSHA"), st.integers(0, 40), invertible(), st.booleans(), st.booleans()).map(list), quick=60, thorough=4000)
def transform_of_many(case):
    return transform(case)


@sub("C06", "reverse_others", st.tuples(multi, st.integers(0, 9)).map(list), quick=300, thorough=20000)
def reverse_others(case):
    """Reversing through a subpath leaves the rest of the path alone (its own curve is judged by C07)."""
    from svgio import Path

    commands, k = case
    p = Path(path_text(commands))
    if not closes_end_subpaths(p):
        return False
    ranges = subpath_ranges([kind(s) for s in p])
    k %= len(ranges)
    a, b = ranges[k]
    before = snapshot(p)
    sp = p.subpath(k)
    sp.reverse()
    require(len(p) == len(before) and len(sp) == b - a, "reversing a subpath changed the number of segments")
    connected(list(p), "after reversing subpath %d" % k)
    after = snapshot(p)
    for i in list(range(0, a)) + list(range(b, len(p))):
        x, y = before[i], after[i]
        if i == b:
            x, y = (x[0],) + x[2:], (y[0],) + y[2:]
        require(x == y, "reversing subpath %d changed segment %d from %s to %s", k, i, x, y)
    if b < len(p):
        require(after[b][0] == "M", "the subpath after it no longer begins with a move")
    return len(ranges) > 1


@sub("C06", "reverse_others of many", st.tuples(big_commands(12, 50, letters="MLMLQCTSHA"), st.integers(0, 40)).map(list), quick=60, thorough=4000)
def reverse_others_of_many(case):
    return reverse_others(case)


ways = st.one_of(ops, st.just(["reverse"]), st.just(["reverse"]), st.tuples(st.just("times"), invertible()).map(list), st.tuples(st.just("times"), invertible()).map(list))


@sub("C06", "mixed", st.tuples(multi, st.integers(0, 9), st.lists(ways, min_size=2, max_size=6)).map(list), quick=400, thorough=30000, weight=2)
def mixed(case):
    """Edits, reversals and transforms through one subpath: each does what it does on a path made afresh of the same numbers."""
    from svgio import Matrix, Path

    commands, k, history = case
    p = Path(path_text(commands))
    ranges = subpath_ranges([kind(s) for s in p])
    k %= len(ranges)
    a, b = ranges[k]
    sp = p.subpath(k)
    done = []
    for o in history:
        model = [Elem(d[0], d[1], d[2:-1], d[-1]) for d in map(defining, p)]
        nb = b
        if o[0] == "reverse":
            if not closes_end_subpaths(p):
                continue
        elif o[0] != "times":
            try:
                _, nb, error = apply_window(model, a, b, o)
            except Skip:
                continue
            if error is not None:
                continue
        q = remade(p)
        fresh = q.subpath(k)
        require(len(fresh) == len(sp) == b - a, "after %s the subpath has %d segments, one asked for afresh %d", done, len(sp), len(fresh))
        for x in (sp, fresh):
            if o[0] == "reverse":
                x.reverse()
            elif o[0] == "times":
                x *= Matrix(*o[1])
            elif o[0] == "set":
                x[o[1]] = operand(o[2])[0]()
            elif o[0] == "setslice":
                x[slice(*o[1])] = operand(o[2])[0]()
            elif o[0] == "del":
                del x[o[1]]
            elif o[0] == "delslice":
                del x[slice(*o[1])]
            else:
                x += operand(o[1])[0]()
        done.append(o[0])
        b = nb
        got, want = snapshot(p), snapshot(q)
        require(got == want, "after %s the path is %s; the last on a path made afresh gives %s", done, got, want)
        connected(list(p), "after %s through a subpath" % done)
        ranges = subpath_ranges([kind(s) for s in p])
        if (a, b) not in ranges:
            break  # no longer one whole subpath
        k = ranges.index((a, b))
    return len(done) > 1 and len(ranges) > 1


@sub("C06", "copies", st.tuples(multi, st.integers(0, 9), ops, st.sampled_from(["edit", "reverse", "transform", "add", "radd", "point"])).map(list), quick=500, thorough=30000)
def copies(case):
    """Copies of subpaths, and sums with them, leave the path alone."""
    from copy import copy

    from svgio import Line, Matrix, Path

    commands, k, o, how = case
    p = Path(path_text(commands))
    ranges = subpath_ranges([kind(s) for s in p])
    k %= len(ranges)
    a, b = ranges[k]
    before = snapshot(p)
    sp = p.subpath(k)
    part = before[a:b]
    if how == "add":
        q = sp + "L 777,778 Q 1,2 3,4"
        require([x[0] for x in snapshot(q)] == [x[0] for x in part] + ["L", "Q"], "subpath + text is %s", snapshot(q))
        r = sp + Line((1, 2), (3, 4))
        require([x[0] for x in snapshot(r)] == [x[0] for x in part] + ["L"], "subpath + segment is %s", snapshot(r))
        r = sp + Path("M5,5L6,6")
        require([x[0] for x in snapshot(r)] == [x[0] for x in part] + ["M", "L"], "subpath + path is %s", snapshot(r))
    elif how == "radd":
        q = "M 777,778 L 9,9" + sp
        require([x[0] for x in snapshot(q)] == ["M", "L"] + [x[0] for x in part], "text + subpath is %s", snapshot(q))
        connected(list(q), "text + subpath")
        r = Line((1, 2), (3, 4)) + sp
        require([x[0] for x in snapshot(r)] == ["L"] + [x[0] for x in part], "segment + subpath is %s", snapshot(r))
    else:
        q = copy(sp)
        require(q == sp and len(q) == len(sp) and list(map(snap, q)) == part, "the copy of a subpath differs")
        if how == "reverse":
            if not closes_end_subpaths(p):
                return False
            q.reverse()
        elif how == "transform":
            q *= Matrix(2, 0, 0, 3, 5, 7)
        elif how == "point":
            for s in q:
                s.end.x += 5
                if s.start is not None:
                    s.start.y -= 3
        else:
            try:
                if o[0] == "set":
                    q[o[1]] = operand(o[2])[0]()
                elif o[0] == "setslice":
                    f = operand(o[2])[0]
                    if f is not None:
                        q[slice(*o[1])] = f()
                elif o[0] == "del":
                    del q[o[1]]
                elif o[0] == "delslice":
                    del q[slice(*o[1])]
                else:
                    f = operand(o[1])[0]
                    if f is not None:
                        q += f()
            except (IndexError, ValueError, TypeError):
                pass
    require(snapshot(p) == before, "%s on a copy of a subpath changed the path", how)
    require(len(sp) == b - a, "%s on a copy of a subpath changed its length", how)
    return len(ranges) > 1
