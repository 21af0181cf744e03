"""C29: the drawing methods of a path add what the commands of path data mean."""
import random

from hypothesis import strategies as st

from ..big import long_text
from ..common import anypair, c, compare_arc, connected, defining, geometry, invertible, mapped, pos, pt, rotations, same_geometry, small, snap, snapshot
from ..core import require, rule, sub
from ..oracle.svgpath import letters as parsed_letters
from ..histories import Skip, complete, op, path_commands, path_text as text_of
from ..spoil import touch
from ..textgen import path_text
from .c02_path_round_trip import compare as compare_text, expected
from .c08_measure import _sound, edit, extra, model_of

rule("C29", "cases are histories of drawing calls on an empty or a parsed path; non-trivial: at least two calls, one of them "
     "with several coordinates, a smooth curve, a relative number or 'z' for a point")

FORMS = ["tuple", "list", "complex", "Point", "str"]
SIZE = {"move": 1, "line": 1, "smooth_quad": 1, "quad": 2, "smooth_cubic": 2, "cubic": 3, "vertical": 1, "horizontal": 1, "arc": 1}
LETTER = {"move": "M", "line": "L", "smooth_quad": "T", "quad": "Q", "smooth_cubic": "S", "cubic": "C", "vertical": "L", "horizontal": "L",
          "arc": "A", "closed": "Z"}


@st.composite
def call(draw, methods=tuple(LETTER), times=(1, 1, 1, 2, 3)):
    """[method, [arguments of one command, ...], relative or None]; a point is a pair or 'z'."""
    k = draw(st.sampled_from(methods))
    rel = draw(st.sampled_from([None, False, True]))
    if k == "closed":
        return [k, [], rel]
    point = st.one_of(anypair, anypair, anypair, anypair, anypair, st.sampled_from(["z", "Z"]))
    groups = []
    for _ in range(draw(st.sampled_from(times))):
        if k in ("vertical", "horizontal"):
            groups.append([draw(small)])
        elif k == "arc":
            groups.append([draw(pos), draw(pos), draw(rotations), draw(st.booleans()), draw(st.booleans()), draw(point)])
        else:
            groups.append([draw(point) for _ in range(SIZE[k])])
    return [k, groups, rel]


def shaped(v, form):
    from svgio import Point

    if not isinstance(v, list):
        return v
    return {"tuple": tuple(v), "list": v, "complex": complex(*v), "Point": Point(*v), "str": "%r,%r" % (v[0], v[1])}[form]


def model(segs, method, groups, rel):
    """Adds what the calls mean to the segments, as tuples (kind, start, ..., end); arcs with their parameters."""
    cur = segs[-1][-1] if segs else None
    moves = [s for s in segs if s[0] == "M"]
    z = moves[-1][-1] if moves else (segs[0][-1] if segs else None)

    def mirror(kind):
        if not segs:
            return None
        last = segs[-1]
        return 2 * cur - last[-2] if last[0] == kind and last[-2] is not None else cur

    if method == "closed":
        segs.append(("Z", cur, z))
        return
    for i, g in enumerate(groups):
        cur = segs[-1][-1] if segs else None
        p = [z if v in ("z", "Z") else c(v) if isinstance(v, list) else v for v in g]
        if method == "move":
            segs.append(("L" if i else "M", cur, p[0]))
            if not i:
                z = p[0]
        elif method == "line":
            segs.append(("L", cur, p[0]))
        elif method == "vertical":
            segs.append(("L", cur, complex(cur.real, p[0] + (cur.imag if rel else 0))))
        elif method == "horizontal":
            segs.append(("L", cur, complex(p[0] + (cur.real if rel else 0), cur.imag)))
        elif method == "quad":
            segs.append(("Q", cur, p[0], p[1]))
        elif method == "smooth_quad":
            segs.append(("Q", cur, mirror("Q"), p[0]))
        elif method == "cubic":
            segs.append(("C", cur, p[0], p[1], p[2]))
        elif method == "smooth_cubic":
            segs.append(("C", cur, mirror("C"), p[0], p[1]))
        elif method == "arc":
            segs.append(("A", cur) + tuple(p))


def agree(path, segs, what):
    require(len(path) == len(segs), "%s: %d segments %s instead of %d %s", what, len(path), "".join(defining(s)[0] for s in path), len(segs), "".join(s[0] for s in segs))
    for i, (s, w) in enumerate(zip(path, segs)):
        d = defining(s)
        require(d[0] == w[0], "%s: segment %d is a %s, not a %s", what, i, d[0], w[0])
        want = (w[1], w[-1]) if w[0] == "A" else w[1:]
        for j, (x, y) in enumerate(zip(d[1:], want)):
            require((x is None) == (y is None), "%s: segment %d (%s) point %d is %s, not %s", what, i, w[0], j, x, y)
            require(x is None or abs(x - y) <= 1e-11 * (1 + abs(y)), "%s: segment %d (%s) point %d is %s, not %s", what, i, w[0], j, x, y)
        if w[0] == "A":
            if len(w) > 3:
                compare_arc(s, d[1], w[2], w[3], w[4], w[5], w[6], d[2], "%s: segment %d" % (what, i))
    connected(list(path), what)


def goes_on(p, segs, what):
    """What the path leaves behind for the next command; the names of what was asked, each spoilt before it is given."""
    moves = [s for s in segs if s[0] == "M"]
    last = segs[-1]
    cur, z = last[-1], (moves or segs[:1])[-1][-1]
    mirror = 2 * cur - last[-2] if last[0] in "QC" else cur
    for name, w in (("current_point", cur), ("z_point", z), ("first_point", segs[0][1] if segs[0][1] is not None else segs[0][-1]), ("smooth_point", mirror)):
        held = getattr(p, name)
        v = pt(held, name)
        require(v is not None and abs(v - w) <= 1e-11 * (1 + abs(w)), "%s %s is %s, not %s", what, name, v, w)
        held.x, held.y = 777, 888  # the caller's own
        yield name


def agree_ends(path, segs, first, what):
    """The segments drawn, from the given one on, are those expected."""
    require(len(path) == len(segs), "%s: %d segments instead of %d", what, len(path), len(segs))
    for i in range(first, len(segs)):
        d, w = defining(path[i]), segs[i]
        require(d[0] == w[0] and len(d) == len(w), "%s: segment %d is a %s, not a %s", what, i, d[0], w[0])
        for j, (x, y) in enumerate(zip(d[1:], w[1:])):
            require((x is None) == (y is None) and (x is None or abs(x - y) <= 1e-11 * (1 + abs(y))), "%s: segment %d (%s) point %d is %s, not %s", what, i, w[0], j, x, y)


def perform(path, k, groups, rel, form):
    kw = {} if rel is None else {"relative": rel}
    args = [shaped(v, form) for g in groups for v in g]
    return getattr(path, k)(*args, **kw), args


histories = st.tuples(st.one_of(st.just(""), path_text(max_commands=3)), anypair, st.lists(st.tuples(call(), st.sampled_from(FORMS)).map(list), min_size=1, max_size=6)).map(list)


@sub("C29", "drawn", histories, quick=1500, thorough=120000, weight=3)
def drawn(case):
    from svgio import Path, Point

    text, first, calls = case
    p = Path(text) if text else Path()
    if not text:
        for name in ("current_point", "z_point", "first_point", "smooth_point"):
            require(getattr(p, name) is None, "%s of an empty path is %s", name, getattr(p, name))
        calls = [[["move", [[first]], None], "tuple"]] + calls
    segs = [tuple(defining(s)) for s in p]
    flags = parsed_letters(text)
    busy = False
    for (k, groups, rel), form in calls:
        before = [snap(s) for s in p]
        model(segs, k, groups, rel)
        r, args = perform(p, k, groups, rel, form)
        what = "%s(%s%s)" % (k, ", ".join(map(repr, args)), "" if rel is None else ", relative=%s" % rel)
        require(r is p, "%s returns %r, not the path", what, r)
        require([snap(s) for s in p][:len(before)] == before, "%s changed what was drawn before", what)
        agree(p, segs, "after " + what)
        for name in goes_on(p, segs, "after " + what):
            agree(p, segs, "after changing what %s gave" % name)
        n = len(groups) or 1
        letter = LETTER[k]
        flags += [(letter if i == 0 or k != "move" else "L").lower() if rel else (letter if i == 0 or k != "move" else "L") for i in range(n)]
        # the points given stay the caller's own
        after = snapshot(p)
        for v in args:
            if isinstance(v, Point):
                v.x += 1000
            elif isinstance(v, list):
                v[0] += 1000
        require(snapshot(p) == after, "changing a point given to %s changes the path", what)
        busy = busy or len(groups) > 1 or rel or k.startswith("smooth") or "z" in [v for g in groups for v in g if isinstance(v, str)]
    # every command is written in the form asked for
    text = p.d()
    compare_text(text, expected(list(p)), "d()")
    ls = [ch for ch in text if ch.isalpha() and ch not in "eE"]
    require(len(ls) == len(flags), "%d commands for %d segments in %r", len(ls), len(flags), text)
    for i, (ch, f) in enumerate(zip(ls, flags)):
        require(ch.islower() == f.islower(), "segment %d was drawn in the form %r but is written %r in %r", i, f, ch, text)
        require(not (ch in "sStT") or f in "sStT", "segment %d was drawn as %r but is written %r in %r", i, f, ch, text)
    return len(calls) > 1 and bool(busy)


between = st.fixed_dictionaries({
    "init": path_commands(min_size=1, max_size=6, letters="MMLLZQCZ"),
    "ops": st.lists(st.one_of(
        st.tuples(call(tuple(k for k in LETTER if k != "arc")), st.sampled_from(FORMS)).map(list),
        st.tuples(st.tuples(st.just("pivot"), invertible()).map(list), st.sampled_from(["", "touch"])).map(list),
        st.tuples(st.one_of(op(), extra), st.sampled_from(["", "touch"])).map(list)), min_size=3, max_size=10),
})


def pivot(p, o):
    """The path transformed with the point it is at staying where it is, nearly."""
    from svgio import Matrix

    if not len(p) or defining(p[-1])[-1] is None or not p.transform.is_identity():
        raise Skip
    p.smooth_point
    z, m = defining(p[-1])[-1], o[1]
    w = mapped(m, z)
    p *= Matrix(m[0], m[1], m[2], m[3], m[4] + z.real - w.real, m[5] + z.imag - w.imag)
    return p.reify()


@sub("C29", "between edits", between, quick=700, thorough=30000, weight=2)
def between_edits(case):
    """A command goes on from what the path is now, whatever was done to it in between."""
    from svgio import Path

    p = Path(text_of(case["init"]))
    drawn = edited = 0
    for o, how in case["ops"]:
        if isinstance(o[1] if len(o) > 1 else None, list) and len(o) == 3 and o[0] in LETTER and how in FORMS:
            k, groups, rel = o
            if not p.transform.is_identity():
                p.reify()
            if not len(p):
                p.move((1, 2))
            if not complete(model_of(p)):
                continue
            segs = [tuple(defining(s)) for s in p]
            before = [snap(s) for s in p]
            model(segs, k, groups, rel)
            r, args = perform(p, k, groups, rel, how)
            what = "%s(%s%s)" % (k, ", ".join(map(repr, args)), "" if rel is None else ", relative=%s" % rel)
            require([snap(s) for s in p][:len(before)] == before, "%s changed what was there before", what)
            agree_ends(p, segs, len(before), "after " + what)
            drawn += edited > 0
        else:
            try:
                p = pivot(p, o) if o[0] == "pivot" else edit(p, o)
            except Skip:
                continue
            if len(p) and defining(p[0])[0] != "M" and p[0].start is None or any(defining(s)[0] == "A" and not _sound(s) for s in p):
                break
            if how and len(p) and defining(p[0])[0] == "M" and complete(model_of(p)):
                touch(p)
                list(goes_on(p, [tuple(defining(s)) for s in p], "after %r" % (o,)))
            edited += 1
    return drawn > 0


@sub("C29", "one by one", st.tuples(anypair, st.lists(st.tuples(call(), st.sampled_from(FORMS)).map(list), min_size=1, max_size=5)).map(list), quick=500, thorough=30000)
def one_by_one(case):
    """Several coordinates in one call are the call repeated; calls chain."""
    from svgio import Path

    first, calls = case
    a, b = Path(), Path()
    a.move(tuple(first))
    b.move(tuple(first))
    for (k, groups, rel), form in calls:
        perform(a, k, groups, rel, form)
        if k == "closed":
            perform(b, k, groups, rel, form)
        for i, g in enumerate(groups):
            perform(b, "line" if k == "move" and i else k, [g], rel, form)
    require(snapshot(a) == snapshot(b), "drawn at once %s, one by one %s", a, b)
    require(a.d() == b.d(), "drawn at once %r, one by one %r", a.d(), b.d())
    require(a == b, "drawn at once %s does not equal one by one %s", a, b)
    return any(len(g) > 1 for (k, g, r), f in calls)


@sub("C29", "as path data", st.tuples(anypair, st.lists(call(), min_size=1, max_size=6)).map(list), quick=700, thorough=40000)
def as_data(case):
    """The same commands as path data."""
    from svgio import Path

    first, calls = case
    calls = [[k, [[([0, 0] if v in ("z", "Z") else v) if isinstance(v, (list, str)) else v for v in g] for g in groups], rel] for k, groups, rel in calls]
    a = Path()
    a.move(tuple(first))
    parts = ["M%r,%r" % tuple(first)]
    for k, groups, rel in calls:
        perform(a, k, groups, rel if k in ("vertical", "horizontal") else None, "tuple")
        letter = {"vertical": "V", "horizontal": "H"}.get(k, LETTER[k])
        nums = []
        for g in groups:
            for v in g:
                nums += v if isinstance(v, list) else [int(v) if isinstance(v, bool) else v]
        if rel and k in ("vertical", "horizontal"):
            letter = letter.lower()
        parts.append(letter + " ".join(repr(v) for v in nums))
    text = " ".join(parts)
    b = Path(text)
    require(len(a) == len(b), "drawn %s, read from %r %s", a, text, b)
    for i, (s, w) in enumerate(zip(a, b)):
        x, y = geometry(s), geometry(w)
        size = max([1.0] + [abs(v) for v in y[1:] if v is not None])
        require(same_geometry(x, y, 1e-9 * size), "segment %d is drawn as %s, read from %r as %s", i, x, text, y)
    require(a == b, "drawn %s does not equal %r", a, text)
    return len(calls) > 1


@sub("C29", "then transformed", st.tuples(anypair, st.lists(call(tuple(k for k in LETTER if k != "arc")), min_size=1, max_size=6), invertible()).map(list), quick=400, thorough=20000)
def transformed(case):
    """No two segments drawn share a point: transforming them moves each once."""
    from svgio import Matrix, Path

    first, calls, m = case
    p = Path()
    p.move(tuple(first))
    for k, groups, rel in calls:
        perform(p, k, groups, rel, "Point")
    before = [defining(s) for s in p]
    for s in p:
        s *= Matrix(*m)
    for i, (d, s) in enumerate(zip(before, p)):
        got = defining(s)
        for x, y in zip(d[1:], got[1:]):
            if x is None:
                require(y is None, "a point appeared in segment %d: %s", i, y)
                continue
            w = mapped(m, x)
            require(abs(w - y) <= 1e-9 * (1 + max(abs(v) for v in m) * (1 + abs(x))), "segment %d of %s: %s went to %s, its image is %s", i, p, x, y, w)
    return len(calls) > 1


@sub("C29", "drawn at length", st.tuples(st.one_of(st.just(""), long_text(most=5)), anypair, st.lists(st.tuples(call(), st.sampled_from(FORMS)).map(list), min_size=5, max_size=20)).map(list), quick=100, thorough=6000)
def drawn_at_length(case):
    return drawn(case)


@sub("C29", "many at once", st.tuples(anypair, st.lists(st.tuples(call(times=(4, 5, 7, 12)), st.sampled_from(FORMS)).map(list), min_size=1, max_size=3)).map(list), quick=100, thorough=6000)
def many_at_once(case):
    return one_by_one(case)


@sub("C29", "long calls", st.tuples(st.one_of(st.just("M1,2"), path_text(max_commands=3)), st.sampled_from(sorted(SIZE)), st.one_of(st.integers(2, 1500), st.integers(2500, 4000)), st.sampled_from([None, False, True]), st.sampled_from(FORMS), st.integers(0, 2**32)).map(list), quick=40, thorough=1500)
def long_calls(case):
    """As many coordinates in one call as one likes."""
    from svgio import Path

    text, k, n, rel, form, seed = case
    p = Path(text or "M1,2")
    segs = [tuple(defining(s)) for s in p]
    r = random.Random(seed)
    number = lambda: r.randint(-80, 80) / 8  # noqa
    point = lambda: r.choice("zZ") if r.randint(0, 99) == 0 else [number(), number()]  # noqa
    groups = []
    for _ in range(n):
        if k in ("vertical", "horizontal"):
            groups.append([number()])
        elif k == "arc":
            groups.append([abs(number()) + 1, abs(number()) + 1, number(), r.random() < 0.5, r.random() < 0.5, point()])
        else:
            groups.append([point() for _ in range(SIZE[k])])
    model(segs, k, groups, rel)
    perform(p, k, groups, rel, form)
    agree(p, segs, "after %s with %d coordinates" % (k, n))
    q = Path(text or "M1,2")
    for i, g in enumerate(groups):
        perform(q, "line" if k == "move" and i else k, [g], rel, form)
    require(snapshot(p) == snapshot(q), "one call of %s with %d coordinates is not the call repeated", k, n)
    return n > 10
