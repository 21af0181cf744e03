"""C04: connectivity of a path over edit histories, against the linking model of vf/histories.py."""
from hypothesis import strategies as st

from ..common import compare_arc, connected, defining, path_commands, path_text
from ..core import require, rule, sub
from ..histories import Elem, Skip, apply_model, apply_real, draw_op, history, link, long_history, run, seg_spec, elem_of_spec, make_seg, complete, tolerance

rule("C04", "cases are histories of edits on a path (initial data plus up to 8 operations); "
     "non-trivial: at least two edits took effect")


def judge(p, model, before, o):
    what = "after %s" % (o[0] if o else "parsing")
    segs = list(p)
    connected(segs, what)
    require(len(segs) == len(model), "%s: %d segments instead of %d", what, len(segs), len(model))
    tol = tolerance(model)
    for i, (s, e) in enumerate(zip(segs, model)):
        d = defining(s)
        require(d[0] == e.k, "%s: segment %d is a %s instead of a %s", what, i, d[0], e.k)
        want = (e.start,) + e.mid + (e.end,)
        for j, (x, y) in enumerate(zip(d[1:], want)):
            require((x is None) == (y is None) and (x is None or abs(x - y) <= tol),
                    "%s: segment %d (%s) has points %s instead of %s", what, i, e.k, d[1:], want)
        if e.k == "A" and e.arc is not None and (e.start, e.end) == (e.arc[0], e.arc[2]) and e.start != e.end:
            prm = e.arc[1]
            compare_arc(s, e.start, prm[0], prm[1], prm[2], prm[3], prm[4], e.end, "%s: arc %d" % (what, i))


@sub("C04", "history", history, quick=1200, thorough=100000, weight=3)
def check_history(case):
    return run(case, judge) >= 2


@sub("C04", "long history", long_history, quick=120, thorough=10000)
def check_long_history(case):
    return check_history(case)


@sub("C04", "drawing", st.fixed_dictionaries({"init": path_commands(min_size=1, max_size=3), "ops": st.lists(draw_op(), min_size=1, max_size=8)}),
     quick=700, thorough=50000)
def drawing(case):
    return run(case, judge) >= 2


@st.composite
def loose(draw):
    """Segments of which some leave their end open to where the next one starts."""
    specs = draw(st.lists(seg_spec(), min_size=1, max_size=7))
    for a, b in zip(specs, specs[1:]):
        if a[0] in "MLQC" and b[1] is not None and draw(st.integers(0, 3)) == 0:
            a[-1] = None
    return specs


@sub("C04", "from_segments", st.tuples(loose(), st.booleans()).map(list), quick=500, thorough=30000)
def from_segments(case):
    """A path made of a list or tuple of loose segments is connected."""
    from svgio import Path

    specs, as_tuple = case
    model = [elem_of_spec(s) for s in specs]
    if model[0].end is None:
        return False  # a close of unknown place at the front
    link(model)
    if not complete(model):
        return False
    segs = [make_seg(s) for s in specs]
    p = Path(tuple(segs) if as_tuple else segs)
    judge(p, model, None, None)
    moved(p, model)
    return len(specs) > 2


def moved(p, model):
    """Moved as a whole every point moves once, however the segments came together."""
    from svgio import Matrix

    if any(e.k == "A" for e in model):
        return
    p *= Matrix(1, 0, 0, 1, 16, -4)
    p.reify()
    segs = list(p)
    connected(segs, "after moving")
    tol = tolerance(model) + 1e-9
    for i, (s, e) in enumerate(zip(segs, model)):
        for x, y in zip(defining(s)[1:], (e.start,) + e.mid + (e.end,)):
            require((x is None) == (y is None) and (x is None or abs(x - y - (16 - 4j)) <= tol), "moved by (16, -4): segment %d (%s) has %s for %s", i, e.k, x, y)


@sub("C04", "validated", loose(), quick=300, thorough=10000)
def validated(specs):
    """Loose segments given one by one as arguments are connected by validate_connections()."""
    from svgio import Path

    model = [elem_of_spec(s) for s in specs]
    if model[0].end is None:
        return False  # a close of unknown place at the front
    link(model)
    if not complete(model):
        return False
    p = Path(*[make_seg(s) for s in specs])
    p.validate_connections()
    judge(p, model, None, None)
    moved(p, model)
    return len(specs) > 2


@sub("C04", "one by one", st.tuples(loose(), st.lists(st.integers(0, 3), min_size=7, max_size=7)).map(list), quick=300, thorough=10000)
def one_by_one(case):
    """Loose segments put into a path one after another, each way there is."""
    from svgio import Path

    specs, ways = case
    specs = [["M", None, [0, 0]]] + [s for s in specs if s[0] != "A"]
    if any(a[-1] is None and (a[0] != "Z" and b[1] is None) for a, b in zip(specs, specs[1:])) or specs[-1][-1] is None:
        return False  # an end which nothing tells
    p = Path()
    for s, way in zip(specs, ways + [0]):
        n = len(p)
        s = make_seg(s)
        if way == 0:
            p.append(s)
        elif way == 1:
            p += s
        elif way == 2:
            p.insert(n, s)
        else:
            p.extend([s])
    segs = list(p)
    if any(x.end is None for x in segs):
        return False
    connected(segs, "put together one by one")
    model = [Elem(d[0], d[1], d[2:-1], d[-1]) for d in map(defining, segs)]
    moved(p, model)
    return len(specs) > 2
