"""C11: bounding boxes contain the curve and are tight."""
import math

from hypothesis import strategies as st

from ..big import STYLES, big_commands
from ..alive import changed_segments, changing
from ..common import arcs, arc_tolerance, c, drawn, kind, make, magnified, nudges, path_commands, path_text, powers, pt, ref
from ..core import require, rule, sub, without
from ..histories import subpath_ranges
from ..oracle.geom import Bez, Ell
from .c09_evaluation import build, ellipses

rule("C11", "cases are segments or paths; non-trivial: the box is determined by an interior extremum of a curve (it is larger "
     "than the box of the ends), or, for paths, at least two drawn segments")


def near(got, want, tol, what):
    require(got is not None and len(got) == 4, "%s: the bounding box is %r", what, got)
    got = [float(v) for v in got]
    require(all(math.isfinite(v) for v in got), "%s: the bounding box is %r", what, got)
    require(all(abs(a - b) <= tol for a, b in zip(got, want)), "%s: the bounding box is %s, that of the curve is %s (tolerance %g)", what, got, want, tol)


def ends_box(a, b):
    return min(a.real, b.real), min(a.imag, b.imag), max(a.real, b.real), max(a.imag, b.imag)


@sub("C11", "segments", st.one_of(drawn, drawn, arcs(), arcs(zero_radius=True, same_ends=True)), quick=3000, thorough=200000, weight=2)
def segments(spec):
    s = make(spec)
    r = ref(spec)
    if r is None:
        r = Bez([c(spec[1])] * 2)
    tol = 1e-10 * max(r.scale(), 1e-12)
    if spec[0] == "A":
        tol += 4 * arc_tolerance(c(spec[1]), *spec[2:7], c(spec[7]))
        if tol > 1e-2 * (1 + r.size()):
            return False
    want = r.bbox()
    near(s.bbox(), want, tol, spec[0])
    with without("numpy"):
        near(s.bbox(), want, tol, spec[0] + " without numpy")
    s.reverse()
    near(s.bbox(), want, tol, "reversed " + spec[0])
    e = ends_box(c(spec[1]), c(spec[-1]))
    return any(abs(x - y) > tol for x, y in zip(e, want))


@sub("C11", "arcs", st.tuples(ellipses(), st.booleans()).map(list), quick=3000, thorough=200000, weight=2)
def center_arcs(case):
    """Arcs in center form, whole turns included."""
    e, whole = case
    if whole:
        e = e[:5] + [math.copysign(2 * math.pi, e[5])]
    arc, el = build(e)
    asp = max(el.rx, el.ry) / min(el.rx, el.ry)
    tol = 1e-9 * (abs(el.c) + el.rx + el.ry) * asp
    near(arc.bbox(), el.bbox(), tol, "arc")
    x = ends_box(el.start, el.end)
    return any(abs(a - b) > tol for a, b in zip(x, el.bbox()))


@sub("C11", "long and thin", st.tuples(ellipses(), st.integers(2, 6), st.integers(-2, 2), nudges, st.booleans()).map(list), quick=500, thorough=20000)
def long_and_thin(case):
    """Arcs of long and thin ellipses which are all but level or upright."""
    (ctr, rx, ry, _, t0, sweep), power, quarters, nudge, upright = case
    thin = rx / 10.0**power
    arc, el = build([ctr, thin if upright else rx, rx if upright else thin, quarters * 90 + nudge, t0, sweep])
    near(arc.bbox(), el.bbox(), 1e-9 * (abs(el.c) + rx), "a thin arc")
    return True


def union(boxes):
    boxes = [b for b in boxes if b is not None]
    if not boxes:
        return None
    return (min(b[0] for b in boxes), min(b[1] for b in boxes), max(b[2] for b in boxes), max(b[3] for b in boxes))


def box_of(seg):
    """The true box of a segment of a parsed path."""
    k = kind(seg)
    if k == "M":
        return None
    if k == "A":
        if not seg.sweep:
            return ends_box(pt(seg.start), pt(seg.end))
        ctr, px, py = pt(seg.center), pt(seg.prx), pt(seg.pry)
        u, v = px - ctr, py - ctr
        phi = math.atan2(u.imag, u.real)
        w = (pt(seg.start) - ctr) / complex(math.cos(phi), math.sin(phi))
        t0 = math.atan2(w.imag / abs(v), w.real / abs(u))
        b = Ell(ctr, abs(u), abs(v), phi, t0, float(seg.sweep)).bbox()
        return union([b, ends_box(pt(seg.start), pt(seg.end))])
    pts = {"Q": lambda: [seg.start, seg.control, seg.end], "C": lambda: [seg.start, seg.control1, seg.control2, seg.end]}.get(
        k, lambda: [seg.start, seg.end])()
    return Bez([pt(p) for p in pts]).bbox()


paths = st.one_of(
    path_commands(min_size=1, max_size=9),
    path_commands(min_size=2, max_size=7, letters="MMMLZ"),
    path_commands(min_size=1, max_size=3, letters="M"),
    path_commands(min_size=3, max_size=9, letters="MLQCZ"),
)


@sub("C11", "paths", paths, quick=1500, thorough=60000, weight=2)
def whole_paths(commands):
    import svgio.nodes as nodes
    from svgio import Path

    text = path_text(commands)
    p = Path(text)
    segs = list(p)
    size = 1.0
    for s in segs:
        b = box_of(s)
        if kind(s) == "A":
            size = max(size, abs(pt(s.center)), float(s.rx), float(s.ry))
        size = max([size] + [abs(v) for v in b or ()])
    # the ends fix the center of an arc of half a turn only to the root of the rounding
    tol = (1e-6 if any(kind(s) == "A" for s in segs) else 1e-9) * size
    boxes = []
    for i, (a, b) in enumerate(subpath_ranges([kind(s) for s in segs])):
        want = union([box_of(s) for s in segs[a:b]])
        boxes.append(want)
        got = p.subpath(i).bbox()
        if want is None:
            require(got is None, "subpath %d draws nothing and has the bounding box %r", i, got)
        else:
            near(got, want, tol, "subpath %d" % i)
    total = union(boxes)
    for what, node in (("element", nodes.Path(text)), ("element with d=", nodes.Path(d=text))):
        for flag in (True, False):
            got = node.bbox(transformed=flag)
            if total is None:
                require(got is None, "the %s draws nothing and has the bounding box %r", what, got)
            else:
                near(got, total, tol, what)
    return sum(1 for s in segs if kind(s) != "M") >= 2


@sub("C11", "long paths", big_commands(12, 80, styles=[s for s in STYLES if s != "tiny"], zero_radius=True), quick=100, thorough=8000)
def long_paths(commands):
    return whole_paths(commands)


@sub("C11", "magnitudes", st.tuples(st.one_of(drawn, arcs()), powers).map(magnified), quick=800, thorough=40000)
def magnitudes(spec):
    return segments(spec)


@sub("C11", "after changes", changed_segments, quick=500, thorough=30000)
def after_changes(case):
    """The box is that of the curve as it is now, whatever it was when last asked for."""
    return changing(case, [("bbox()", lambda s: s.bbox())])
