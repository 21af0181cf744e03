"""C17: a viewbox maps to its viewport as preserveAspectRatio says."""
import re
from fractions import Fraction as F
from types import SimpleNamespace

from hypothesis import strategies as st

from ..common import g, num, pos
from ..core import require, rule, sub
from ..spoil import Twice
from .c15_matrices import coefficients

rule("C17", "cases are a viewport, a viewBox and a preserveAspectRatio; non-trivial: the two differ in aspect ratio (so that "
     "alignment and meet/slice matter) and the transform is not the identity")

ALIGN = ["none"] + ["x%sY%s" % (a, b) for a in ("Min", "Mid", "Max") for b in ("Min", "Mid", "Max")]


@st.composite
def boxes(draw):
    e = [draw(num), draw(num), draw(pos), draw(pos)]
    mode = draw(st.integers(0, 5))
    vb = [draw(num), draw(num), draw(pos), draw(pos)]
    if mode == 0:
        vb[2:] = e[2:]
    elif mode == 1:
        vb[2], vb[3] = e[2] * 2, e[3] / 2
    elif mode == 2:
        vb[:2] = [0, 0]
    elif mode == 3:
        e[:2] = [0, 0]
    elif mode == 4:
        vb[2] = vb[3]
    return [e, vb]


@st.composite
def aspects(draw):
    """[text or None, align, meet/slice]"""
    if draw(st.integers(0, 7)) == 0:
        return [draw(st.sampled_from([None, None, ""])), "xMidYMid", "meet"]
    align = draw(st.sampled_from(ALIGN))
    ms = draw(st.sampled_from(["", "meet", "slice", "slice"]))
    ws = st.sampled_from(["", "", "", "", " ", "\n"])
    text = draw(ws) + align + (draw(st.sampled_from([" ", " ", " ", "  ", "\t"])) + ms if ms else "") + draw(ws)
    return [text, align, ms or "meet"]


def wanted(e, vb, align, ms):
    """(sx, sy, tx, ty) of SVG 2, 8.2."""
    ex, ey, ew, eh = (F(x) for x in e)
    vx, vy, vw, vh = (F(x) for x in vb)
    sx, sy = ew / vw, eh / vh
    if align != "none":
        sx = sy = min(sx, sy) if ms == "meet" else max(sx, sy)
    tx, ty = ex - vx * sx, ey - vy * sy
    if align != "none":
        tx += {"Min": 0, "Mid": F(1, 2), "Max": 1}[align[1:4]] * (ew - vw * sx)
        ty += {"Min": 0, "Mid": F(1, 2), "Max": 1}[align[5:8]] * (eh - vh * sy)
    return sx, sy, tx, ty


NUMBER = r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?"
LIST = re.compile(r"\s*(?:(?:matrix|translate|scale)\s*\(\s*%s(?:\s*[\s,]\s*%s)*\s*\)[\s,]*)*" % (NUMBER, NUMBER))
FOUR = re.compile(r"\s*%s(?:\s*[\s,]\s*%s){3}\s*" % (NUMBER, NUMBER))


def judge(text, e, vb, align, ms, what):
    from svgio import Matrix
    Matrix = Twice(Matrix)

    require(isinstance(text, str), "%s gives %r", what, text)
    require(LIST.fullmatch(text), "%s gives %r, which is no transform list", what, text)
    m = coefficients(Matrix(text), what)
    sx, sy, tx, ty = wanted(e, vb, align, ms)
    big = float(max(abs(F(x)) for x in e + vb) * max(sx, sy, 1))
    tol = 2e-12 + 1e-13 * big
    for name, got, want in (("horizontal scale", m[0], sx), ("vertical scale", m[3], sy), ("horizontal shift", m[4], tx), ("vertical shift", m[5], ty)):
        require(abs(got - float(want)) <= tol, "%s is %r: %s %r, not %r", what, text, name, got, float(want))
    require(m[1] == 0 and m[2] == 0, "%s rotates: %r", what, text)
    if text == "":
        require(abs(sx - 1) < 1e-9 and abs(sy - 1) < 1e-9 and abs(tx) < 1e-9 and abs(ty) < 1e-9, "%s is nothing", what)
    return m


def relations(m, e, vb, align, ms, what):
    """Said once more without formulas: where the viewBox lands."""
    x0, y0 = m[0] * vb[0] + m[4], m[3] * vb[1] + m[5]
    x1, y1 = m[0] * (vb[0] + vb[2]) + m[4], m[3] * (vb[1] + vb[3]) + m[5]
    E = [e[0], e[1], e[0] + e[2], e[1] + e[3]]
    tol = 1e-9 * (1 + max(abs(v) for v in E + [x0, y0, x1, y1]) + max(abs(v) for v in vb) * max(m[0], m[3], 1))
    if align == "none":
        ok = max(abs(x0 - E[0]), abs(y0 - E[1]), abs(x1 - E[2]), abs(y1 - E[3])) <= tol
        require(ok, "%s: the viewBox lands on %s, not on %s", what, [x0, y0, x1, y1], E)
        return
    require(abs(m[0] - m[3]) <= 1e-11 * max(1, m[0]), "%s: not uniform: %r, %r", what, m[0], m[3])
    if ms == "meet":
        require(x0 >= E[0] - tol and y0 >= E[1] - tol and x1 <= E[2] + tol and y1 <= E[3] + tol, "%s: meet leaves the viewport: %s in %s", what, [x0, y0, x1, y1], E)
    else:
        require(x0 <= E[0] + tol and y0 <= E[1] + tol and x1 >= E[2] - tol and y1 >= E[3] - tol, "%s: slice does not cover: %s on %s", what, [x0, y0, x1, y1], E)
    gap = (abs(x1 - x0 - e[2]), abs(y1 - y0 - e[3]))
    require(min(gap) <= tol, "%s: touches neither pair of sides", what)
    for name, lo, hi, a, b in ((align[1:4], x0, x1, E[0], E[2]), (align[5:8], y0, y1, E[1], E[3])):
        d = {"Min": lo - a, "Max": hi - b, "Mid": (lo + hi - a - b) / 2}[name]
        require(abs(d) <= tol, "%s: not aligned %s: [%r, %r] in [%r, %r]", what, name, lo, hi, a, b)


@sub("C17", "equivalent transform", st.tuples(boxes(), aspects()).map(list), quick=5000, thorough=300000, weight=2)
def equivalent(case):
    from svgio import Viewbox
    Viewbox = Twice(Viewbox)

    (e, vb), (aspect, align, ms) = case
    what = "viewport %s, viewBox %s, %r" % (e, vb, aspect)
    m = judge(Viewbox.viewbox_transform(*(e + vb), aspect), e, vb, align, ms, what)
    relations(m, e, vb, align, ms, what)
    return abs(F(e[2]) / F(vb[2]) - F(e[3]) / F(vb[3])) > F(1, 1000)


@sub("C17", "viewbox objects", st.tuples(boxes(), aspects(), st.sampled_from([" ", " ", ",", ", ", "  ", "\n", " , "]), st.integers(0, 5)).map(list), quick=3000, thorough=150000)
def objects(case):
    from svgio import Viewbox
    Viewbox = Twice(Viewbox)

    (e, vb), (aspect, align, ms), sep, form = case
    text = sep.join(g(x) for x in vb)
    el = SimpleNamespace(x=e[0], y=e[1], width=e[2], height=e[3])
    if form == 0:
        v = Viewbox(text, aspect)
    elif form == 1:
        v = Viewbox(text, preserve_aspect_ratio=aspect)
    elif form == 2:
        d = {"viewBox": text, "other": "1"}
        if aspect is not None:
            d["preserveAspectRatio"] = aspect
        v = Viewbox(d)
    elif form == 3:
        v = Viewbox({"viewBox": text}, aspect)
    elif form == 4:
        v = Viewbox(Viewbox(text, aspect))
    else:
        v = Viewbox({})
        v.set_viewbox(text)
        v.preserve_aspect_ratio = aspect
    require((v.x, v.y, v.width, v.height) == tuple(float(x) for x in vb), "viewBox %r reads as %s", text, (v.x, v.y, v.width, v.height))
    require(v.preserve_aspect_ratio == aspect, "preserveAspectRatio %r is kept as %r", aspect, v.preserve_aspect_ratio)
    what = "viewport %s, viewBox %r, %r" % (e, text, aspect)
    m = judge(v.transform(el), e, vb, align, ms, what)
    relations(m, e, vb, align, ms, what)
    require((el.x, el.y, el.width, el.height) == tuple(e), "transform changed the element")
    # as they are now, whatever they were
    for name, value in (("width", e[3] * 2), ("x", e[1] + 1), ("height", e[2] + 1), ("y", -e[0])):
        setattr(el, name, value)
        judge(v.transform(el), [el.x, el.y, el.width, el.height], vb, align, ms, what + ", the viewport's %s then set to %r" % (name, value))
    other = [vb[1], vb[0] - 1, vb[3] * 3, vb[2]]
    w = Viewbox(v)
    w.x, w.y, w.width, w.height = other
    now = [el.x, el.y, el.width, el.height]
    judge(w.transform(el), now, other, align, ms, what + ", then set to %s" % other)
    w.preserve_aspect_ratio = "xMinYMax slice"
    judge(w.transform(el), now, other, "xMinYMax", "slice", what + ", then set to %s and aligned anew" % other)
    w.set_viewbox(" ".join(g(x) for x in e))
    judge(w.transform(el), now, e, "xMinYMax", "slice", what + ", then given another text and aligned anew")
    judge(v.transform(el), now, vb, align, ms, what + ", others having changed")
    # a viewbox is itself a viewport
    port = Viewbox(" ".join(g(x) for x in e))
    judge(v.transform(port), e, vb, align, ms, what + " (viewport from text)")
    require(FOUR.fullmatch(str(v)), "the text of viewBox %r is %r, not four numbers", text, str(v))
    w = Viewbox(str(v))
    for name in ("x", "y", "width", "height"):
        require(abs(getattr(w, name) - getattr(v, name)) <= 6e-13 + 1e-15 * abs(getattr(v, name)), "%s of %r read back from %r is %r", name, text, str(v), getattr(w, name))
    return abs(F(e[2]) / F(vb[2]) - F(e[3]) / F(vb[3])) > F(1, 1000)


@sub("C17", "nothing without a viewbox or viewport", st.tuples(boxes(), aspects(), st.integers(1, 255)).map(list), quick=800, thorough=20000)
def missing(case):
    from svgio import Matrix, Viewbox
    Matrix = Twice(Matrix)
    Viewbox = Twice(Viewbox)

    (e, vb), (aspect, align, ms), mask = case
    vals = [None if mask >> i & 1 else x for i, x in enumerate(e + vb)]
    t = Viewbox.viewbox_transform(*vals, aspect)
    require(t == "", "with %s missing the transform is %r", vals, t)
    el = SimpleNamespace(x=e[0], y=e[1], width=e[2], height=e[3])
    for v in (Viewbox(None, aspect), Viewbox({}, aspect), Viewbox("", aspect), Viewbox({"preserveAspectRatio": "none"}), Viewbox("none", aspect)):
        require(v.transform(el) == "", "without a viewBox the transform is %r", v.transform(el))
    el2 = SimpleNamespace(x=vals[0], y=vals[1], width=vals[2], height=vals[3])
    if mask & 15:
        require(Viewbox(" ".join(g(x) for x in vb), aspect).transform(el2) == "", "without a viewport there is a transform")
    # equal boxes need none
    require(Matrix(Viewbox.viewbox_transform(*(e + e), aspect)).is_identity(), "mapping %s on itself is %r", e, Viewbox.viewbox_transform(*(e + e), aspect))
    return True
