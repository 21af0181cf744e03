"""C30: elements give the geometry and data their attributes encode."""
import base64
import io

from hypothesis import strategies as st

from ..common import c, num, pt, snapshot
from ..core import require, rule, sub
from ..oracle.svgpath import read
from ..textgen import number_token, path_text
from ..trees import XLINK
from .c01_path_grammar import compare_segments

rule("C30", "cases are single elements constructed, built or loaded, under ancestors with attributes of the same names; "
     "non-trivial: the element has at least two of the attributes, path data of two segments, or data of one byte")

POSITIONAL = {
    "Rect": ["x", "y", "width", "height", "rx", "ry"], "Ellipse": ["cx", "cy", "rx", "ry"], "Circle": ["cx", "cy", "r"],
    "Line": ["x1", "y1", "x2", "y2"], "Polyline": ["points"], "Polygon": ["points"], "Path": ["d"],
}
DEFAULTS = {("Rect", "x"): 0, ("Rect", "y"): 0, ("Rect", "width"): 1, ("Rect", "height"): 1}
ATTR = st.one_of(st.integers(-99, 99), num, number_token(), st.sampled_from(["5mm", "10%", "0", "auto", ""]))


def escaped(v):
    from xml.sax.saxutils import quoteattr

    return quoteattr(str(v))


def elements(name, args, attrs, outer):
    """(how, element, document) made in every way, below ancestors with attributes of their own."""
    from svgio import nodes

    cls = getattr(nodes, name)
    tag = name.lower()
    named = dict(zip(POSITIONAL.get(name, []), args))
    full = dict(named)
    full.update(attrs)
    yield "constructed by position", cls(*args, **attrs), full
    yield "constructed by name", cls(**full), full
    doc = nodes.Document()
    g = doc.svg(**outer).g(**outer)
    yield "built by position", getattr(g, tag)(*args, **attrs), full
    yield "built by name", getattr(g, tag)(**full), full
    node = cls(*args, **attrs)
    doc2 = nodes.Document()
    doc2.add(node)
    yield "added", node, full
    text = "<svg xmlns='http://www.w3.org/2000/svg' xmlns:xlink='%s'%s><g%s><%s%s/></g></svg>" % (
        XLINK, attributes(outer), attributes(outer), tag, attributes(full))
    yield "loaded", nodes.Document(io.StringIO(text))[0][0][0], {k: str(v) for k, v in full.items()}


def attributes(d):
    return "".join(" %s=%s" % ("xlink:href" if k == "{%s}href" % XLINK else k, escaped(v)) for k, v in d.items())


def plain_number(v):
    try:
        return float(v)
    except ValueError:
        return None


shape = st.sampled_from(sorted(POSITIONAL)).flatmap(lambda n: st.tuples(
    st.just(n), st.lists(ATTR, max_size=len(POSITIONAL[n])), st.dictionaries(st.sampled_from(["stroke", "fill", "id", "x"]), st.sampled_from(["red", "a", "7"]), max_size=2).map(lambda d: [list(i) for i in d.items()]),
    st.dictionaries(st.sampled_from(POSITIONAL[n]), ATTR, max_size=2).map(lambda d: [list(i) for i in d.items()])).map(list))


@sub("C30", "shapes", shape, quick=700, thorough=40000)
def shapes(case):
    """Arguments by position are the attributes in the order documented; positions and centers are those named."""
    name, args, attrs, outer = case
    attrs = {k: v for k, v in attrs if k not in POSITIONAL[name]}
    for how, e, want in elements(name, args, attrs, dict(outer)):
        require(dict(e.attributes) == want, "%s %s with %r has the attributes %r, not %r", how, name, args, e.attributes, want)
        require(type(e).__name__ == name, "%s is a %s", name, type(e).__name__)
        for k in want:
            if k in POSITIONAL[name]:
                require(getattr(e, k) == want[k], "%s %s: %s is %r, not %r", how, name, k, getattr(e, k), want[k])
        for k in POSITIONAL[name]:
            if k not in want and k not in dict(outer):
                v, default = getattr(e, k), DEFAULTS.get((name, k))
                require(type(v) is type(default) and v == default, "%s %s: %s is %r, though it is not given", how, name, k, v)
        for prop, (kx, ky) in {"Rect": {"position": ("x", "y")}, "Ellipse": {"center": ("cx", "cy")}, "Circle": {"center": ("cx", "cy")}}.get(name, {}).items():
            if kx in want and ky in want:
                x, y = plain_number(want[kx]), plain_number(want[ky])
                if x is not None and y is not None:
                    p = pt(getattr(e, prop), prop)
                    require(abs(p - complex(x, y)) <= 1e-12 * (1 + abs(p)), "%s %s: %s is %s, not (%s, %s)", how, name, prop, p, x, y)
    return len(args) + len(attrs) > 1


@sub("C30", "path elements", st.tuples(path_text(max_commands=6), path_text(max_commands=2), st.booleans()).map(list), quick=500, thorough=30000)
def path_elements(case):
    """The segments of a path element are those of its data, each time anew."""
    from svgio import Path

    text, other, transformed = [v.replace("\x0c", " ") if isinstance(v, str) else v for v in case]  # no XML character
    want, ok = read(text)
    require(ok, "generator made bad text %r", text)
    for how, e, attrs in elements("Path", [text], {}, {"d": other}):
        require(e.d == text, "%s: d is %r, not %r", how, e.d, text)
        segs = list(e.segments(transformed))
        compare_segments(segs, want, how)
        before = snapshot(Path(e.d))
        for s in segs:
            if s.end is not None:
                s.end.x += 5
        require(snapshot(e.segments(transformed)) == before, "%s: moving a segment's end changed the element", how)
        require(e.d == text and e.attributes["d"] == text, "%s: reading the segments changed d to %r", how, e.d)
    return len(want) > 1


KINDS = [["image/png", True], ["image/jpg", True], ["image/jpeg", True], ["image/svg+xml", True]]


@sub("C30", "image data", st.tuples(st.sampled_from(KINDS), st.one_of(st.binary(max_size=40), st.binary(max_size=40), st.tuples(st.binary(min_size=1, max_size=9), st.integers(50, 5000)).map(lambda t: t[0] * (t[1] // len(t[0])))), st.booleans(), st.integers(0, 3)).map(lambda t: [t[0], list(t[1]), t[2], t[3]]), quick=500, thorough=20000)
def image_data(case):
    """The bytes of an image given as base64 data are those encoded."""
    (kind, _), data, linked, wrapped = case
    data = bytes(data)
    enc = base64.b64encode(data).decode()
    if wrapped and len(enc) > 8:  # in lines, as mail has them, or broken once; indented maybe
        n = (0, len(enc), 76, 8)[wrapped]
        first, rest = enc[:8], enc[8:]
        enc = ("\n  " if wrapped == 3 else "\n").join([first] + [rest[i:i + n] for i in range(0, len(rest), n)])
    url = "data:%s;base64,%s" % (kind, enc)
    key = "{%s}href" % XLINK if linked else "href"
    for how, e, attrs in elements("Image", [], {key: url}, {}):
        require(e.href == url, "%s: href is %r, not %r", how, e.href, url)
        require(e.data == data, "%s: data of %r is %r, not %r", how, url, e.data, data)
    return len(data) > 0


@sub("C30", "no image data", st.sampled_from([None, "", "a.png", "http://example.org/a.png", "#a", "data:text/plain;base64,AAAA", "png;base64,AAAA", "data/image/png;base64,AAAA"]), quick=30, thorough=30)
def no_data(url):
    for how, e, attrs in elements("Image", [], {} if url is None else {"href": url}, {}):
        require(e.href == url, "%s: href is %r, not %r", how, e.href, url)
        require(e.data is None, "%s: data of %r is %r", how, url, e.data)
    return bool(url)


@sub("C30", "viewboxes", st.tuples(st.sampled_from(["SVG", "Image"]), st.sampled_from([None, "0 0 10 10", "1,2,3,4", ""]), st.sampled_from([None, "none", "xMidYMid slice", ""]), st.booleans()).map(list), quick=100, thorough=300)
def viewboxes(case):
    """viewBox and preserveAspectRatio are an element's own: those of ancestors do not count."""
    name, box, par, outer = case
    own = {}
    if box is not None:
        own["viewBox"] = box
    if par is not None:
        own["preserveAspectRatio"] = par
    for how, e, attrs in elements(name, [], own, {"viewBox": "9 9 9 9", "preserveAspectRatio": "xMinYMin"} if outer else {}):
        require(e.viewBox == box, "%s %s: viewBox is %r, not %r", how, name, e.viewBox, box)
        require(e.preserveAspectRatio == par, "%s %s: preserveAspectRatio is %r, not %r", how, name, e.preserveAspectRatio, par)
    return box is not None or par is not None
