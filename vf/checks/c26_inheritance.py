"""C26: presentation values come from the element or its nearest ancestor."""
import io
import random

from hypothesis import strategies as st

from ..core import require, rule, sub
from ..oracle.colors import KEYWORDS
from ..spoil import chosen
from .. import trees as T

rule("C26", "cases are trees with few attribute names on many nodes; non-trivial: some node is given values by two or more of "
     "its ancestors, or overrides one")

COLOURS = [["none", None]] * 3 + [[k, list(KEYWORDS[k]) + [255]] for k in ("red", "white", "black", "darksalmon", "gray", "lime")] + [
    ["#abc", [0xAA, 0xBB, 0xCC, 255]], ["#010203", [1, 2, 3, 255]], ["rgb(10,20,30)", [10, 20, 30, 255]], ["rgb(0%,100%,20%)", [0, 255, 51, 255]],
    ["#10203040", [0x10, 0x20, 0x30, 0x40]], ["#f008", [255, 0, 0, 0x88]], ["rgba(1,2,3,0)", [1, 2, 3, 0]], ["transparent", [0, 0, 0, 0]],
]
MEANING = {c[0]: c[1] for c in COLOURS}
OPACITIES = ["0", "1", "0.5", "0.25", ".1", "1e-1", "0.999", "1.0"]
NUMBERS = [0, 1, 0.0, 0.5, 0.25, 1.0]

GEOMETRY = ["x", "y", "width", "height", "rx", "ry", "cx", "cy", "r", "x1", "y1", "x2", "y2", "dx", "dy", "points", "d"]
# the properties which read a value, by element, with what they give when no one sets it
READ = {
    "rect": {"x": 0, "y": 0, "width": 1, "height": 1, "rx": None, "ry": None},
    "ellipse": dict.fromkeys(["rx", "ry", "cx", "cy"]), "circle": dict.fromkeys(["r", "cx", "cy"]),
    "line": dict.fromkeys(["x1", "y1", "x2", "y2"]), "polyline": {"points": None}, "polygon": {"points": None}, "path": {"d": None},
    "mask": dict.fromkeys(["x", "y", "width", "height"]), "pattern": dict.fromkeys(["x", "y", "width", "height"]),
    "svg": dict.fromkeys(["x", "y", "width", "height"]), "use": dict.fromkeys(["x", "y", "width", "height"]),
    "image": dict.fromkeys(["x", "y", "width", "height"]), "text": dict.fromkeys(["x", "y", "width", "height", "dx", "dy"]),
    "tspan": dict.fromkeys(["x", "y", "width", "height", "dx", "dy"]),
}
GRAPHICAL = T.SHAPES + ["text", "tspan", "image"]
LINKED = ["image", "a", "script", "pattern"]


@st.composite
def given(draw):
    """Attributes of one node."""
    out = {}
    for _ in range(draw(st.integers(0, 5))):
        k = draw(st.sampled_from(["fill", "stroke", "fill-opacity", "stroke-opacity", "fill", "stroke", "stroke-width", "geometry", "href", "class", "style", "other", "id", "color"]))
        if k in ("fill", "stroke"):
            v = draw(st.sampled_from(COLOURS))[0]
        elif k.endswith("-opacity"):
            v = draw(st.sampled_from(OPACITIES + NUMBERS))
        elif k == "href":
            k, v = draw(st.sampled_from(["href", "{" + T.XLINK + "}href"])), draw(st.sampled_from(["#a", "b.png", ""]))
        else:
            if k == "geometry":
                k = draw(st.sampled_from(GEOMETRY))
            elif k == "other":
                k = draw(T.names)
                if k in ("fill", "stroke", "fill-opacity", "href", "xmlns") or k.endswith("}href"):
                    k = "data-k"
            v = draw(st.sampled_from(["0", "1", "2px", "50%", "", "none", "M0,0", "a b"]))
        if k not in ("id", "class", "style") and draw(st.integers(0, 11)) == 0:
            v = None  # set to nothing, in trees which are built
        out[k] = v
    return [list(i) for i in out.items()]


@st.composite
def inheritance(draw, least=1, most=9):
    """Parents (mostly the node before, so that chains are long), tags and attributes."""
    n = draw(st.integers(least, most))
    nodes = []
    for i in range(n):
        parent = i - 1 if draw(st.integers(0, 2)) else draw(st.integers(0, max(0, i - 1)))
        tag = draw(st.sampled_from(["g", "g", "svg", "a", "defs", "symbol", "switch", "clipPath", "marker"] + GRAPHICAL * 2 + list(READ) + LINKED)) if i else "svg"
        nodes.append([parent, tag, draw(given())])
    return [nodes, draw(given()), draw(st.booleans()), draw(st.lists(st.tuples(st.integers(-1, 8), given()).map(list), max_size=2))]


def colour(c, text, opacity, what):
    """What is read is the colour of the text with the opacity in force."""
    from svgio import Color

    if text is None:
        require(c is None, "%s is %r, though none is in force", what, c)
        return
    want = MEANING[text]
    require(isinstance(c, Color), "%s is %r", what, c)
    if want is None:
        require(c.value is None, "%s is %r, though it is none", what, c)
        return
    require((c.red, c.green, c.blue) == tuple(want[:3]), "%s is %r, though %s is in force", what, c, text)
    if opacity is None:
        require(c.alpha == want[3], "the alpha of %s is %r, though %s is in force", what, c.alpha, text)
    else:  # of a color which is translucent itself: in its place, or times its own
        a = float(opacity) * 255
        require(abs(c.alpha - a) <= 0.5 + 1e-9 or abs(c.alpha - a * want[3] / 255) <= 1, "the alpha of %s is %r, though its opacity is %s", what, c.alpha, opacity)


def check(document, model):
    """model: per node [node, parent index or -1, tag, attributes]; entry -1 is that of the document."""
    from svgio import Color
    from svgio.nodes import Document

    before = [list(m[0].attributes.items()) for m in model]
    crossing = False
    for node, parent, tag, attrs in model:
        chain = [attrs]
        up = parent
        while up is not None:
            chain.append(model[up][3])
            up = model[up][1]
        force = {}
        for a in chain:  # the nearest first
            for k, v in a.items():
                force.setdefault(k, v)
        crossing = crossing or sum(1 for a in chain if a) >= 2 and len(force) < sum(map(len, chain))
        got = Document.get_values(node)
        require(dict(got) == force, "the values in force for <%s> are %r, not %r", tag, dict(got), force)
        got["fill"] = "nonsense"
        got.clear()
        if tag in GRAPHICAL:
            for name in ("fill", "stroke"):
                c = getattr(node, name)
                o = force.get(name + "-opacity")
                colour(c, force.get(name), o, "%s of <%s>" % (name, tag))
                require(getattr(node, name + "_opacity") == o, "%s_opacity of <%s> is %r, not %r", name, tag, getattr(node, name + "_opacity"), o)
                if c is not None and c.value is not None:
                    # what was read is the caller's own
                    c.red, c.green, c.blue, c.alpha = 1, 22, 33, 44
                    colour(getattr(node, name), force.get(name), o, "%s of <%s>, read again," % (name, tag))
            require(node.stroke_width == force.get("stroke-width"), "stroke_width of <%s> is %r, not %r", tag, node.stroke_width, force.get("stroke-width"))
        for name, default in READ.get(tag, {}).items():
            v = getattr(node, name)
            want = force.get(name, default)
            require(type(v) is type(want) and v == want, "%s of <%s> is %r, not %r", name, tag, v, want)
        if tag in LINKED:
            both = {force[k] for k in ("href", "{" + T.XLINK + "}href") if k in force}
            v = node.href
            require(v in both if both else v is None, "href of <%s> is %r, in force is %r", tag, v, both)
    after = [list(m[0].attributes.items()) for m in model]
    require(after == before, "reading changed attributes: %r, before %r", after, before)
    return crossing


@sub("C26", "values", inheritance(), quick=1600, thorough=100000)
def values(case):
    from svgio.nodes import BOOTSTRAP, Document

    nodes, top, loaded, edits = case
    model = []
    if loaded:
        trees = []
        for parent, tag, attrs in nodes:
            attrs = [[k, str(v)] for k, v in attrs if v is not None]
            t = [tag, attrs, None, [], None]
            if trees:
                trees[parent][3].append(t)
            trees.append(t)
        document = Document(io.StringIO(T.render(trees[0], [0])))
        found = []

        def pair(n, t):
            found.append((id(t), n))
            for a, b in zip(n, t[3]):
                pair(a, b)

        pair(document[0], trees[0])
        of = dict(found)
        for (parent, tag, attrs), t in zip(nodes, trees):
            model.append([of[id(t)], parent + 1 if model else 0, tag, dict(map(tuple, t[1]))])
    else:
        document = Document()
        for parent, tag, attrs in nodes:
            up = document if not model else model[parent][0]
            if chosen([parent, tag, attrs, len(model)], 4):
                n = BOOTSTRAP[tag](**dict(map(tuple, attrs)))
                n.parent = up  # linked by hand, of no document of its own
                up.append(n)
            else:
                n = getattr(up, tag)(**dict(map(tuple, attrs)))
            model.append([n, parent + 1 if model else 0, tag, dict(map(tuple, attrs))])
    document.attributes.update(dict(map(tuple, top)))
    model.insert(0, [document, None, "document", dict(map(tuple, top))])
    out = check(document, model)
    for at, attrs in edits:  # values given later are in force at once
        m = model[(at + 1) % len(model)]
        for k, v in attrs:
            m[0].attributes[k] = v
            m[3][k] = v
        out = check(document, model) or out
    return out


@st.composite
def deep(draw):
    """A few sets of attributes, far apart in long chains."""
    sets = [[]] * 4 + [draw(given()) for _ in range(3)]
    r = random.Random(draw(st.integers(0, 2**32)))
    nodes = []
    for i in range(draw(st.integers(12, 60))):
        parent = i - 1 if r.randint(0, 9) else r.randint(0, max(0, i - 1))
        tag = r.choice(["g", "g", "g", "svg", "a", "defs"] + GRAPHICAL) if i else "svg"
        nodes.append([parent, tag, r.choice(sets)])
    return [nodes, draw(given()), draw(st.booleans()), draw(st.lists(st.tuples(st.integers(-1, 60), given()).map(list), max_size=2))]


@sub("C26", "deep", deep(), quick=100, thorough=6000)
def deep_values(case):
    return values(case)
