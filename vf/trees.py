"""Generated XML trees: their model, their (varied) serialisation, an independent reader, and histories of building."""
import io
import os
import tempfile
from xml.parsers import expat
from xml.sax.saxutils import escape

from hypothesis import strategies as st

from .core import Violation, require
from .spoil import spoil

SVG = "http://www.w3.org/2000/svg"
XLINK = "http://www.w3.org/1999/xlink"
XML = "http://www.w3.org/XML/1998/namespace"
# namespaces a document may use; the last ones only resemble that of SVG
FOREIGN = {"k": "http://www.inkscape.org/namespaces/inkscape", "dc": "http://purl.org/dc/elements/1.1/", "u": "urn:x-é", "h": "http://www.w3.org/1999/xhtml", "w": "http://www.w3.org/2000/svg2", "v": "http://www.w3.org/2000/", "xlink": XLINK}

# the class of the node of each element, by the names of SVG
CLASSES = {
    "svg": "SVG", "g": "Group", "defs": "Defs", "symbol": "Symbol", "marker": "Marker", "use": "Use", "style": "Style",
    "script": "Script", "a": "Hyperlink", "text": "Text", "tspan": "TSpan", "path": "Path", "line": "Line",
    "rect": "Rect", "circle": "Circle", "ellipse": "Ellipse", "polyline": "Polyline", "polygon": "Polygon",
    "image": "Image", "title": "Title", "desc": "Desc", "metadata": "Metadata", "switch": "Switch",
    "clipPath": "ClipPath", "mask": "Mask", "linearGradient": "LinearGradient", "radialGradient": "RadialGradient",
    "pattern": "Pattern",
}
TAGS = sorted(CLASSES)
OTHER_TAGS = ["filter", "feBlend", "stop", "foreignObject", "animate", "Rect", "SVG", "node", "element", "x-y", "flèche", "_z", "font-face"]
SHAPES = ["rect", "circle", "ellipse", "line", "polyline", "polygon", "path"]
# attributes given by the positional arguments of the builders
POSITIONAL = {
    "rect": ["x", "y", "width", "height", "rx", "ry"], "circle": ["cx", "cy", "r"], "ellipse": ["cx", "cy", "rx", "ry"],
    "line": ["x1", "y1", "x2", "y2"], "polyline": ["points"], "polygon": ["points"], "path": ["d"],
}

# ------------------------------------------------------------------ strings

ALPHABET = list("abcxyzABC0129 .,;:!?-_#()/%") + list("&<>\"'=") + ["]]>", "&amp;", "<!--", "\n", "\t", "\r", "é", "ß", "Ω", "日", "\u00a0", "\u2028", "\ufeff", "😀", "\u0301", "\x85", "\ufffd", "\U0010fffd"]
strings = st.one_of(
    st.sampled_from(["", " ", "a", "0", "red", "a b", "<a>", "&lt;", "&#10;", "'\"", "]]>", "url(#a)", "1 2 3", "\n  ", "M0,0 L1,1z", "é", "😀", "a\rb", "\ta\n"]),
    st.lists(st.sampled_from(ALPHABET), max_size=8).map("".join),
    st.text(st.characters(codec="utf-8", exclude_categories=["Cs", "Cc"], exclude_characters="\ufffe\uffff"), max_size=6).map(
        lambda s: "".join(ch for ch in s if ord(ch) & 0xFFFE != 0xFFFE)
    ),
)
texts = st.one_of(st.none(), st.none(), strings, strings, st.sampled_from(["\n    ", "  ", "\u00a0", "text"]))
ids = st.one_of(
    st.sampled_from(["a", "b", "c", "A", "id", "0", "x1", "a b", "a.b", "a:b", "é", "url", "#", "#a", "rect", "a-b_c", "&", "<", "\"", "'", "(", "None", "😀"]),
    st.integers(0, 30).map("n{}".format),
    strings.map(lambda s: "".join(ch for ch in s if ch not in "\n\r\t\u2028\x85)")),
)
PLAIN_NAMES = ["fill", "stroke", "stroke-width", "fill-opacity", "class", "style", "transform", "x", "y", "width", "height", "d", "points", "href", "data-é", "viewBox", "_q", "text", "title", "xml", "tag", "parent", "document"]
NS_NAMES = [XLINK + "}href", XML + "}space", XML + "}lang", FOREIGN["k"] + "}label", FOREIGN["w"] + "}fill", FOREIGN["u"] + "}é"]
names = st.one_of(st.sampled_from(PLAIN_NAMES), st.sampled_from(PLAIN_NAMES), st.sampled_from(["{" + n for n in NS_NAMES]))


@st.composite
def attributes(draw, ident=True):
    out = {}
    for _ in range(draw(st.integers(0, 4))):
        out[draw(names)] = draw(strings)
    if ident and draw(st.booleans()):
        out["id"] = draw(ids)
    items = list(out.items())
    if len(items) > 1 and draw(st.booleans()):
        items.reverse()
    return [list(i) for i in items]


# ------------------------------------------------------------------ trees: [tag, attributes, text, children, tail]

tags = st.one_of(
    st.sampled_from(TAGS), st.sampled_from(TAGS), st.sampled_from(["g", "rect", "circle"]), st.sampled_from(OTHER_TAGS),
    st.tuples(st.sampled_from(sorted(FOREIGN)), st.sampled_from(["a", "rect", "g", "title", "b", "é"])).map(lambda p: "{%s}%s" % (FOREIGN[p[0]], p[1])),
)


@st.composite
def trees(draw, size=10, ident=True):
    """A tree of at most size elements; parents are drawn among the nodes before, often the last one."""
    n = draw(st.integers(1, size))
    root = [draw(st.one_of(st.just("svg"), st.just("svg"), tags)), draw(attributes(ident)), draw(texts), [], None]
    nodes = [root]
    for _ in range(n - 1):
        if draw(st.booleans()):
            parent = nodes[-1]
        else:
            parent = nodes[draw(st.integers(0, len(nodes) - 1))]
        if parent[3] and draw(st.integers(0, 3)) == 0:  # a look-alike of the sibling before
            before = parent[3][-1]
            node = [before[0], [[k, v] for k, v in before[1] if k != "id"], before[2], [], before[4]]
        else:
            node = [draw(tags), draw(attributes(ident)), draw(texts), [], draw(texts)]
        parent[3].append(node)
        nodes.append(node)
    seen = set()
    for node in nodes:  # ids are unique in a document
        kept = []
        for k, v in node[1]:
            if k == "id" and v in seen:
                continue
            if k == "id":
                seen.add(v)
            kept.append([k, v])
        node[1] = kept
    return root


def walk(tree):
    yield tree
    for c in tree[3]:
        yield from walk(c)


def solid(text):
    """Text as the library has it: none when it is empty or white space only."""
    return text if text is not None and text.strip(" \t\r\n") else None


def canonical(tree, tail=False):
    """Comparable form: tag, attributes, text, children, tail with white-space-only text dropped."""
    tag, attrs, text, children, after = tree
    return (tag, dict((k, v) for k, v in attrs), solid(text), [canonical(c, True) for c in children], solid(after) if tail else None)


def difference(a, b, where=""):
    """First difference between two canonical trees, or None."""
    here = where + "/" + a[0]
    for i, what in ((0, "tag"), (1, "attributes"), (2, "text")):
        if a[i] != b[i]:
            return "%s of %s is %r, not %r" % (what, here, a[i], b[i])
    if len(a[3]) != len(b[3]):
        return "%s has the children %r, not %r" % (here, [c[0] for c in a[3]], [c[0] for c in b[3]])
    for i, (c, d) in enumerate(zip(a[3], b[3])):
        out = difference(c, d, "%s[%d]" % (here, i))
        if out:
            return out
        if c[4] != d[4]:
            return "text after %s[%d] is %r, not %r" % (here, i, c[4], d[4])
    return None


# ------------------------------------------------------------------ serialisation


class Choices:
    def __init__(self, ints):
        self.ints = ints or [0]
        self.i = 0

    def pick(self, n):
        v = self.ints[self.i % len(self.ints)]
        self.i += 1
        return v % n


def chars(text, quote, ch, entities):
    out = []
    for c in text:
        k = ch.pick(8)
        if c == "\r" or (quote and c in "\n\t") or (c in "\x85\u2028" and k < 4):
            out.append("&#%d;" % ord(c) if k < 4 else "&#x%X;" % ord(c))
        elif c == "&":
            out.append(("&amp;", "&#38;")[k % 2])
        elif c == "<":
            out.append(("&lt;", "&#60;")[k % 2])
        elif c == ">":
            out.append("&gt;")
        elif c == quote:
            out.append("&quot;" if c == '"' else "&apos;")
        elif entities and c in entities:
            out.append("&%s;" % entities[c])
        elif k == 7:
            out.append("&#x%x;" % ord(c))
        else:
            out.append(c)
    return "".join(out)


def character_data(text, ch, entities):
    if text is None:
        return ""
    k = ch.pick(6)
    if k == 0 and "]]>" not in text and "\r" not in text and text:
        return "<![CDATA[" + text + "]]>"
    if k == 1 and len(text) > 1:
        cut = 1 + ch.pick(len(text) - 1)
        return chars(text[:cut], None, ch, entities) + "<!-- <x> & -->" + chars(text[cut:], None, ch, entities)
    return chars(text, None, ch, entities)


def render(tree, ints, pad=0):
    """XML text of a tree. How it is written (prefixes, quotes, references, CDATA, comments) follows the integers."""
    ch = Choices(ints)
    mode = ch.pick(3)  # SVG elements: 0 default namespace, 1 with a prefix, 2 without a namespace
    used = {}
    for node in walk(tree):
        for name in [node[0]] + [k for k, _ in node[1]]:
            if name.startswith("{"):
                uri = name[1:].split("}")[0]
                if uri != XML:
                    used.setdefault(uri, "p%d" % len(used))
    entities = {"a": "ea", "é": "eb"} if ch.pick(4) == 0 else None

    def q(name, element):
        if name.startswith("{"):
            uri, local = name[1:].split("}")
            return ("xml:" if uri == XML else used[uri] + ":") + local
        return "s:" + name if element and mode == 1 else name

    def write(node, top):
        tag, attrs, text, children, tail = node
        out = ["<", q(tag, True)]
        extra = []
        if top:
            if mode == 0:
                extra.append(("xmlns", SVG))
            elif mode == 1:
                extra.append(("xmlns:s", SVG))
            extra += [("xmlns:" + p, u) for u, p in used.items()]
        pairs = [(q(k, False), v) for k, v in attrs]
        pairs = extra + pairs if ch.pick(2) else pairs + extra
        for k, v in pairs:
            quote = "'\""[ch.pick(2)]
            out.append((" ", "\n  ", "\t")[ch.pick(3)])
            out.append(k + (" = " if ch.pick(5) == 0 else "=") + quote + chars(v, quote, ch, entities) + quote)
        if text is None and not children and ch.pick(2):
            out.append("/>" if ch.pick(2) else " />")
        else:
            out.append(">")
            out.append(character_data(text, ch, entities))
            for c in children:
                if ch.pick(6) == 0:
                    out.append("<!-- - <b/> & é -->")
                elif ch.pick(8) == 0:
                    out.append("<?pi x='1'?>")
                elif text is None and tail is None and ch.pick(4) == 0 and c is children[0]:
                    out.append("\n ")
                out.append(write(c, False))
            out.append("</" + q(tag, True) + (" >" if ch.pick(4) == 0 else ">"))
        if not top:
            out.append(character_data(tail, ch, entities))
        return "".join(out)

    body = write(tree, True)
    head = ""
    if entities:
        head += "<!DOCTYPE %s [<!ENTITY ea 'a'> <!ENTITY eb \"&#233;\">]>\n" % q(tree[0], True)
    if pad:
        head += "<!--" + "pad " * pad + "-->\n"
    if ch.pick(3) == 0:
        head += "<!-- before -->\n"
    if ch.pick(3) == 0:
        body += "\n<!-- after -->\n"
    return head + body


def encoded(text, kind):
    """Bytes of a document in some encoding, declared."""
    if kind == "utf-8":
        return text.encode("utf-8")
    if kind == "declared":
        return ("<?xml version='1.0' encoding='UTF-8' standalone='no'?>\n" + text).encode("utf-8")
    if kind == "bom":
        return b"\xef\xbb\xbf" + text.encode("utf-8")
    if kind == "utf-16":
        return ('<?xml version="1.0" encoding="utf-16"?>' + text).encode("utf-16")
    raise ValueError(kind)


ENCODINGS = ["utf-8", "declared", "bom", "utf-16"]
SOURCES = ["name", "bytes", "string", "file", "text file", "read"]


def load(data, kind, into=None):
    """Document from bytes, given in one of the ways a source may be given."""
    from svgio.nodes import Document

    def given(source, name=False):
        if into is not None:
            into.parse(source)
            return into
        if name:
            spoil(Document(source))
        elif kind == "string":
            spoil(Document(io.StringIO(source.getvalue())))
        elif kind == "bytes":
            spoil(Document(io.BytesIO(source.getvalue())))
        if kind == "read" and name:
            d = Document()
            d.read(source)
            return d
        return Document(source)

    if kind == "bytes":
        return given(io.BytesIO(data))
    if kind == "string":
        return given(io.StringIO(data.decode("utf-8-sig")))
    fd, name = tempfile.mkstemp(suffix=".svg", prefix="vf")
    try:
        with os.fdopen(fd, "wb") as f:
            f.write(data)
        if kind == "file":
            with open(name, "rb") as f:
                return given(f)
        if kind == "text file":
            with open(name, encoding="utf-8-sig", newline="") as f:
                return given(f)
        if into is None:  # nor may it matter what was there before
            with open(name, "wb") as f:
                f.write(b"<svg id='other'><g/><rect/></svg>")
            spoil(Document(name))
            with open(name, "wb") as f:
                f.write(data)
        return given(name, True)
    finally:
        os.unlink(name)


# ------------------------------------------------------------------ independent reader


def read(text):
    """The tree an XML text describes, by expat: SVG namespace removed, comments and processing instructions dropped."""
    p = expat.ParserCreate(namespace_separator="}")
    p.buffer_text = True
    top = [None, [], None, [], None]
    stack = [top]

    def name(n, element):
        if "}" in n:
            uri, local = n.rsplit("}", 1)
            if element and uri == SVG:
                return local
            return "{" + uri + "}" + local
        return n

    def start(n, attrs):
        node = [name(n, True), [[name(k, False), v] for k, v in attrs.items()], None, [], None]
        stack[-1][3].append(node)
        stack.append(node)

    def end(n):
        stack.pop()

    def data(s):
        node = stack[-1]
        if node[3]:
            node[3][-1][4] = (node[3][-1][4] or "") + s
        else:
            node[2] = (node[2] or "") + s

    p.StartElementHandler = start
    p.EndElementHandler = end
    p.CharacterDataHandler = data
    try:
        p.Parse(text.encode("utf-8") if isinstance(text, str) else text, True)
    except expat.ExpatError as e:
        raise Violation("it is not well-formed XML (%s): %.300r" % (e, text))
    require(len(top[3]) == 1, "it has %d root elements", len(top[3]))
    return top[3][0]


# ------------------------------------------------------------------ comparing with nodes


def compare(node, tree, document, parent, where=""):
    """The node and all below it are what the tree says: class, tag, attributes, children, parents, document."""
    from svgio import nodes

    tag, attrs, text, children, tail = tree
    here = where + "/" + tag
    require(type(node) is getattr(nodes, CLASSES.get(tag, "Node")), "%s is of class %s", here, type(node).__name__)
    require(node.tag() == tag, "the tag of %s is %r", here, node.tag())
    want = dict((k, v) for k, v in attrs)
    require(dict(node.attributes) == want, "the attributes of %s are %r, not %r", here, dict(node.attributes), want)
    require(node.parent is parent, "the parent of %s is not the node it is in", here)
    require(node.document is document, "the document of %s is another one", here)
    require(len(node) == len(children), "%s has %d children, not %d", here, len(node), len(children))
    for i, (c, t) in enumerate(zip(node, children)):
        compare(c, t, document, node, "%s[%d]" % (here, i))


def same(text, tree, what):
    out = difference(canonical(read(text)), canonical(tree))
    require(out is None, "%s: %s, in %.300r", what, out, text)


# ------------------------------------------------------------------ histories of building and editing

BUILT = TAGS + ["clip_path", "linear_gradient"]


def builder_name(tag):
    return tag.replace("-", "_")


number = st.one_of(st.integers(-99, 99), st.floats(-1e3, 1e3, allow_nan=False).map(lambda x: round(x, 3)), st.sampled_from(["10px", "5%", "1e3", ""]))
values = st.one_of(strings, strings, st.integers(-99, 99), st.floats(-100, 100, allow_nan=False), st.booleans(), st.none())


@st.composite
def built_element(draw):
    tag = draw(st.one_of(st.sampled_from(TAGS), st.sampled_from(SHAPES)))
    args = draw(st.lists(number, max_size=len(POSITIONAL.get(tag, ())))) if tag in POSITIONAL else []
    kwargs = {}
    for _ in range(draw(st.integers(0, 3))):
        k = draw(names)
        if k not in ("self", "args", "kwargs"):
            kwargs[k] = draw(values)
    if draw(st.integers(0, 2)) == 0:
        kwargs["id"] = draw(ids)
    return [tag, args, [list(i) for i in kwargs.items()]]


pick = st.integers(0, 60)
operation = st.one_of(
    *[st.tuples(st.just("build"), pick, built_element()).map(list)] * 4,
    st.tuples(st.just("again"), pick).map(list),  # a sibling which looks just the same
    st.tuples(st.just("add"), st.lists(st.tuples(pick, built_element()).map(list), min_size=1, max_size=4)).map(list),
    st.tuples(st.just("load"), pick, trees(4)).map(list),
)
editing = st.one_of(
    st.tuples(st.just("set"), pick, names, values).map(list),
    st.tuples(st.just("unset"), pick, pick).map(list),
    st.tuples(st.just("drop"), pick, pick).map(list),
    st.tuples(st.just("order"), pick, pick, pick).map(list),
    st.tuples(st.just("save"), pick).map(list),
)


class Item:
    """One element of the model, beside the node it stands for."""

    def __init__(self, tag, attrs, node, parent):
        self.tag = tag
        self.attrs = attrs
        self.text = None
        self.tail = None
        self.children = []
        self.node = node
        self.parent = parent

    def tree(self):
        return [self.tag, [[k, str(v)] for k, v in self.attrs.items()], self.text, [c.tree() for c in self.children], self.tail]

    def walk(self):
        yield self
        for c in self.children:
            yield from c.walk()


def expected_attributes(element):
    tag, args, kwargs = element
    out = dict((k, v) for k, v in kwargs)
    for k, v in zip(POSITIONAL.get(tag, ()), args):
        out[k] = v
    return out


class Building:
    """A document under construction and its model, kept in step."""

    def __init__(self):
        from svgio.nodes import Document

        self.document = Document()
        self.top = Item(None, {}, self.document, None)
        self.ids = {}  # id -> item carrying it; ids given twice are dropped
        self.known = set()  # every id ever given, also those of nodes taken away
        self.done = 0

    def items(self):
        return list(self.top.walk())

    def fresh(self, element):
        """The element without an id that is taken."""
        tag, args, kwargs = element
        kwargs = [[k, v] for k, v in kwargs if k != "id" or v not in self.ids]
        return [tag, args, kwargs]

    def made(self, element, node, parent):
        from svgio import nodes

        tag = element[0]
        require(type(node) is getattr(nodes, CLASSES[tag]), "building %s gives a %s", tag, type(node).__name__)
        item = Item(tag, expected_attributes(element), node, parent)
        require(len(parent.node) == len(parent.children) + 1 and parent.node[-1] is node, "building %s does not append the node to its parent", tag)
        parent.children.append(item)
        if "id" in item.attrs:
            self.ids[item.attrs["id"]] = item
            self.known.add(item.attrs["id"])
        self.done += 1
        return item

    def build(self, parent, element):
        element = self.fresh(element)
        tag, args, kwargs = element
        given = [list(args), dict((k, v) for k, v in kwargs)]
        node = getattr(parent.node, builder_name(tag))(*given[0], **given[1])
        return self.made(element, node, parent)

    def adopt(self, parent, tree, node):
        item = Item(tree[0], dict((k, v) for k, v in tree[1]), node, parent)
        item.text, item.tail = solid(tree[2]), solid(tree[4])
        parent.children.append(item)
        if "id" in item.attrs:
            self.ids[item.attrs["id"]] = item
            self.known.add(item.attrs["id"])
        require(len(node) == len(tree[3]), "%s loaded into a node has %d children", tree[0], len(node))
        for t, n in zip(tree[3], node):
            self.adopt(item, t, n)

    def apply(self, op):
        from svgio import nodes

        kind = op[0]
        items = self.items()
        if kind == "build":
            self.build(items[-1 - op[1] % len(items)], op[2])
        elif kind == "again":
            found = [i for i in items if i.children]
            if found:
                parent = found[op[1] % len(found)]
                last = parent.children[-1]
                if last.tag in CLASSES:
                    self.build(parent, [last.tag, [], [[k, v] for k, v in last.attrs.items() if k != "id"]])
        elif kind == "add":
            # a tree built on its own, then added to the document
            element = self.fresh(op[1][0][1])
            node = getattr(nodes, CLASSES[element[0]])(*element[1], **dict((k, v) for k, v in element[2]))
            root = Item(element[0], expected_attributes(element), node, self.top)
            taken = {root.attrs["id"]} if "id" in root.attrs else set()
            for at, e in op[1][1:]:
                e = self.fresh(e)
                e[2] = [[k, v] for k, v in e[2] if k != "id" or v not in taken]
                taken.update(v for k, v in e[2] if k == "id")
                inside = list(root.walk())
                parent = inside[at % len(inside)]
                n = getattr(parent.node, builder_name(e[0]))(*e[1], **dict((k, v) for k, v in e[2]))
                item = Item(e[0], expected_attributes(e), n, parent)
                parent.children.append(item)
            self.document.add(node)
            self.top.children.append(root)
            for item in root.walk():
                if "id" in item.attrs:
                    self.ids[item.attrs["id"]] = item
                    self.known.add(item.attrs["id"])
            self.done += 1
        elif kind == "load":
            parent = items[-1 - op[1] % len(items)]
            tree = [op[2][0], [a for a in op[2][1]], op[2][2], op[2][3], None]
            for t in walk(tree):
                t[1] = [[k, v] for k, v in t[1] if k != "id" or v not in self.ids]
            before = len(parent.node)
            parent.node.parse(io.StringIO(render(tree, [0])))
            require(len(parent.node) == before + 1, "loading into a node gives it %d children more", len(parent.node) - before)
            self.adopt(parent, tree, parent.node[-1])
            self.done += 1
        else:
            items = items[1:]
            if not items:
                return
            item = items[op[1] % len(items)]
            if kind == "set":
                item.node.attributes[op[2]] = op[3]
                item.attrs[op[2]] = op[3]
            elif kind == "unset":
                ks = [k for k in item.attrs if k != "id"]
                if ks:
                    k = ks[op[2] % len(ks)]
                    del item.node.attributes[k]
                    del item.attrs[k]
            elif kind == "drop":
                if item.children:
                    i = op[2] % len(item.children)
                    del item.node[i]
                    gone = item.children.pop(i)
                    for g in gone.walk():
                        if "id" in g.attrs:
                            self.ids.pop(g.attrs["id"], None)
            elif kind == "order":
                n = len(item.children)
                if n > 1:
                    i, j = op[2] % n, op[3] % n
                    item.node.insert(j, item.node.pop(i))
                    item.children.insert(j, item.children.pop(i))
            elif kind == "save":
                item.node.xml()
            self.done += 1

    def check(self):
        """The tree holds exactly the nodes of the model: identity, order, attributes, parents, document."""
        stack = [self.top]
        while stack:
            item = stack.pop()
            require(len(item.node) == len(item.children), "%s has %d children, not %d", item.tag, len(item.node), len(item.children))
            for n, c in zip(item.node, item.children):
                require(n is c.node, "the children of %s are not the nodes created there, in order", item.tag)
                require(n.parent is item.node, "the parent of %s in %s is not that", c.tag, item.tag)
                require(n.document is self.document, "the document of %s is not that it was built in", c.tag)
            if item.tag is not None:
                require(item.node.tag() == item.tag, "the tag of %s is %r", item.tag, item.node.tag())
                require(same_values(item.node.attributes, item.attrs), "the attributes of %s are %r, not %r", item.tag, item.node.attributes, item.attrs)
            stack.extend(item.children)


def same_values(a, b):
    return dict(a) == b and all(type(a[k]) is type(b[k]) for k in b)
