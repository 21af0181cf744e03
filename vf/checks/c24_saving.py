"""C24: saving a document and loading it again preserves it."""
import copy
import io
import os
import tempfile

from hypothesis import strategies as st

from ..core import require, rule, sub
from .. import trees as T
from ..spoil import chosen
from .c23_loading import choices, grown, preorder

rule("C24", "cases are documents, loaded or built and edited; non-trivial: at least three elements, or a value which "
     "needs escaping")


def state(node):
    """Everything about a tree of nodes, by identity."""
    return [(id(n), n.tag(), [(k, v) for k, v in n.attributes.items()], id(n.parent), id(n.document), [id(c) for c in n]) for n in preorder(node)]


def written(document):
    fd, name = tempfile.mkstemp(suffix=".svg", prefix="vf")
    try:
        with os.fdopen(fd, "wb") as f:  # a new file, or one which is there already, longer or shorter
            f.write(b"<svg id='old'><g/>\n</svg>" * (chosen(len(str(document[0])), 4) * (5 + len(str(document[0])) % 90)))
        document.write(name)
        with open(name, "rb") as f:
            return f.read()
    finally:
        os.unlink(name)


def saves(document, tree, what):
    """All ways to save, of the document and each of its nodes; loading again; saving again."""
    from svgio.nodes import Document

    before = state(document)
    objects = dict(document.objects)
    root = document[0]
    text = root.xml()
    T.same(text, tree, "the XML of %s" % what)
    T.same(str(root), tree, "str of the root of %s" % what)
    data = written(document)
    T.same(data, tree, "the file of %s" % what)
    nodes = list(preorder(root))
    model = list(T.walk(tree))
    for n, t in zip(nodes, model):
        T.same(n.xml(), t, "the XML of <%s> in %s" % (t[0], what))
    require(state(document) == before and dict(document.objects) == objects, "saving %s altered its tree", what)
    again = Document(io.BytesIO(data))
    require(len(again) == 1, "%s saved and loaded has %d root elements", what, len(again))
    want = copy.deepcopy(tree)
    T.compare(again[0], want, again, again, "%s, saved and loaded" % what)
    T.same(again[0].xml(), tree, "%s, saved, loaded and saved" % what)
    require(again[0].xml() == text, "the second save of %s is %.300r, the first %.300r", what, again[0].xml(), text)
    require(written(again) == data, "the second file of %s differs from the first", what)


def interesting(tree):
    n = list(T.walk(tree))
    values = [v for t in n for _, v in t[1]] + [t[2] or "" for t in n] + [t[4] or "" for t in n]
    return len(n) >= 3 or any(c in v for v in values for c in "&<>\"'\n\t\r")


@sub("C24", "loaded", st.tuples(T.trees(10), choices).map(list), quick=1000, thorough=40000)
def loaded(case):
    tree, ints = case
    document = T.load(T.encoded(T.render(tree, ints), "utf-8"), "bytes")
    saves(document, tree, "a document loaded")
    return interesting(tree)


histories = st.lists(st.one_of(T.operation, T.operation, T.editing), min_size=1, max_size=12)


@sub("C24", "built", st.tuples(T.built_element(), histories).map(list), quick=900, thorough=40000)
def built(case):
    """Documents built, loaded into and edited, saved at the end (and now and then between)."""
    first, ops = case
    b = T.Building()
    b.build(b.top, first)
    top = b.top.children[0]
    for op in ops:
        if op[0] == "add" or op[0] == "load" and op[1] % len(b.items()) == len(b.items()) - 1:
            continue  # one root element
        if op[0] in ("build",) and op[1] % len(b.items()) == len(b.items()) - 1:
            op = [op[0], 0] + op[2:]
        if op[0] == "again" and [i for i in b.items() if i.children][op[1] % len([i for i in b.items() if i.children])] is b.top:
            continue
        b.apply(op)
    tree = top.tree()
    saves(b.document, tree, "a document built")
    return interesting(tree)


@sub("C24", "namespace", st.tuples(T.built_element(), histories).map(list), quick=150, thorough=5000)
def namespace(case):
    """A document which declares the SVG namespace, as it should for a browser, is the same document."""
    from svgio.nodes import Document

    first, ops = case
    b = T.Building()
    b.build(b.top, ["svg", [], [kv for kv in first[2] if not kv[0].startswith("{")]])
    for op in ops:
        if op[0] == "build":
            n = len(b.items()) - 1
            b.build(b.items()[1 + op[1] % n], [op[2][0], op[2][1], [kv for kv in op[2][2] if not kv[0].startswith("{")]])
    tree = b.top.children[0].tree()
    b.document[0].attributes["xmlns"] = T.SVG
    text = b.document[0].xml()
    T.same(text, tree, "the XML of a document with the SVG namespace")
    again = Document(io.BytesIO(written(b.document)))
    T.compare(again[0], tree, again, again, "a document with the SVG namespace, loaded")
    return interesting(tree)


@sub("C24", "fragments", st.tuples(st.lists(st.tuples(T.built_element(), histories).map(list), min_size=2, max_size=4), st.booleans()).map(list), quick=150, thorough=5000)
def fragments(case):
    """A document holding several elements at the top is written whole, one after the other."""
    parts, load = case
    b = T.Building()
    for first, ops in parts:
        b.build(b.top, first)
        at = len(b.items())
        for op in ops:
            if op[0] == "build":
                b.build(b.items()[op[1] % (at - 1)], op[2])
    trees = [n.tree() for n in b.top.children]
    before = state(b.document)
    data = written(b.document)
    T.same(b"<svg>" + data + b"</svg>", ["svg", [], None, trees, None], "the file of several elements")
    require(state(b.document) == before, "writing several elements altered their trees")
    require(data.decode("utf-8") == "".join(n.xml() for n in b.document), "the file of several elements is %.300r, their XML %r", data, [n.xml() for n in b.document])
    return len(trees) > 1


@sub("C24", "alone", st.tuples(T.built_element(), histories, st.sampled_from([None, "text", "rect", "x-y", "{urn:x}a"]), T.texts, T.texts).map(list), quick=200, thorough=8000)
def alone(case):
    """The XML of a node of no document is that of its tree, too."""
    from svgio import nodes

    first, ops, tag, text, tail = case
    if tag is None:
        node = getattr(nodes, T.CLASSES[first[0]])(*first[1], **dict(map(tuple, first[2])))
    else:
        node = nodes.Node(**dict(map(tuple, first[2])))
        node._tag = tag
    if tag and node.tag() != tag:
        return False  # these are kept elsewhere now
    if all(hasattr(node, n) for n in ("_text", "_tail")):
        node._text, node._tail = text, tail
    else:
        text = tail = None
    attrs = T.expected_attributes(first) if tag is None else dict(map(tuple, first[2]))
    tree = [tag or first[0], [[k, str(v)] for k, v in attrs.items()], text, [], tail]
    every = [(node, tree)]
    for op in ops:
        if op[0] == "build":
            tag, args, kwargs = op[2]
            up, model = every[op[1] % len(every)]
            child = getattr(up, T.builder_name(tag))(*args, **dict(map(tuple, kwargs)))
            require(up[-1] is child and child.parent is up and child.document is None, "%s built below a node of no document is not there, or of a document", tag)
            model[3].append([tag, [[k, str(v)] for k, v in T.expected_attributes(op[2]).items()], None, [], None])
            every.append((child, model[3][-1]))
    before = state(node)
    for n, t in every:
        T.same(n.xml(), t, "the XML of <%s> of no document" % t[0])
        T.same(str(n), t, "str of <%s> of no document" % t[0])
    require(state(node) == before, "the XML of <%s> of no document altered its tree", tree[0])
    return interesting(tree)


@sub("C24", "large", st.tuples(T.trees(5), st.integers(0, 3), st.integers(20, 150), st.integers(0, 40), choices).map(list), quick=30, thorough=1500)
def large(case):
    """Many siblings, deep nesting, long text."""
    tree, shape, n, step, ints = case
    root = grown(tree, shape, n, step)
    document = T.load(T.encoded(T.render(root, ints), "utf-8"), "bytes")
    saves(document, root, "a large document")
    return True
