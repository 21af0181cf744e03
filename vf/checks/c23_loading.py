"""C23: loading a document builds the tree the XML describes."""
from hypothesis import strategies as st

from ..core import require, rule, sub
from .. import trees as T

rule("C23", "cases are documents, written out in varied ways; non-trivial: at least three elements, or an id which is "
     "looked up, or text")

choices = st.lists(st.integers(0, 839), min_size=1, max_size=40)


def lookups(document, tree, nodes, extra, elsewhere=()):
    """Each id is found as the node that carries it, and no others are found."""
    held = {}
    for t, n in zip(T.walk(tree), nodes):
        for k, v in t[1]:
            if k == "id":
                held[v] = n
    for i, n in held.items():
        require(document.get_element_by_id(i) is n, "the id %r is found as %r", i, document.get_element_by_id(i))
        if i and not i.startswith("#"):
            found = document.get_element_by_url("url(#%s)" % i)
            require(found is n, "url(#%s) is found as %r", i, found)
    values = [v for t in T.walk(tree) for k, v in t[1] if k != "id"]
    for i in extra + values:
        if i not in held and i not in elsewhere and all(c not in i for c in "()\n\r\u2028\x85"):
            require(document.get_element_by_id(i) is None, "the unknown id %r is found as %r", i, document.get_element_by_id(i))
            if not i.startswith("#"):
                found = document.get_element_by_url("url(#%s)" % i)
                require(found is None, "the unknown url(#%s) is found as %r", i, found)
    return held


def preorder(node):
    yield node
    for c in node:
        yield from preorder(c)


def check(document, tree, extra, what):
    require(len(document) == 1, "%s has %d children", what, len(document))
    T.compare(document[0], tree, document, document, what)
    held = lookups(document, tree, list(preorder(document[0])), extra)
    T.same(document[0].xml(), tree, what)
    return held


@sub(
    "C23", "documents", st.tuples(T.trees(14), choices, st.sampled_from(T.ENCODINGS), st.sampled_from(T.SOURCES), st.lists(T.ids, max_size=3)).map(list),
    quick=1500, thorough=60000,
)
def documents(case):
    """Any document, any encoding, any kind of source."""
    tree, ints, encoding, kind, extra = case
    text = T.render(tree, ints)
    if kind in ("string", "text file") and encoding == "utf-16":
        encoding = "declared"
    document = T.load(T.encoded(text, encoding), kind)
    held = check(document, tree, extra, "the document")
    n = list(T.walk(tree))
    return len(n) >= 3 or bool(held) or any(T.solid(t[2]) for t in n)


@st.composite
def large(draw):
    tree = draw(T.trees(5))
    return [tree, draw(choices), draw(st.sampled_from([0, 1, 2, 3])), draw(st.integers(1, 400)), draw(st.integers(0, 40)), draw(st.sampled_from([0, 0, 4080, 16370, 16380])), draw(st.sampled_from(T.SOURCES))]


@sub("C23", "large", large(), quick=120, thorough=4000)
def large_documents(case):
    """Documents longer than what is read at once: many siblings, deep nesting, long text."""
    tree, ints, shape, n, step, pad, kind = case
    root = grown(tree, shape, n, step)
    document = T.load(T.encoded(T.render(root, ints, pad // 4), "utf-8"), kind)
    check(document, root, [], "the document")
    return True


def grown(tree, shape, n, step):
    root = ["svg", [["id", "root"]], None, [], None]
    parent = root
    for i in range(n):
        node = ["g" if i % 3 else "text", [["id", "i%d" % i], ["class", "x" * (i % (step + 1))]], ("t%d" % i) * (i % 7 if shape != 3 else 200) or None, [], "after %d" % i if i % 5 == 0 else None]
        parent[3].append(node)
        if shape == 1 and i < 150 or shape == 2 and i % 10 < 7:
            parent = node
        elif shape == 2:
            parent = root
    parent[3].append([tree[0], tree[1], tree[2], tree[3], None])
    for t in T.walk(parent[3][-1]):  # ids stay unique
        t[1] = [[k, v + "!" if k == "id" else v] for k, v in t[1]]
    return root


@sub("C23", "several", st.tuples(T.trees(6), T.trees(6), T.trees(6), choices, st.integers(0, 9), st.sampled_from(["bytes", "string", "name"])).map(list), quick=500, thorough=15000)
def several(case):
    """Reading another document, into the document or into one of its nodes, appends what it describes there."""
    first, second, third, ints, at, kind = case
    for i, tree in enumerate((first, second, third)):
        for t in T.walk(tree):
            t[1] = [[k, v + "~2~3"[:2 * i] if k == "id" else v] for k, v in t[1]]
    every = [v for tree in (first, second, third) for t in T.walk(tree) for k, v in t[1] if k == "id"]
    if len(set(every)) < len(every):
        return False
    document = T.load(T.encoded(T.render(first, ints), "utf-8"), kind)
    document.read(__import__("io").BytesIO(T.encoded(T.render(second, ints[::-1]), "utf-8")))
    require(len(document) == 2, "the document has %d children after a second reading", len(document))
    nodes = list(preorder(document[0]))
    model = list(T.walk(first))
    into = nodes[at % len(nodes)]
    T.load(T.encoded(T.render(third, ints), "utf-8"), kind, into)
    model[at % len(nodes)][3].append([third[0], third[1], third[2], third[3], None])
    T.compare(document[0], first, document, document, "the first")
    T.compare(document[1], second, document, document, "the second")
    elsewhere = {v for t in T.walk(second) for k, v in t[1] if k == "id"}
    lookups(document, first, list(preorder(document[0])), [], elsewhere)
    nodes = list(preorder(document[1]))
    for t, n in zip(T.walk(second), nodes):
        for k, v in t[1]:
            if k == "id":
                require(document.get_element_by_id(v) is n, "the id %r of the second is found as %r", v, document.get_element_by_id(v))
    return True
