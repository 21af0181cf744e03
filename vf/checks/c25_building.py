"""C25: building and navigating a document stay consistent."""
import io

from hypothesis import strategies as st

from ..core import require, rule, sub
from .. import trees as T
from ..spoil import chosen
from .c23_loading import choices, grown

rule("C25", "cases are histories of builder, add, load and edit calls; non-trivial: some element has at least two children, "
     "or the nesting is at least three deep")


def navigates(b):
    """Every navigation property of every node agrees with the model."""
    from svgio.nodes import Document, Element

    doc = b.document
    require(doc.parent is None and doc.owner_document is doc, "the document has a parent or another document")
    require(not doc.is_connected, "the document is connected to something")
    depth = {None: 0}
    deep = wide = 0
    for item in b.items():
        node, kids = item.node, [c.node for c in item.children]
        here = item.tag or "document"
        wide = max(wide, len(kids))
        require(node.has_child_nodes() is bool(kids), "has_child_nodes of %s with %d children is %r", here, len(kids), node.has_child_nodes())
        first, last = (kids[0], kids[-1]) if kids else (None, None)
        require(node.first_child is first, "first_child of %s is not its first child", here)
        require(node.last_child is last, "last_child of %s is not its last child", here)
        if isinstance(node, Element):
            require(node.child_element_count == len(kids), "child_element_count of %s is %r, not %d", here, node.child_element_count, len(kids))
            require(list(map(id, node.children)) == list(map(id, kids)), "children of %s are others", here)
            require(node.first_element_child is first, "first_element_child of %s is not its first child", here)
            require(node.last_element_child is last, "last_element_child of %s is not its last child", here)
            require(node.id == item.attrs.get("id"), "the id of %s is %r, not %r", here, node.id, item.attrs.get("id"))
        for i, child in enumerate(kids):
            what = "child %d of %d of %s" % (i, len(kids), here)
            nxt = kids[i + 1] if i + 1 < len(kids) else None
            prv = kids[i - 1] if i else None
            require(child.next_sibling is nxt, "next_sibling of %s is not the child after it", what)
            require(child.previous_sibling is prv, "previous_sibling of %s is not the child before it", what)
            if isinstance(child, Element):
                require(child.next_element_sibling is nxt, "next_element_sibling of %s is not the child after it", what)
                require(child.previous_element_sibling is prv, "previous_element_sibling of %s is not the child before it", what)
            require(child.parent_node is node and child.parent_element is node, "the parent of %s is another node", what)
            require(child.owner_document is doc, "owner_document of %s is another", what)
            require(child.is_connected is True, "%s is not connected", what)
            require(child.is_same_node(child), "%s is not the same node as itself", what)
            require(not any(child.is_same_node(k) for j, k in enumerate(kids) if j != i), "%s is the same node as a sibling", what)
        chain = []
        up = item
        while up is not None:
            chain.append(up.node)
            up = up.parent
        deep = max(deep, len(chain))
        got = list(Document.get_ancestors(node))
        require(list(map(id, got)) == list(map(id, chain)), "the ancestors of %s are %r, not %r", here, [a.tag() for a in got], [a.tag() for a in chain])
    for i, item in b.ids.items():
        require(doc.get_element_by_id(i) is item.node, "the id %r is found as %r", i, doc.get_element_by_id(i))
        if isinstance(i, str) and i and not i.startswith("#"):
            require(doc.get_element_by_url("url(#%s)" % i) is item.node, "url(#%s) is found as %r", i, doc.get_element_by_url("url(#%s)" % i))
        if isinstance(i, str):  # not by what merely resembles it
            for other in (i + " ", " " + i, i.strip(), i.swapcase(), i[:-1], i[1:], i + i):
                if other not in b.known and all(c not in other for c in "()\n\r\u2028\x85"):
                    require(doc.get_element_by_id(other) is None, "the unknown id %r is found as %r, as is %r", other, doc.get_element_by_id(other), i)
                    if not other.startswith("#"):
                        found = doc.get_element_by_url("url(#%s)" % other)
                        require(found is None, "the unknown url(#%s) is found as %r, as is %r", other, found, i)
    return wide >= 2 or deep >= 4


history = st.lists(T.operation, min_size=1, max_size=14)


@sub("C25", "built", history, quick=1200, thorough=60000)
def built(case):
    b = T.Building()
    for op in case:
        b.apply(op)
        b.check()
    return navigates(b)


@sub("C25", "edited", st.lists(st.one_of(T.operation, T.editing), min_size=1, max_size=16), quick=900, thorough=40000)
def edited(case):
    """Children taken away or put elsewhere among their siblings, attributes set: the rest still agrees."""
    b = T.Building()
    for op in case:
        b.apply(op)
        if chosen(op):
            navigates(b)
    b.check()
    return navigates(b)


@sub("C25", "alike", st.tuples(T.built_element(), st.integers(1, 9), st.lists(st.one_of(T.operation, T.editing), max_size=5)).map(list), quick=400, thorough=10000)
def alike(case):
    """Rows of siblings which look just the same, some of them with children."""
    element, n, ops = case
    b = T.Building()
    root = b.build(b.top, ["svg", [], []])
    for i in range(n):
        b.build(root, [element[0], element[1], [[k, v] for k, v in element[2] if k != "id"]])
    for op in ops:
        navigates(b)
        b.apply(op)
    b.check()
    navigates(b)
    return n > 1


@sub("C25", "joined", st.tuples(T.trees(6), T.trees(6), st.integers(0, 20), T.built_element(), st.booleans()).map(list), quick=400, thorough=10000)
def joined(case):
    """A tree loaded elsewhere and added to a document belongs to it, with its ids."""
    from svgio.nodes import Document, Group

    one, two, at, element, loose = case
    b = T.Building()
    one = [one[0], one[1], one[2], one[3], None]
    two = [two[0], two[1], two[2], two[3], None]
    taken = {v for t in T.walk(one) for k, v in t[1] if k == "id"}
    for t in T.walk(two):
        t[1] = [[k, v] for k, v in t[1] if k != "id" or v not in taken]
    b.apply(["load", len(b.items()) - 1, one])
    if loose:  # loaded below a group that is in no document yet
        group = Group()
        group.parse(io.StringIO(T.render(two, [0])))
        require(len(group) == 1 and group[0].parent is group, "loading below a group gives it %d children", len(group))
        b.document.add(group)
        two = ["g", [], None, [two], None]
    else:
        b.document.add(Document(io.StringIO(T.render(two, [0])))[0])
    b.adopt(b.top, two, b.document[-1])
    items = b.items()
    b.build(items[at % len(items)], element)
    b.check()
    return navigates(b)


@sub("C25", "equal", st.tuples(T.trees(7), st.sampled_from(["same", "tag", "attr", "unset", "text", "tail", "space", "drop", "swap", "add"]), st.integers(0, 20), T.names, T.strings, T.tags).map(list), quick=500, thorough=20000)
def equal(case):
    """Nodes are equal nodes exactly when they look alike, with all below them, wherever they are."""
    import copy

    from svgio.nodes import Document

    one, how, at, name, value, tag = case
    two = copy.deepcopy(one)
    nodes = list(T.walk(two))
    node = nodes[at % len(nodes)]
    if how == "tag":
        node[0] = tag
    elif how == "attr":
        node[1] = [[k, v] for k, v in node[1] if k != name] + [[name, value]]
    elif how == "unset":
        node[1] = node[1][1:]
    elif how == "text":
        node[2] = value
    elif how == "tail" and node is not two:
        node[4] = value
    elif how == "space":  # texts and values which differ in white space, or in case
        spot = 2 if T.solid(node[2]) else 4
        if T.solid(node[spot]) and node is not two:
            node[spot] = (node[spot] + " ", " " + node[spot], node[spot].swapcase(), node[spot].replace(" ", "  "))[at % 4]
        elif node[1]:
            k, v = node[1][-1]
            node[1] = node[1][:-1] + [[k, (v + " ", " " + v, v.swapcase(), v.replace(" ", "  "))[at % 4]]]
    elif how == "drop":
        node[3] = node[3][:-1]
    elif how == "swap":
        node[3] = node[3][::-1]
    elif how == "add":
        node[3].append([tag, [[name, value]], None, [], None])
    a, b = Document(io.StringIO(T.render(one, [0]))), Document(io.StringIO(T.render(two, [1])))
    want = T.canonical(one) == T.canonical(two)
    for x, y in ((a[0], b[0]), (b[0], a[0]), (a, b)):
        require(x.is_equal_node(y) is want, "is_equal_node is %r for trees that %s", x.is_equal_node(y), "are alike" if want else "differ in: " + how)
    require(a[0].is_equal_node(a[0]) and not a[0].is_equal_node(None) and not a[0].is_equal_node(a), "equal to none, to the document, or not to itself")

    def pairs(n, t):
        yield n, t
        for c, u in zip(n, t[3]):
            yield from pairs(c, u)

    every = list(pairs(a[0], one))
    for n, t in every:
        for m, u in every:
            require(n.is_equal_node(m) is (T.canonical(t) == T.canonical(u)), "is_equal_node of %r and %r is %r", n, m, n.is_equal_node(m))
    return len(nodes) >= 3


@sub("C25", "large", st.tuples(T.trees(4), st.integers(0, 3), st.integers(20, 120), st.integers(0, 40), choices, st.lists(T.operation, max_size=4)).map(list), quick=60, thorough=3000)
def large(case):
    """Many siblings and deep nesting, with more built there."""
    tree, shape, n, step, ints, ops = case
    root = grown(tree, shape, n, step)
    b = T.Building()
    b.document.parse(io.BytesIO(T.encoded(T.render(root, ints), "utf-8")))
    b.adopt(b.top, root, b.document[0])
    for op in ops:
        b.apply(op)
    b.check()
    return navigates(b)
