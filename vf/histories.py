"""Histories of path edits: generator, interpreter on svgio, and a list model with explicit linking."""
from hypothesis import strategies as st

from .big import big_commands, far_index, far_slices
from .common import anypair, c, defining, g, num, path_commands, path_text, pt
from .core import Violation, require
from .oracle.svgpath import read
from .spoil import chosen, touch

# ---------------------------------------------------------------- model
# an element: [kind, start, controls..., end, extra]; extra is the parameters of an arc with its own start


class Elem:
    __slots__ = ("k", "start", "mid", "end", "arc")

    def __init__(self, k, start, mid, end, arc=None):
        self.k, self.start, self.mid, self.end, self.arc = k, start, tuple(mid), end, arc

    def copy(self):
        return Elem(self.k, self.start, self.mid, self.end, self.arc)

    def same(self, o):
        return (self.k, self.start, self.mid, self.end) == (o.k, o.start, o.mid, o.end)

    def __repr__(self):
        return "%s(%s->%s)" % (self.k, self.start, self.end)


def elem(w):
    """From a segment tuple of the reference reader."""
    if w[0] == "A":
        return Elem("A", w[1], (), w[-1], (w[1], w[2:7], w[-1]))
    return Elem(w[0], w[1], w[2:-1], w[-1])


def elem_of_spec(s):
    if s[0] == "A":
        return Elem("A", c(s[1]), (), c(s[7]), (c(s[1]), tuple(s[2:7]), c(s[7])))
    return Elem(s[0], c(s[1]), [c(p) for p in s[2:-1]], c(s[-1]))


def link(model):
    """Connects a model in place: earlier ends are authoritative, closes go to the last move's end."""
    z = None
    prev = None
    for e, after in zip(model, model[1:]):
        if e.end is None and e.k != "Z":  # an end left open is where the next one starts
            e.end = after.start
    for e in model:
        if z is None or e.k == "M":
            z = e.end
        if prev is not None:
            if e.start is None:
                e.start = prev.end
            elif prev.end is None:
                prev.end = e.start
            else:
                e.start = prev.end
        if e.k == "Z" and z is not None:
            e.end = z
        prev = e


def near(a, b):
    """May compare equal."""
    x, y = (a.start,) + a.mid + (a.end,), (b.start,) + b.mid + (b.end,)
    return a.k == b.k and all(u is v or (u is not None and v is not None and abs(u - v) < 1e-6) for u, v in zip(x, y))


def complete(model):
    return all(e.end is not None and (i == 0 or e.start is not None) for i, e in enumerate(model)) and all(
        None not in e.mid for e in model)


# ---------------------------------------------------------------- operands

opt_start = st.one_of(st.none(), st.none(), anypair)


@st.composite
def seg_spec(draw):
    k = draw(st.sampled_from("MLLQCZZMA"))
    if k == "A":
        s, e = draw(anypair), draw(anypair)
        if s == e:
            e = [s[0] + 2, s[1]]
        return ["A", s, draw(st.integers(1, 9)), draw(st.integers(1, 9)), draw(st.sampled_from([0, 30, 90])),
                draw(st.booleans()), draw(st.booleans()), e]
    n = {"M": 0, "L": 0, "Z": 0, "Q": 1, "C": 2}[k]
    mid = [draw(anypair) for _ in range(n)]
    end = None if k == "Z" and draw(st.booleans()) else draw(anypair)
    return [k, draw(opt_start)] + mid + [end]


def make_seg(s):
    from .common import make

    return make(s)


fragment = st.one_of(
    path_commands(min_size=1, max_size=1, letters="MLQCZ", start_move=False),
    path_commands(min_size=1, max_size=4, letters="MLQCZA"),
    path_commands(min_size=1, max_size=4, letters="MLQCZ", start_move=False),
    path_commands(min_size=2, max_size=6, letters="MLHVQTCSAZ"),
)
some_text = st.one_of(fragment, fragment, fragment, fragment, fragment, st.just([]))  # now and then no commands at all
text_operand = some_text.map(lambda cm: ["str", cm])
seg_operand = seg_spec().map(lambda s: ["seg", s])
path_operand = some_text.map(lambda cm: ["path", cm])
list_operand = st.lists(seg_spec(), max_size=4).map(lambda l: ["list", l])
sub_operand = st.tuples(path_commands(min_size=1, max_size=7, letters="MLQZ"), st.integers(0, 4)).map(lambda t: ["sub", t[0], t[1]])

# the path itself, or one of its own subpaths
own_operand = st.one_of(st.none(), st.integers(0, 4)).map(lambda k: ["own", k])

index = st.integers(-9, 9)
bound = st.one_of(st.none(), st.integers(-8, 8))
slices = st.tuples(bound, bound, st.sampled_from([None, None, None, 1, 2, -1, -2, 3])).map(list)

points = st.lists(anypair, min_size=1, max_size=3)


@st.composite
def draw_op(draw):
    name = draw(st.sampled_from(["move", "line", "vertical", "horizontal", "quad", "smooth_quad", "cubic", "smooth_cubic", "arc", "closed"]))
    n = draw(st.integers(1, 2))
    rel = draw(st.booleans())
    per = {"move": 1, "line": 1, "quad": 2, "smooth_quad": 1, "cubic": 3, "smooth_cubic": 2}
    if name in per:
        args = [draw(anypair) for _ in range(per[name] * n)]
        if name != "move" and draw(st.integers(0, 7)) == 0:
            args[-1] = "z"
    elif name in ("vertical", "horizontal"):
        args = [draw(num) for _ in range(n)]
    elif name == "arc":
        args = []
        for _ in range(n):
            args += [draw(st.integers(1, 9)), draw(st.integers(1, 9)), draw(st.sampled_from([0, 45])), draw(st.booleans()),
                     draw(st.booleans()), draw(anypair)]
    else:
        args = []
    return ["draw", name, args, rel]


def op(index=index, slices=slices):
    return st.one_of(
        st.tuples(st.just("append"), st.one_of(text_operand, seg_operand)).map(list),
        st.tuples(st.just("insert"), index, st.one_of(text_operand, seg_operand)).map(list),
        st.tuples(st.just("set"), index, st.one_of(text_operand, seg_operand)).map(list),
        st.tuples(st.just("setslice"), slices, st.one_of(text_operand, path_operand, list_operand, sub_operand, own_operand)).map(list),
        st.tuples(st.just("del"), index).map(list),
        st.tuples(st.just("delslice"), slices).map(list),
        st.tuples(st.just("pop"), index).map(list),
        st.tuples(st.just("extend"), st.one_of(text_operand, path_operand, list_operand, sub_operand, own_operand)).map(list),
        st.tuples(st.just("iadd"), st.one_of(text_operand, path_operand, seg_operand, sub_operand, own_operand)).map(list),
        st.tuples(st.just("add"), st.one_of(text_operand, path_operand, seg_operand, sub_operand, own_operand)).map(list),
        st.tuples(st.just("remove"), index).map(list),
        st.sampled_from([["clear"]] + [["remove", i] for i in range(5)]),
        st.tuples(st.just("radd"), st.one_of(text_operand, seg_operand)).map(list),
        draw_op(),
    )


history = st.fixed_dictionaries({
    "init": st.one_of(st.just([]), path_commands(min_size=1, max_size=6), path_commands(min_size=2, max_size=8, letters="MLZQZ")),
    "ops": st.lists(op(), min_size=2, max_size=10),
})

long_history = st.fixed_dictionaries({
    "init": st.one_of(big_commands(10, 60), big_commands(15, 40, letters="MLZQZ", styles=("ints", "grid"))),
    "ops": st.lists(op(far_index, far_slices), min_size=2, max_size=14),
})


# ---------------------------------------------------------------- interpretation


def subpath_ranges(kinds):
    """Index ranges of the subpaths: each new one begins at a move."""
    cuts = [i for i, k in enumerate(kinds) if k == "M" and i > 0]
    starts = [0] + cuts
    ends = cuts + [len(kinds)]
    return list(zip(starts, ends))


def operand(o, context=None, model=None):
    """(svgio operand factory, model elements). context: the model a string is read after, for +=; model: the path's own."""
    from svgio import Path

    if o[0] == "str":
        text = path_text(o[1])
        segs, ok = read(text, [(e.k, e.start) + e.mid + (e.end,) if e.k != "A" else ("A", e.start, e.end) for e in context or ()])
        if not ok:
            return None, None
        return (lambda: text), [elem(w) for w in segs]
    if o[0] == "path":
        text = path_text(o[1])
        segs, ok = read(text)
        if not ok:
            return None, None
        return (lambda: Path(text)), [elem(w) for w in segs]
    if o[0] == "seg":
        return (lambda: make_seg(o[1])), [elem_of_spec(o[1])]
    if o[0] == "list":
        return (lambda: [make_seg(s) for s in o[1]]), [elem_of_spec(s) for s in o[1]]
    if o[0] == "own":
        return None, own(o, model)
    if o[0] == "sub":
        text = path_text(o[1])
        segs, ok = read(text)
        if not ok:
            return None, None
        ranges = subpath_ranges([w[0] for w in segs])
        k = o[2] % len(ranges)
        a, b = ranges[k]
        return (lambda: Path(text).subpath(k)), [elem(w) for w in segs[a:b]]
    raise KeyError(o[0])


def own(o, model):
    """The elements of the path itself or of its own subpath; where there are too many to go on doubling: Skip."""
    if len(model) > 40:
        raise Skip
    if o[1] is None:
        return [e.copy() for e in model]
    if not model:
        raise Skip
    ranges = subpath_ranges([e.k for e in model])
    a, b = ranges[o[1] % len(ranges)]
    return [e.copy() for e in model[a:b]]


def given(o, p, model, context=None):
    """The operand for the real path."""
    if o[0] == "own":
        return p if o[1] is None else p.subpath(o[1] % len(subpath_ranges([e.k for e in model])))
    return operand(o, context)[0]()


def draw_model(model, name, args, rel):
    """The elements a drawing command adds."""
    segs = [(e.k, e.start) + e.mid + (e.end,) if e.k != "A" else ("A", e.start, e.end) for e in model]

    def z():
        for s in reversed(segs):
            if s[0] == "M":
                return s[-1]
        return segs[0][-1]

    def P(a):
        return z() if a == "z" else c(a)

    def smooth(k):
        last = segs[-1]
        return 2 * last[-1] - last[-2] if last[0] == k else last[-1]

    n0 = len(segs)
    a = list(args)
    if name == "closed":
        segs.append(("Z", segs[-1][-1], z()))
    first = True
    while a:
        cur = segs[-1][-1] if segs else None
        if name == "move":
            segs.append(("M" if first else "L", cur, P(a.pop(0))))
        elif name == "line":
            segs.append(("L", cur, P(a.pop(0))))
        elif name == "vertical":
            v = a.pop(0)
            segs.append(("L", cur, complex(cur.real, v + (cur.imag if rel else 0))))
        elif name == "horizontal":
            v = a.pop(0)
            segs.append(("L", cur, complex(v + (cur.real if rel else 0), cur.imag)))
        elif name == "quad":
            segs.append(("Q", cur, P(a.pop(0)), P(a.pop(0))))
        elif name == "smooth_quad":
            segs.append(("Q", cur, smooth("Q"), P(a.pop(0))))
        elif name == "cubic":
            segs.append(("C", cur, P(a.pop(0)), P(a.pop(0)), P(a.pop(0))))
        elif name == "smooth_cubic":
            segs.append(("C", cur, smooth("C"), P(a.pop(0)), P(a.pop(0))))
        elif name == "arc":
            prm = [a.pop(0) for _ in range(5)]
            segs.append(("A", cur) + tuple(prm) + (P(a.pop(0)),))
        first = False
    return [elem(w) for w in segs[n0:]]


class Skip(Exception):
    pass


def apply_model(model, o):
    """Returns (new model, expected exception type or None). The model is linked afterwards."""
    m = [e.copy() for e in model]
    name = o[0]
    try:
        if name in ("append", "extend", "iadd", "add"):
            ctx = None
            if o[1][0] == "str" and name in ("iadd", "add"):
                ctx = m
            _, add = operand(o[1], ctx, m)
            if add is None:
                raise Skip
            m += add
        elif name == "insert":
            _, add = operand(o[2])
            if add is None:
                raise Skip
            i = slice(o[1], o[1])
            m[i] = add
        elif name == "set":
            _, add = operand(o[2])
            if add is None:
                raise Skip
            if not add:
                raise Skip
            if len(add) > 1:
                raise ValueError
            m[o[1]] = add[0]
        elif name == "setslice":
            _, add = operand(o[2], None, m)
            if add is None:
                raise Skip
            m[slice(*o[1])] = add
        elif name == "del":
            del m[o[1]]
        elif name == "delslice":
            del m[slice(*o[1])]
        elif name == "pop":
            m.pop(o[1])
        elif name == "clear":
            m = []
        elif name == "remove":
            i = o[1] % len(m) if m else 0
            if not m or any(near(m[i], e) for e in m[:i]):
                raise Skip  # another one compares equal
            del m[i]
        elif name == "radd":
            _, add = operand(o[1])
            if add is None:
                raise Skip
            m = add + m
        elif name == "draw":
            if o[1] != "move" and (not m or m[-1].end is None):
                raise Skip
            if o[1] == "arc":
                m2 = draw_model(m, o[1], o[2], o[3])
                if any(e.start == e.end for e in m2):
                    raise Skip
                m += m2
            else:
                m += draw_model(m, o[1], o[2], o[3])
    except (IndexError, ValueError) as e:
        return model, type(e)
    if m and m[0].end is None:
        raise Skip  # a close of unknown place at the front
    link(m)
    if not complete(m):
        raise Skip
    return m, None


def apply_real(p, o, model):
    """Performs the operation; returns the path (operators give a new one)."""
    from svgio import Path  # noqa

    name = o[0]
    if name == "append":
        p.append(operand(o[1])[0]())
    elif name == "insert":
        p.insert(o[1], operand(o[2])[0]())
    elif name == "set":
        p[o[1]] = operand(o[2])[0]()
    elif name == "setslice":
        p[slice(*o[1])] = given(o[2], p, model)
    elif name == "del":
        del p[o[1]]
    elif name == "delslice":
        del p[slice(*o[1])]
    elif name == "pop":
        expect = model[o[1]] if -len(model) <= o[1] < len(model) else None
        got = p.pop(o[1])
        d = defining(got)
        require(d[0] == expect.k and d[-1] == expect.end, "pop(%d) returned %s, not %r", o[1], d, expect)
    elif name == "extend":
        p.extend(given(o[1], p, model))
    elif name == "iadd":
        q = p
        q += given(o[1], p, model, model)
        require(q is p, "+= made a new path")
    elif name == "add":
        p = p + given(o[1], p, model, model)
    elif name == "clear":
        p.clear()
    elif name == "remove":
        from copy import copy

        p.remove(copy(p[o[1] % len(p)]))
    elif name == "radd":
        p = operand(o[1])[0]() + p
    elif name == "draw":
        args = [tuple(a) if isinstance(a, list) else a for a in o[2]]
        r = getattr(p, o[1])(*args, **({"relative": True} if o[3] else {}))
        require(r is p, "%s() did not return the path", o[1])
    return p


def start_path(case):
    """The initial path and its model, or None if the text is no path data."""
    from svgio import Path

    text = path_text(case["init"])
    segs, ok = read(text)
    if not ok:
        return None, None
    return Path(text), [elem(w) for w in segs]


def run(case, judge):
    """Walks the history; judge(path, model, before, op) after every operation. Returns the number of edits made."""
    p, model = start_path(case)
    if p is None:
        return 0
    judge(p, model, None, None)
    done = 0
    for o in case["ops"]:
        try:
            after, error = apply_model(model, o)
        except Skip:
            continue
        if chosen(o) and complete(model) and model and model[0].k == "M":
            touch(p)
        label = "%s %s" % (o[0], "" if len(o) < 2 else o[1] if o[0] not in ("append", "extend", "iadd", "add", "radd") else o[1][0])
        if error is not None:
            try:
                q = apply_real(p, o, model)
            except error:
                pass
            except Exception as e:
                raise Violation("%s raises %s, a list raises %s" % (label, type(e).__name__, error.__name__))
            else:
                raise Violation("%s passes, a list raises %s" % (label, error.__name__))
        else:
            p = apply_real(p, o, model)
            done += 1
        before, model = model, after
        judge(p, model, before, o)
    return done


def tolerance(model):
    return 1e-10 * max([1.0] + [abs(z) for e in model for z in (e.start, e.end) + e.mid if z is not None])
