"""C01: path data -> geometry, against the independent reader of vf/oracle/svgpath.py."""
from hypothesis import strategies as st

from ..big import STYLES, big_commands, long_text
from ..common import arcs, c, compare_arc, connected, defining, g, path_commands, path_text as plain_text, pt
from ..core import require, rule, sub
from ..oracle.svgpath import read
from ..textgen import path_text
from ..spoil import Twice

rule("C01", "cases are path data strings built from the grammar in random layouts (or an arc's parameters); "
     "non-trivial: more than one segment, with a relative command, a repetition, a smooth or arc command, an inline close, "
     "or packed numbers")


def compare_segments(got, want, what="path", whole=True):
    require(len(got) == len(want), "%s: %d segments %s instead of %d %s", what, len(got),
            "".join(defining(s)[0] for s in got), len(want), "".join(w[0] for w in want))
    for i, (s, w) in enumerate(zip(got, want)):
        d = defining(s)
        label = "%s: segment %d" % (what, i)
        require(d[0] == w[0], "%s is a %s, not a %s", label, d[0], w[0])
        scale = max([1.0] + [abs(z) for z in w if isinstance(z, complex)])
        tol = 1e-10 * scale
        pairs = list(zip(d[1:], (w[1], w[-1]) if w[0] == "A" else w[1:]))
        for j, (x, y) in enumerate(pairs):
            require((x is None) == (y is None), "%s point %d is %s, not %s", label, j, x, y)
            require(x is None or abs(x - y) <= tol, "%s (%s) point %d is %s, not %s", label, w[0], j, x, y)
        if w[0] == "A" and w[1] is not None:
            # judged from the arc's own (rounded) ends
            compare_arc(s, d[1], w[2], w[3], w[4], w[5], w[6], d[2], label)
    if whole:
        connected(got, what)


def interesting(text, segs):
    kinds = {s[0] for s in segs}
    letters = [ch for ch in text if ch.isalpha() and ch not in "eE"]
    return len(segs) > 1 and (
        any(ch.islower() for ch in letters) or len(segs) > len(letters) or kinds & set("QCA") or
        any(a.isdigit() and b in "-+." for a, b in zip(text, text[1:])))


@sub("C01", "grammar", path_text(max_commands=7), quick=1500, thorough=120000, weight=2)
def grammar(text):
    from svgio import Path
    Path = Twice(Path)

    want, ok = read(text)
    require(ok, "generator made bad text %r", text)
    compare_segments(list(Path(text)), want)
    return interesting(text, want)


@sub("C01", "long", st.one_of(long_text(), long_text(letters="TTSSQCLAZM"), long_text(most=40)), quick=150, thorough=12000)
def long_grammar(text):
    return grammar(text)


@sub("C01", "compact", path_text(max_commands=5, tight=True), quick=700, thorough=40000)
def compact(text):
    from svgio import Path
    Path = Twice(Path)

    want, ok = read(text)
    require(ok, "generator made bad text %r", text)
    compare_segments(list(Path(text)), want)
    return interesting(text, want)


@sub("C01", "smooth_chains", path_text(max_commands=8, letters="TTSSQCLAZM"), quick=500, thorough=30000)
def smooth_chains(text):
    return grammar(text)


@sub("C01", "appended", st.tuples(path_text(max_commands=4), path_text(max_commands=4, start_move=False), st.integers(0, 2)).map(list),
     quick=700, thorough=40000)
def appended(case):
    from svgio import Path
    Path = Twice(Path)

    one, two, how = case
    first, ok = read(one)
    second, ok2 = read(two, first)
    require(ok and ok2, "generator made bad text")
    p = Path(one)
    if how == 0:
        p += two
    elif how == 1:
        p.parse(two)
    else:
        p = Path()
        p += one
        p += two
    compare_segments(list(p), first + second)
    return interesting(two, second)


@sub("C01", "long appended", st.tuples(long_text(most=5), long_text(most=5, start_move=False), st.integers(0, 2)).map(list), quick=100, thorough=6000)
def long_appended(case):
    return appended(case)


@sub("C01", "fragments", path_text(max_commands=4, start_move=False, letters="LLQCMZTS", inline_z=False), quick=300, thorough=10000)
def fragments(text):
    """Data need not begin with a move: the segments are those of the text with the first start absent."""
    from svgio import Path
    Path = Twice(Path)

    want, ok = read(text)
    require(ok, "generator made bad text %r", text)
    if any(None in w[1:] for w in want[1:]) or want[0][-1] is None:
        return False  # begins with a close: where that ends is unknown
    compare_segments(list(Path(text)), want)
    return len(want) > 1


@sub("C01", "arcs", st.tuples(arcs(zero_radius=True, same_ends=True), st.booleans(), st.booleans()).map(list), quick=900, thorough=60000)
def arc_params(case):
    from svgio import Path
    Path = Twice(Path)

    (_, s, rx, ry, rot, la, sw, e), relative, negative = case
    s, e = c(s), c(e)
    if negative:
        rx, ry = -rx, (ry if rx else -ry)
    if relative:
        d = e - s
        text = "m%s,%sa%s,%s %s %s%s%s,%s" % (g(s.real), g(s.imag), g(rx), g(ry), g(rot), g(la), g(sw), g(d.real), g(d.imag))
    else:
        text = "M%s,%sA%s,%s %s %s%s%s,%s" % (g(s.real), g(s.imag), g(rx), g(ry), g(rot), g(la), g(sw), g(e.real), g(e.imag))
    p = Path(text)
    require(len(p) == 2, "%r gives %d segments", text, len(p))
    want, ok = read(text)
    compare_segments(list(p), want, repr(text))
    return s != e and rx != 0 and ry != 0


@sub("C01", "plain", path_commands(max_size=10), quick=300, thorough=20000)
def plain(commands):
    """Absolute data with arbitrary coordinates: the ends are the numbers written."""
    from svgio import Path
    Path = Twice(Path)

    text = plain_text(commands)
    want, ok = read(text)
    require(ok, "generator made bad text %r", text)
    p = Path(text)
    compare_segments(list(p), want)
    for cmd, seg in zip(commands, p):
        if isinstance(cmd[-1], list) and cmd[0] != "Z":
            require(pt(seg.end) == c(cmd[-1]), "%r ends at %s", cmd, pt(seg.end))
    return len(commands) > 2


@sub("C01", "long plain", big_commands(12, 120, styles=STYLES, zero_radius=True), quick=150, thorough=10000)
def long_plain(commands):
    return plain(commands)
