"""C02: path -> path data -> independent reader gives the same geometry, for every output option."""
import math

from hypothesis import strategies as st

from ..big import STYLES, big_commands, long_text
from ..common import (anypair, arc_tolerance, c, closes_end_subpaths, connected, defining, geometry, invertible, kind, mapped, path_commands,
                      path_text as plain_text, pt, same_geometry, snapshot, TS)
from ..core import require, rule, sub
from ..oracle.geom import Ell, svg_arc
from ..oracle.svgpath import letters, read
from ..textgen import path_text
from ..spoil import Twice

rule("C02", "cases are a path (parsed, transformed or edited) with output options; non-trivial: at least two segments "
     "after the move, with a curve, relative command or transform among them")

OPTS = [None, True, False]


def six_digits(x):
    return float("%G" % x) == x


def arc_slack(d, arc):
    """Arc radii and rotation are printed with 6 digits: how far the arc read back may lie off."""
    s, e = d[1], d[-1]
    rx, ry, rot = float(arc.rx), float(arc.ry), math.degrees(float(arc.get_rotation()))
    size = max(abs(s), abs(e), rx, ry)
    if rx == 0 or ry == 0 or s == e:
        return 1e-9 * (1 + size)
    base = arc_tolerance(s, rx, ry, rot, abs(arc.sweep) > math.pi, arc.sweep > 0, e)
    rotd = rot % 360
    r = svg_arc(s, rx, ry, rot, False, False, e)
    if not isinstance(r, Ell):
        return 1e-6 * (1 + size)
    aspect = max(rx, ry) / min(rx, ry)
    rv = complex(math.cos(r.phi), math.sin(r.phi))
    h = (e - s) / 2 / rv
    lam = min(1.0, abs(complex(h.real / rx, h.imag / ry)))
    noise = (1e-12 if six_digits(rx) and six_digits(ry) and abs(rotd - round(rotd, 2)) < 1e-11 and lam < 0.9999 else 2e-5) * aspect * aspect
    k = math.sqrt(max(0.0, 1 - lam * lam))
    dk = min(math.sqrt(noise), noise / k if k else 1) + noise / max(lam, 1e-9)
    return base + 8 * max(rx, ry) * dk + noise * size


def compare(text, segs, what, least=1e-3):
    """The segments read from the text against [(defining, geometry, slack)]."""
    want, ok = read(text)
    require(ok, "%s: not well-formed path data: %r", what, text)
    require(len(want) == len(segs), "%s: %r has %d segments, the path %d", what, text, len(want), len(segs))
    n = len(segs)
    scale = max([least] + [abs(z) for d, _, _ in segs for z in d[1:] if z is not None])
    tol = 4e-12 * scale * (n + 3)
    for i, ((d, geo, slack), w) in enumerate(zip(segs, want)):
        require(d[0] == w[0], "%s: segment %d is a %s, written as a %s in %r", what, i, d[0], w[0], text)
        ws = (w[1], w[-1]) if w[0] == "A" else w[1:]
        for j, (x, y) in enumerate(zip(d[1:], ws)):
            if i == 0 and j == 0:
                continue
            require(x is not None and y is not None and abs(x - y) <= tol,
                    "%s: segment %d (%s) point %d is %s, written as %s in %r", what, i, d[0], j, x, y, text)
        if d[0] == "A":
            r = svg_arc(w[1], w[2], w[3], w[4], w[5], w[6], w[-1])
            pts = geo[3:]
            if r is None:
                require(abs(d[1] - d[-1]) <= tol, "%s: arc %d has vanished in %r", what, i, text)
                continue
            for t, x in zip(TS, pts):
                require(abs(r.at(t) - x) <= slack + tol, "%s: arc %d at t=%g is %s, written as %s in %r (tolerance %g)",
                        what, i, t, x, r.at(t), text, slack + tol)


def expected(segs, m=None):
    out = []
    for s in segs:
        d, geo = defining(s), geometry(s)
        slack = 0
        if d[0] == "A" and d[1] is not None:
            slack = arc_slack(d, s)
            if m is not None:
                n = max(abs(x) for x in m[:4])
                det = abs(m[0] * m[3] - m[1] * m[2])
                # the image arc has arbitrary radii: judge by its own ill-conditioning below
                slack = None
        if m is not None:
            d = (d[0],) + tuple(None if z is None else mapped(m, z) for z in d[1:])
            geo = (geo[0],) + tuple(None if z is None else mapped(m, z) for z in geo[1:])
        out.append([d, geo, slack])
    return out


def fill_slack(exp, image):
    for e, s in zip(exp, image):
        if e[2] is None:
            e[2] = arc_slack(defining(s), s) + 1e-9 * max(abs(z) for z in e[1][1:] if z is not None)
    return exp


def check_letters(text, relative, smooth, segs, flags, what):
    ls = [ch for ch in text if ch.isalpha() and ch not in "eE"]
    require(len(ls) == len(segs), "%s: %d commands for %d segments in %r", what, len(ls), len(segs), text)
    if relative is True:
        require(all(ch.islower() for ch in ls), "%s: absolute command in relative form %r", what, text)
    elif relative is False:
        require(all(ch.isupper() for ch in ls), "%s: relative command in absolute form %r", what, text)
    elif flags is not None:
        for i, (ch, f) in enumerate(zip(ls, flags)):
            require(ch.islower() == f.islower(), "%s: command %d was parsed from %r but is written %r", what, i, f, ch)
    if smooth is False:
        require(not any(ch in "sStT" for ch in ls), "%s: smooth shorthand although turned off in %r", what, text)
    elif smooth is None and flags is not None:
        for i, (ch, f) in enumerate(zip(ls, flags)):
            require(not (ch in "sStT") or f in "sStT", "%s: command %d was parsed from %r but is written %r", what, i, f, ch)
            require(not (f in "sStT" and ch not in "sStT" and reproduced(segs, i)),
                    "%s: command %d was parsed from %r, which stands for it, but is written %r", what, i, f, ch)


def reproduced(segs, i):
    """A smooth shorthand gives the control point of segment i exactly.

    Far from the origin the rounding of the reflection itself exceeds the 1e-12
    within which points count as the same, and either letter is right.
    """
    d, pd = defining(segs[i]), defining(segs[i - 1]) if i else (None,)
    if d[1] is None or max(abs(z) for z in d[1:] + pd[1:] if z is not None) > 1000:
        return False
    return d[2] == (d[1] + (pd[-1] - pd[-2]) if pd[0] == d[0] else d[1])


def all_forms(path, m=None, flags=None, opts=None):
    before = snapshot(path)
    raw = list(path)
    exp_raw = expected(raw)
    exp, written = exp_raw, raw
    if m is not None:
        written = list(abs(path))
        exp = fill_slack(expected(raw, m), written)
    for relative in OPTS:
        for smooth in OPTS:
            if opts and (relative, smooth) not in opts:
                continue
            what = "d(relative=%s, smooth=%s)" % (relative, smooth)
            text = path.d(relative=relative, smooth=smooth)
            compare(text, exp, what)
            check_letters(text, relative, smooth, written, flags, what)
            if m is not None:
                text = path.d(relative=relative, smooth=smooth, transformed=False)
                compare(text, exp_raw, what + " untransformed")
    require(str(path) == path.d(), "str(path) is %r but d() is %r", str(path), path.d())
    require(snapshot(path) == before, "writing the path data changed the path")


def nontrivial(path):
    return len(path) >= 3 and any(type(s).__name__ not in ("Move", "Line", "Close") for s in path)


@sub("C02", "parsed", path_text(max_commands=6), quick=350, thorough=30000, weight=2)
def parsed(text):
    from svgio import Path
    Path = Twice(Path)

    p = Path(text)
    all_forms(p, None, letters(text))
    return nontrivial(p) or any(ch.islower() for ch in text)


@sub("C02", "coordinates", path_commands(max_size=6), quick=250, thorough=20000)
def coordinates(commands):
    """Arbitrary coordinates, including very large and small ones."""
    from svgio import Path
    Path = Twice(Path)

    p = Path(plain_text(commands))
    all_forms(p)
    return nontrivial(p)


@sub("C02", "magnitudes", st.tuples(path_commands(min_size=2, max_size=6, letters="MLHVQCZ"), st.sampled_from([-12, -10, -8, -5, 4, 7, 10, 14]), st.sampled_from([1, -1, 0.9])).map(list), quick=200, thorough=15000)
def magnitudes(case):
    """As many digits are written of tiny coordinates and of huge ones. (No shorthands: points nearer than 1e-12 count as the same.)"""
    from svgio import Path
    Path = Twice(Path)

    commands, power, f = case
    f *= 10.0 ** power
    p = Path(plain_text([cmd[:1] + [[v * f for v in a] if isinstance(a, list) else a * f for a in cmd[1:]] for cmd in commands]))
    exp = expected(list(p))
    for relative in OPTS:
        compare(p.d(relative=relative, smooth=False), exp, "d(relative=%s)" % relative, 0)
    for sp in p.as_subpaths():
        if kind(list(sp)[0]) == "M":
            compare(sp.d(smooth=False), expected(list(sp)), "subpath d()", 0)
    for s in p:
        if kind(s) not in "ZM":
            compare(str(s), [[("M", None, pt(s.start)), ("M", None, pt(s.start)), 0]] + expected([s]), "str(%s)" % type(s).__name__, 0)
    return nontrivial(p)


@sub("C02", "long", st.one_of(long_text(most=8), long_text(most=8, letters="TTSSQCLAZM")), quick=60, thorough=5000)
def long_parsed(text):
    return parsed(text)


@sub("C02", "long coordinates", big_commands(10, 60, styles=STYLES), quick=80, thorough=6000)
def long_coordinates(commands):
    return coordinates(commands)


@sub("C02", "transformed", st.tuples(path_text(max_commands=4), invertible()).map(list), quick=250, thorough=20000)
def transformed(case):
    from svgio import Matrix, Path
    Path = Twice(Path)

    text, m = case
    p = Path(text) * Matrix(*m)
    all_forms(p, m, letters(text))
    return nontrivial(p) and m != [1, 0, 0, 1, 0, 0]


@sub("C02", "edited", st.tuples(path_text(max_commands=7, letters="MLSTSTQCZ"), st.lists(st.tuples(
    st.sampled_from(["del", "ins", "rev", "rel", "move", "cut"]), st.integers(0, 20), anypair).map(list), min_size=1, max_size=3)).map(list),
     quick=350, thorough=30000)
def edited(case):
    """After edits the stored smooth and relative marks may no longer fit: the data written must.
    (No arcs: an arc whose start an edit has moved is no longer an arc of its ellipse.)"""
    from svgio import Line, Matrix, Move, Path
    Path = Twice(Path)

    text, ops = case
    p = Path(text)
    for op, i, xy in ops:
        n = len(p)
        if op == "del" and n > 2:
            k = 1 + i % (n - 1)
            del p[k]
        elif op == "cut" and n > 3:
            k = 1 + i % (n - 1)
            del p[k:k + 2]
        elif op == "ins":
            p.insert(1 + i % n, Line(None, tuple(xy)))
        elif op == "rev":
            if closes_end_subpaths(p):
                p.reverse()
        elif op == "rel":
            p[i % n].relative = bool(i & 1)
        elif op == "move" and n > 1:
            p.insert(1 + i % n, Move(None, tuple(xy)))
    connected(list(p))
    all_forms(p)
    for n, (op, i, xy) in enumerate(ops):  # once written: marks, places and points changed again
        s = p[i % len(p)]
        if op in ("rel", "cut"):
            form = OPTS[i % 3]
            p.d(smooth=form)
            s.relative = not s.relative
            text = p.d(smooth=form)
            ch = [ch for ch in text if ch.isalpha() and ch not in "eE"][i % len(p)]
            require(ch.islower() == bool(s.relative), "segment %d, then marked relative=%s, is written %r", i % len(p), s.relative, ch)
        elif op == "rev" and hasattr(s, "smooth"):
            s.smooth = not s.smooth
        elif op == "move":
            p *= Matrix(1, 0.5, 0, 2, xy[0], xy[1])
            p.reify()
        elif op == "ins" and kind(s) in "QC":
            z = s.control if kind(s) == "Q" else s.control2
            z.x, z.y = xy
        else:
            continue
        all_forms(p)
    return nontrivial(p)


@sub("C02", "reversed", st.tuples(path_text(max_commands=6, letters="LSTQCAAM"), st.lists(st.integers(0, 40), max_size=4)).map(list), quick=200, thorough=15000)
def reversed_(case):
    from svgio import Path
    Path = Twice(Path)

    text, rel = case
    p = Path(text)
    if not closes_end_subpaths(p):
        return False
    p.reverse()
    for i in rel:
        p[i % len(p)].relative = bool(i & 1)
    all_forms(p)
    return nontrivial(p)


@sub("C02", "subpaths", path_text(max_commands=8, letters="MLTSQCAZM"), quick=250, thorough=20000)
def subpaths(text):
    from svgio import Path
    Path = Twice(Path)

    p = Path(text)
    before = snapshot(p)
    flags = letters(text)
    n = 0
    for sp in p.as_subpaths():
        segs = list(sp)
        if type(segs[0]).__name__ != "Move":
            continue
        exp = expected(segs)
        for relative in OPTS:
            for smooth in OPTS:
                what = "subpath d(relative=%s, smooth=%s)" % (relative, smooth)
                t = sp.d(relative=relative, smooth=smooth)
                compare(t, exp, what)
                check_letters(t, relative, smooth, segs, flags[n:n + len(segs)], what)
        require(str(sp) == sp.d(), "str(subpath) is %r, not %r", str(sp), sp.d())
        n += len(segs)
    require(snapshot(p) == before, "writing subpath data changed the path")
    return p.count_subpaths() > 1


@sub("C02", "long subpaths", long_text(most=10, letters="MLTSQCAZM"), quick=50, thorough=4000)
def long_subpaths(text):
    return subpaths(text)


@sub("C02", "smooth_on", st.tuples(st.sampled_from([["Q"], ["C"], ["Q", "C"]]), st.lists(st.tuples(anypair, anypair, st.integers(0, 1)).map(list), min_size=2, max_size=6),
                                   anypair, anypair, st.booleans()).map(list), quick=300, thorough=12000)
def smooth_on(case):
    """Explicit curves whose controls are exact reflections are written with shorthands when asked (after a curve of
    the same kind: after another kind no shorthand stands for them), and read back."""
    from svgio import Path
    Path = Twice(Path)

    kinds, steps, start, control, relative = case
    start, control = [round(v * 8) / 8 for v in start], [round(v * 8) / 8 for v in control]
    cur, ctl = start, control
    cmds = [["M", start]]
    for a, b, k in steps:
        k = kinds[k % len(kinds)]
        a, b = [round(v * 8) / 8 for v in a], [round(v * 8) / 8 for v in b]
        if k == "Q":
            cmds.append(["Q", ctl, b])
            last = ctl
        else:
            cmds.append(["C", ctl, a, b])
            last = a
        cur = b
        ctl = [2 * cur[0] - last[0], 2 * cur[1] - last[1]]
    p = Path(plain_text(cmds))
    text = p.d(relative=relative, smooth=True)
    compare(text, expected(list(p)), "smooth=True")
    ls = "".join(ch for ch in text if ch.isalpha() and ch != "E").upper()
    if max(abs(v) for cmd in cmds for q in cmd[1:] for v in q) < 1e5:
        for i in range(2, len(cmds)):
            if cmds[i][0] == cmds[i - 1][0]:
                require(ls[i] == ("T" if cmds[i][0] == "Q" else "S"), "shorthands missing with smooth=True in %r", text)
    for i in range(1, len(p)):
        want = cmds[i][0] == cmds[i - 1][0]
        if want and max(abs(v) for cmd in cmds for q in cmd[1:] for v in q) < 1e5:
            require(p[i].is_smooth_from(p[i - 1]), "segment %d of %s continues the one before smoothly, is_smooth_from says no", i, p)
    all_forms(p)
    return len(steps) > 2


near = st.tuples(st.integers(-99, 99), st.integers(-99, 99)).map(list)


@sub("C02", "nearly smooth", st.tuples(st.lists(st.tuples(st.sampled_from("QQCCL"), near, near, near, st.sampled_from([0, 1e-4, -1e-5, 1e-6, -1e-7, 1e-8, 1e-9]), st.integers(0, 3)).map(list), min_size=2, max_size=6),
                                       near, st.sampled_from([None, True, False])).map(list), quick=300, thorough=12000)
def nearly_smooth(case):
    """A curve which continues the one before only nearly smoothly (or a straight line nearly) is written with its own control point."""
    from svgio import Path

    steps, start, relative = case
    cur, ctl = start, None
    cmds = [["M", start]]
    off = 0
    for k, a, b, own, eps, way in steps:
        first = ctl or own
        handle = max(abs(first[0] - cur[0]), abs(first[1] - cur[1]), 1)
        dx, dy = [(eps, 0), (0, eps), (eps, eps), (eps * (first[0] - cur[0]), eps * (first[1] - cur[1]))][way]
        first = [first[0] + handle * dx, first[1] + handle * dy]
        off += bool(eps) and k != "L"
        cmds.append({"Q": ["Q", first, b], "C": ["C", first, a, b], "L": ["L", b]}[k])
        last = {"Q": first, "C": a, "L": b}[k]
        cur = b
        ctl = [2 * cur[0] - last[0], 2 * cur[1] - last[1]]
    p = Path(plain_text(cmds))
    compare(p.d(relative=relative, smooth=True), expected(list(p)), "smooth=True")
    all_forms(p)
    return off > 1


def at(z, letter="M"):
    return "%s%r,%r " % (letter, z.real, z.imag)


@sub("C02", "segments", st.tuples(path_text(max_commands=6, letters="LSTQCAAMZ"), st.lists(st.integers(0, 40), max_size=3)).map(list), quick=250, thorough=15000)
def segments(case):
    """Each segment by itself: its string, and its part of path data in each form after what precedes it."""
    from svgio import Path
    Path = Twice(Path)

    text, rel = case
    p = Path(text)
    for i in rel:
        p[i % len(p)].relative = bool(i & 2)
    before = snapshot(p)
    segs = list(p)
    prev = None
    for s in segs:
        d = defining(s)
        k = d[0]
        exp = expected([s])
        if k not in "ZM":
            compare(str(s), [[("M", None, d[1]), ("M", None, d[1]), 0]] + exp, "str(%s)" % type(s).__name__)
            require(sum(ch.isalpha() and ch not in "eE" for ch in str(s)) == 2, "the text of a segment is %r", str(s))
        elif k == "M" and d[1] is None:
            compare(str(s), exp, "str(Move)")
        if prev is not None:
            # what precedes, then the segment
            pd = defining(prev)
            head = [[("M", None, d[1]), ("M", None, d[1]), 0]]
            if k == "Z":
                head = [[("M", None, d[2]), ("M", None, d[2]), 0], [("L", d[2], d[1]), ("L", d[2], d[1]), 0]]
                pre = at(d[2]) + at(d[1], "L")
            else:
                pre = at(d[1])
            for relative in OPTS:
                for smooth in (False, None):
                    if smooth is None and k in "QC" and s.smooth and not s.is_smooth_from(None):
                        continue
                    t = s.d(s.start, relative=relative, smooth=smooth)
                    compare(pre + t, head + exp, "segment d(relative=%s, smooth=%s)" % (relative, smooth))
                    low = s.relative if relative is None else relative
                    require(t[0].islower() == bool(low), "a segment marked relative=%s is written %r with relative=%s", s.relative, t, relative)
                    if smooth is False:
                        require(t[0] not in "sStT", "the smooth form %r although turned off", t)
                if k in "QC" and pd[0] in "QC":
                    smooth = s.is_smooth_from(prev)
                    t = s.d(s.start, relative=relative, smooth=smooth)
                    require((t[0] in "sStT") == smooth, "is_smooth_from is %s, but the segment is written %r", smooth, t)
                    compare(at(pd[1]) + prev.d(smooth=False) + " " + t, [[("M", None, pd[1]), ("M", None, pd[1]), 0]] + expected([prev]) + exp, "segment after its neighbour")
            t = s.d(smooth=False)
            require(t[0].isupper(), "without a current point the relative form %r is written", t)
            compare(pre + t, head + exp, "segment d()")
        prev = s
    require(snapshot(p) == before, "writing segments changed the path")
    return nontrivial(p)
