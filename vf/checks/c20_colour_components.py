"""C20: colour components read and write independently and consistently."""
import math

from hypothesis import strategies as st

from ..core import require, rule, sub
from ..spoil import Twice
from .c19_colour_text import byte, channels, consistent, hsl_rgb, is_colour, near_channels, rounded

rule("C20", "cases are colours with sequences of component writes, or pairs of colours; non-trivial: at least two writes which "
     "change the colour, or two different colours")

edge = st.one_of(byte, st.sampled_from([0, 255, 1, 254, 127, 128]))
colour = st.tuples(edge, edge, edge, st.one_of(edge, st.just(255))).map(list)

write = st.one_of(
    st.tuples(st.sampled_from(["red", "green", "blue", "alpha"]), st.one_of(byte, st.integers(-300, 600))),
    st.tuples(st.just("opacity"), st.one_of(st.integers(0, 1000).map(lambda i: i / 1000), st.floats(0, 1), st.sampled_from([-0.5, 1.5, 2.0, -3.0, 0, 1]))),
    st.tuples(st.just("rgb"), st.integers(0, 0xFFFFFF)),
    st.tuples(st.sampled_from(["rgba", "argb"]), st.integers(0, 0xFFFFFFFF)),
    st.tuples(st.just("hue"), st.one_of(st.integers(-400, 800), st.floats(0, 360))),
    st.tuples(st.sampled_from(["saturation", "lightness"]), st.one_of(st.integers(0, 100).map(lambda i: i / 100), st.floats(0, 1))),
).map(list)


def hsl_of(r, g, b):
    r, g, b = r / 255, g / 255, b / 255
    hi, lo = max(r, g, b), min(r, g, b)
    l = (hi + lo) / 2
    if hi == lo:
        return 0.0, 0.0, l
    d = hi - lo
    s = d / (1 - abs(2 * l - 1))
    if hi == r:
        h = ((g - b) / d) % 6
    elif hi == g:
        h = (b - r) / d + 2
    else:
        h = (r - g) / d + 4
    return 60 * h, s, l


def same_direction(a, b):
    return min((a - b) % 360, (b - a) % 360) < 1e-6


def readings(c, v, what):
    h, s, l = hsl_of(*v[:3])
    require(same_direction(c.hue, h), "hue of %s is %r, not %r", what, c.hue, h)
    require(abs(c.saturation - s) < 1e-9, "saturation of %s is %r, not %r", what, c.saturation, s)
    require(abs(c.lightness - l) < 1e-9, "lightness of %s is %r, not %r", what, c.lightness, l)
    require(0 <= c.hue <= 360, "hue of %s is %r", what, c.hue)
    t = c.hsl
    require(t == (c.hue, c.saturation, c.lightness), "hsl of %s is %s", what, t)
    r, g, b = (x / 255 for x in v[:3])
    for name, w in (("brightness", max(r, g, b)), ("blackness", 1 - max(r, g, b)), ("luma", 0.2126 * r + 0.7152 * g + 0.0722 * b),
                    ("luminance", 0.3 * r + 0.59 * g + 0.11 * b)):
        require(abs(getattr(c, name) - w) < 1e-9, "%s of %s is %r, not %r", name, what, getattr(c, name), w)
    require(abs(c.intensity - (r + g + b) / 3) < 0.005, "intensity of %s is %r", what, c.intensity)


@sub("C20", "histories of writes", st.tuples(colour, st.lists(write, min_size=1, max_size=8)).map(list), quick=4000, thorough=300000, weight=2)
def histories(case):
    from svgio import Color
    Color = Twice(Color)

    v, writes = case
    c = Color(*v)
    v = list(v)
    said = ["Color(%d, %d, %d, %d)" % tuple(v)]
    changes = 0
    for name, x in writes:
        before = list(v)
        setattr(c, name, x)
        said.append("%s = %r" % (name, x))
        what = "; ".join(said)
        if name in ("red", "green", "blue", "alpha"):
            v[("red", "green", "blue", "alpha").index(name)] = max(0, min(255, x))
        elif name == "opacity":
            ok = rounded(255 * max(0.0, min(1.0, x)))
            require(c.alpha in ok, "%s: alpha is %r, not %s", what, c.alpha, sorted(ok))
            v[3] = c.alpha
            require(abs(c.opacity - max(0.0, min(1.0, x))) <= 0.5 / 255 + 1e-9, "%s: opacity reads %r", what, c.opacity)
        elif name == "rgb":
            v = [x >> 16, x >> 8 & 255, x & 255, 255]
        elif name == "rgba":
            v = [x >> 24, x >> 16 & 255, x >> 8 & 255, x & 255]
        elif name == "argb":
            v = [x >> 16 & 255, x >> 8 & 255, x & 255, x >> 24]
        else:
            hsl = list(hsl_of(*before[:3]))
            hsl[("hue", "saturation", "lightness").index(name)] = x
            got = channels(c)
            near_channels(got, hsl_rgb(*hsl), what)
            require(got[3] == before[3], "%s: alpha changed from %d to %d", what, before[3], got[3])
            v = list(got)
        if v != before:
            changes += 1
        is_colour(c, v, what)
        readings(c, v, what)
    consistent(c, what)
    return changes >= 2


ALIASES = {"red": ["red", "r"], "green": ["green", "g"], "blue": ["blue", "b"], "hue": ["hue", "h"], "saturation": ["saturation", "s"], "lightness": ["lightness", "l"]}


@sub("C20", "keywords", st.tuples(colour, write, st.integers(0, 1), st.integers(0, 4)).map(list), quick=1500, thorough=60000)
def keywords(case):
    """A component given by name to the constructor is as one written afterwards."""
    from svgio import Color
    Color = Twice(Color)

    v, (name, x), alias, form = case
    words = ALIASES.get(name, [name])
    base = Color(*v)
    want = Color(*v)
    args = [(base,), (base.hexa,), tuple(v), (base.rgb, base.opacity), (base.hex, base.opacity)][form]
    if form in (3, 4):
        want = Color(*args)
    setattr(want, name, x)
    word = words[alias % len(words)]
    got = Color(*args, **{word: x})
    require(channels(got) == channels(want) and got == want, "Color(*%s, %s=%r) is %s, not %s", args, word, x, channels(got), channels(want))
    is_colour(base, v, "the colour given")
    return channels(got) != v


@sub("C20", "hsl", st.tuples(colour, st.floats(-400, 800), st.floats(0, 1), st.floats(0, 1), st.booleans()).map(list), quick=2000, thorough=120000)
def hsl(case):
    from svgio import Color
    Color = Twice(Color)

    v, h, s, l, as_list = case
    c = Color(*v)
    c.hsl = [h, s, l] if as_list else (h, s, l)
    near_channels(channels(c), hsl_rgb(h, s, l), "hsl = %r" % ((h, s, l),))
    require(c.alpha == v[3], "hsl = %r changed alpha from %d to %d", (h, s, l), v[3], c.alpha)
    readings(c, channels(c), "hsl = %r" % ((h, s, l),))
    for d in (Color(h=h, s=s, l=l), Color(hue=h, saturation=s, lightness=l)):
        require(type(d.value) is int and all(0 <= x <= 255 for x in channels(d)), "Color(h=, s=, l=) is %s", d)
    # writing what is read changes nothing, within rounding
    d = Color(*v)
    t = d.hsl
    d.hsl = t
    require(all(abs(a - b) <= 1 for a, b in zip(channels(d), v)) and d.alpha == v[3], "writing the hsl of %s back gives %s", v, channels(d))
    d = Color(*v)
    for name in ("hue", "saturation", "lightness"):
        d = Color(*v)
        setattr(d, name, getattr(d, name))
        require(all(abs(a - b) <= 1 for a, b in zip(channels(d), v)), "writing the %s of %s back gives %s", name, v, channels(d))
    return len(set(v[:3])) > 1


@sub("C20", "compositing", st.tuples(colour, colour, st.integers(0, 8), st.one_of(st.none(), st.integers(0, 100).map(lambda i: i / 100))).map(list), quick=3000, thorough=200000)
def compositing(case):
    from svgio import Color
    Color = Twice(Color)

    a, b, form, op = case
    A, B = Color(*a), Color(*b)

    def arg(c):
        f = (form + (c is B) * (form // 3)) % 3  # either may be text or a number on its own
        return c.hexa if f == 1 else c.rgb if f == 2 and c.alpha == 255 else c

    def judge(value, top, bottom, what):
        require(type(value) is int and 0 <= value <= 0xFFFFFFFF, "%s is %r", what, value)
        got = channels(Color(rgba=value))
        a1, a2 = top[3] / 255, bottom[3] / 255
        ao = a1 + a2 * (1 - a1)
        require(abs(got[3] - 255 * ao) <= 0.5 + 1e-6, "%s has alpha %d, not %.3f", what, got[3], 255 * ao)
        if ao == 0:
            return
        for i, name in enumerate(("red", "green", "blue")):
            w = (top[i] * a1 + bottom[i] * a2 * (1 - a1)) / ao
            # rounded, or rounded down
            require(abs(got[i] - w) <= 0.5 or -1e-6 <= w - got[i] < 1, "%s has %s %d, not %.3f", what, name, got[i], w)

    judge(Color.over(arg(A), arg(B)), a, b, "%s over %s" % (a, b))
    is_colour(A, a, "the colour above after compositing")
    is_colour(B, b, "the colour below after compositing")
    require(Color.over(Color(*(a[:3] + [255])), B) == Color(*(a[:3] + [255])).value, "an opaque colour over another is not itself")
    require(Color.over(Color(*(a[:3] + [0])), B) == B.value, "a transparent colour over another is not the other")
    # blending in place
    C = Color(*b)
    if op is None:
        r = C.blend(arg(A))
        judge(C.value, a, b, "%s blended with %s" % (b, a))
    else:
        r = C.blend(arg(A), op)
        alphas = sorted(rounded(op * 255))
        t = [a[:3] + [x] for x in alphas]
        judge(C.value, t[min(range(len(t)), key=lambda i: abs(alphas[i] - int(round(op * 255))))], b, "%s blended with %s at %r" % (b, a, op))
    is_colour(A, a, "the colour blended in")
    return a != b and 0 < a[3] < 255


@sub("C20", "distance", st.tuples(colour, colour, st.integers(0, 8)).map(list), quick=3000, thorough=200000)
def distance(case):
    from svgio import Color
    Color = Twice(Color)

    a, b, form = case
    A, B = Color(*a), Color(*b)

    def arg(c):
        f = (form + (c is B) * (form // 3)) % 3
        return c.hexa if f == 1 else c.rgb if f == 2 else c

    d2 = Color.distance_sq(arg(A), arg(B))
    d = Color.distance(arg(A), arg(B))
    require(abs(d - math.sqrt(d2)) < 1e-9 * (1 + d), "distance of %s, %s is %r, its square %r", a, b, d, d2)
    require(d2 == Color.distance_sq(B, A) and d == Color.distance(B, A), "distance of %s, %s is not symmetric", a, b)
    require(A.distance_to(arg(B)) == d and B.distance_to(A) == d, "distance_to of %s, %s is %r", a, b, A.distance_to(B))
    require(d >= 0 and d2 >= 0, "distance of %s, %s is %r", a, b, d)
    rm = (a[0] + b[0]) / 2
    r, g, bl = (x - y for x, y in zip(a[:3], b[:3]))
    w = (2 + rm / 256) * r * r + 4 * g * g + (2 + (255 - rm) / 256) * bl * bl
    # the formula is evaluated in integers
    require(abs(d2 - w) <= 2 + (r * r + bl * bl) / 512 + 1e-9, "squared distance of %s, %s is %r, not %r", a, b, d2, w)
    require((d == 0) == (a[:3] == b[:3]), "distance of %s, %s is %r", a, b, d)
    is_colour(A, a, "a colour after measuring")
    is_colour(B, b, "a colour after measuring")
    return a[:3] != b[:3]


near_cube = st.one_of(st.integers(0, 200), st.tuples(st.integers(0, 200), st.integers(-3, 3)).map(lambda t: max(0, t[0] ** 3 + t[1])), st.integers(0, 200 ** 3))


@sub("C20", "distinct colours", st.lists(near_cube, min_size=2, max_size=60).map(lambda l: sorted(set(l))), quick=500, thorough=20000)
def distinct(case):
    from svgio import Color
    Color = Twice(Color)

    seen = {}
    for i in case:
        c = Color.distinct(i)
        require(c.alpha == 255 and Color.distinct(i) == c, "distinct(%d) is %s", i, c)
        require(c.rgb not in seen, "distinct(%d) and distinct(%s) are both %s", i, seen.get(c.rgb), c)
        seen[c.rgb] = i
    return len(case) > 1


@sub("C20", "the first distinct colours", st.integers(0, 9).map(lambda k: [600 * k, 600 * k + 600]), quick=10, thorough=10)
def first_distinct(case):
    from svgio import Color
    Color = Twice(Color)

    seen = {}
    for i in range(case[1]):
        c = Color.distinct(i)
        require(c.rgb not in seen, "distinct(%d) and distinct(%s) are both %s", i, seen.get(c.rgb), c)
        seen[c.rgb] = i
    return True
