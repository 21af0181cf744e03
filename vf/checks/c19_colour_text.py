"""C19: colours parse to the red, green, blue and alpha CSS defines."""
import colorsys

from hypothesis import strategies as st

from ..common import cleanf, g
from ..core import require, rule, sub
from ..oracle.colors import KEYWORDS
from ..spoil import Twice

rule("C19", "cases are colour texts of every form with the channels they mean; non-trivial: the channels are not all equal, or "
     "the alpha is not opaque (keywords and hex: every case)")

ws = st.sampled_from(["", "", "", "", " ", "\n", "\t", "  "])
byte = st.integers(0, 255)
alpha = st.one_of(st.none(), st.none(), st.sampled_from([0, 1, 0.5, 0.25, 0.1]), st.integers(0, 1000).map(lambda i: i / 1000), st.sampled_from([-0.5, 1.5, 2, -1]))


def channels(c):
    return (c.red, c.green, c.blue, c.alpha)


def is_colour(c, want, what):
    got = channels(c)
    require(all(type(x) is int and 0 <= x <= 255 for x in got), "%s has channels %s", what, got)
    require(got == tuple(want), "%s is %s, not %s", what, got, tuple(want))


def consistent(c, what):
    """The packed and textual forms of a colour, read back."""
    from svgio import Color
    Color = Twice(Color)

    r, gr, b, a = channels(c)
    require(c.rgba == r << 24 | gr << 16 | b << 8 | a, "rgba of %s is %r", what, c.rgba)
    require(c.argb == a << 24 | r << 16 | gr << 8 | b, "argb of %s is %r", what, c.argb)
    require(c.rgb == r << 16 | gr << 8 | b, "rgb of %s is %r", what, c.rgb)
    require(int(c) == c.rgba, "int of %s is %r", what, int(c))
    require(abs(c.opacity - a / 255) < 1e-12, "opacity of %s is %r", what, c.opacity)
    require(c.hexa == "#%02x%02x%02x%02x" % (r, gr, b, a), "hexa of %s is %r", what, c.hexa)
    h = "#%02x%02x%02x" % (r, gr, b) if a == 255 else c.hexa
    require(c.hex == h and str(c) == h, "hex of %s is %r, str %r", what, c.hex, str(c))
    names = {"Color": Color}
    for name, back in (("hex", Color(c.hex)), ("hexa", Color(c.hexa)), ("str", Color(str(c))), ("repr", eval(repr(c), names)),
                       ("rgba", Color(rgba=int(c))), ("argb", Color(argb=c.argb)), ("channels", Color(r, gr, b, a)), ("Color", Color(c))):
        is_colour(back, (r, gr, b, a), "the colour read back from the %s of %s" % (name, what))
        require(back == c and c == back and not (back != c), "the colour read back from the %s of %s is not equal", name, what)
    require(c == c.hex and not (c != c.hexa) and c == c.hexa, "%s is not equal to its own text", what)
    is_colour(Color(c.rgb), (r, gr, b, 255), "Color(rgb) of %s" % what)
    is_colour(Color(r, gr, b), (r, gr, b, 255), "Color(r, g, b) of %s" % what)
    is_colour(abs(c), (r, gr, b, 255), "abs of %s" % what)
    is_colour(c, (r, gr, b, a), what + " afterwards")


def with_opacity(make, want, what, op):
    """An opacity argument sets the alpha and nothing else."""
    from svgio import Color
    Color = Twice(Color)

    a = max(0.0, min(1.0, op)) * 255
    for c in (make(op), make(None, op)):
        got = channels(c)
        require(got[:3] == tuple(want[:3]), "%s with opacity %r is %s", what, op, got)
        require(abs(got[3] - a) <= 0.5 + 1e-9, "%s with opacity %r has alpha %r", what, op, got[3])


def opacities(text, want, op):
    from svgio import Color
    Color = Twice(Color)

    with_opacity(lambda o, k=None: Color(text, o) if k is None else Color(text, opacity=k), want, repr(text), op)


def cased(draw, word):
    mode = draw(st.integers(0, 4))
    if mode <= 1:
        return word
    if mode == 2:
        return word.upper()
    return "".join(ch.upper() if draw(st.booleans()) else ch for ch in word)


@st.composite
def keyword_case(draw):
    name = draw(st.sampled_from(sorted(KEYWORDS) + ["transparent"]))
    return [draw(ws) + cased(draw, name) + draw(ws), name, draw(st.sampled_from([0, 1, 0.5, 0.2, 0.75, -1, 3]))]


@sub("C19", "keywords", keyword_case(), quick=2500, thorough=40000)
def keywords(case):
    from svgio import Color
    Color = Twice(Color)

    text, name, op = case
    want = (0, 0, 0, 0) if name == "transparent" else KEYWORDS[name] + (255,)
    is_colour(Color(text), want, "Color(%r)" % text)
    consistent(Color(text), repr(text))
    require(Color(text) == Color(name) and Color(name) == text, "%r is not equal to %r", text, name)
    opacities(text, want, op)
    return True


@sub("C19", "every keyword", st.just(sorted(KEYWORDS)), quick=1, thorough=1)
def all_keywords(names):
    from svgio import Color
    Color = Twice(Color)

    for name in names:
        is_colour(Color(name), KEYWORDS[name] + (255,), "Color(%r)" % name)
        is_colour(Color(name.upper()), KEYWORDS[name] + (255,), "Color(%r)" % name.upper())
    for a in names:
        require(all((Color(a) == b) == (KEYWORDS[a] == KEYWORDS[b]) for b in names[:: 7]), "equality of %r with other keywords", a)
    return True


@st.composite
def hex_case(draw):
    n = draw(st.sampled_from([3, 4, 6, 6, 8, 8]))
    digits = draw(st.one_of(
        st.text(alphabet="0123456789abcdefABCDEF", min_size=n, max_size=n),
        st.lists(st.sampled_from(["00", "ff", "0f", "f0", "80", "7F", "01", "Fe"]), min_size=n // 2 + n % 2, max_size=n // 2 + n % 2).map(lambda l: "".join(l)[:n]),
    ))
    return [draw(ws), digits, draw(ws), draw(st.sampled_from([0, 1, 0.5, 0.3]))]


@sub("C19", "hex", hex_case(), quick=3000, thorough=300000)
def hexes(case):
    from svgio import Color
    Color = Twice(Color)

    w0, d, w1, op = case
    text = w0 + "#" + d + w1
    full = d if len(d) > 4 else "".join(x + x for x in d)
    if len(full) == 6:
        full += "ff"
    want = [int(full[i:i + 2], 16) for i in (0, 2, 4, 6)]
    is_colour(Color(text), want, "Color(%r)" % text)
    consistent(Color(text), repr(text))
    opacities(text, want, op)
    return True


def rounded(v):
    """The bytes a real channel value may become."""
    v = max(0.0, min(255.0, v))
    f = int(v)
    if v - f < 0.5 - 1e-9:
        return {f}
    if v - f > 0.5 + 1e-9:
        return {min(255, f + 1)}
    return {f, min(255, f + 1)}


def alphas(a):
    return {255} if a is None else rounded(255 * max(0.0, min(1.0, a)))


@st.composite
def functional(draw, name, args, a):
    """The text of name(args[, alpha]) in a legal layout."""
    fn = name + draw(st.sampled_from(["", "a"]))
    parts = [draw(ws) + x + draw(ws) for x in args + ([] if a is None else [g(a)])]
    return draw(ws) + cased(draw, fn) + "(" + ",".join(parts) + ")" + draw(ws)


@st.composite
def rgb_case(draw):
    a = draw(alpha)
    if draw(st.booleans()):
        v = [draw(st.one_of(byte, byte, st.integers(-50, 400))) for _ in range(3)]
        return [draw(functional("rgb", [str(x) for x in v], a)), v, a]
    v = [draw(st.one_of(st.integers(0, 100), st.integers(0, 1000).map(lambda i: i / 10), st.integers(-50, 200))) for _ in range(3)]
    return [draw(functional("rgb", [g(x) + "%" for x in v], a)), [x * 2.55 for x in v], a]


@sub("C19", "rgb and rgba", rgb_case(), quick=4000, thorough=300000)
def rgbs(case):
    from svgio import Color
    Color = Twice(Color)

    text, v, a = case
    c = Color(text)
    got = channels(c)
    for x, want, name in zip(got, [rounded(t) for t in v] + [alphas(a)], ("red", "green", "blue", "alpha")):
        require(x in want, "%s of %r is %r, not %s", name, text, x, sorted(want))
    consistent(c, repr(text))
    require(c == text, "Color(%r) is not equal to its text", text)
    return len(set(got[:3])) > 1 or got[3] < 255


@st.composite
def hsl_case(draw):
    a = draw(alpha)
    h = draw(st.one_of(st.integers(0, 360), st.integers(-720, 1080), st.integers(0, 3600).map(lambda i: i / 10), st.sampled_from([0, 60, 120, 180, 240, 300, 360])))
    s, l = [draw(st.one_of(st.integers(0, 100), st.integers(0, 1000).map(lambda i: i / 10), st.sampled_from([0, 100, 50, -20, 130]))) for _ in range(2)]
    return [draw(functional("hsl", [g(h), g(s) + "%", g(l) + "%"], a)), h, s, l, a]


def hsl_rgb(h, s, l):
    """CSS Color 4, 7.1 as real channel values; h in degrees, s and l in 0..1."""
    h %= 360

    def f(n):
        k = (n + h / 30) % 12
        return l - s * min(l, 1 - l) * max(-1, min(k - 3, 9 - k, 1))

    return [255 * f(0), 255 * f(8), 255 * f(4)]


def near_channels(got, want, what):
    """Channels of a real colour may be rounded either way."""
    for x, w, name in zip(got, want, ("red", "green", "blue")):
        require(abs(x - max(0, min(255, w))) < 1 + 1e-6, "%s of %s is %r, not %.3f", name, what, x, w)


@sub("C19", "hsl and hsla", hsl_case(), quick=4000, thorough=300000)
def hsls(case):
    from svgio import Color
    Color = Twice(Color)

    text, h, s, l, a = case
    c = Color(text)
    s, l = (max(0, min(100, x)) / 100 for x in (s, l))
    got = channels(c)
    near_channels(got, hsl_rgb(h, s, l), repr(text))
    require(got[3] in alphas(a), "alpha of %r is %r", text, got[3])
    consistent(c, repr(text))
    return len(set(got[:3])) > 1 or got[3] < 255


@sub("C19", "numbers", st.tuples(st.one_of(byte, st.integers(-300, 600)), byte, st.one_of(byte, st.integers(-300, 600)), st.one_of(st.none(), byte), st.sampled_from([0, 1, 0.5, 0.9, 0.01])).map(list), quick=2000, thorough=60000)
def numbers(case):
    from svgio import Color
    Color = Twice(Color)

    r, gr, b, a, op = case
    clip = [max(0, min(255, x)) for x in (r, gr, b)]
    if a is None:
        c = Color(r, gr, b)
        want = clip + [255]
    else:
        c = Color(r, gr, b, a)
        want = clip + [a]
    is_colour(c, want, "Color%s" % ((r, gr, b, a),))
    consistent(c, "Color%s" % ((r, gr, b, a),))
    n = clip[0] << 16 | clip[1] << 8 | clip[2]
    is_colour(Color(n), clip + [255], "Color(%#x)" % n)
    is_colour(Color(rgb=n), clip + [255], "Color(rgb=%#x)" % n)
    a_ = want[3]
    is_colour(Color(argb=a_ << 24 | n), want, "Color(argb=)")
    is_colour(Color(rgba=n << 8 | a_), want, "Color(rgba=)")
    is_colour(Color(red=r, green=gr, blue=b, alpha=a_), want, "Color(red=%r, green=%r, blue=%r, alpha=%r)" % (r, gr, b, a_))
    is_colour(Color(r=r, g=gr, b=b, alpha=a_), want, "Color(r=%r, g=%r, b=%r, alpha=%r)" % (r, gr, b, a_))
    for make in (lambda o, k=None: Color(n, o) if k is None else Color(n, opacity=k),
                 lambda o, k=None: Color(c, o) if k is None else Color(c, opacity=k)):
        with_opacity(make, want, "Color(%#x)" % n, op)
    is_colour(c, want, "the colour after copies with opacity")
    return len(set(clip)) > 1


@sub("C19", "equality", st.tuples(st.tuples(byte, byte, byte, byte).map(list), st.integers(0, 3), byte).map(list), quick=1500, thorough=60000)
def equality(case):
    from svgio import Color
    Color = Twice(Color)

    v, i, x = case
    w = list(v)
    w[i] = x
    c, d = Color(*v), Color(*w)
    same = v == w
    for a, b in ((c, d), (d, c), (c, d.hexa), (d, c.hexa), (c, int(d))):
        require((a == b) == same and (a != b) == (not same), "%s == %s is %s", a, b, a == b)
    require(c != None and c != Color("none") and Color("none") != c and c != "none", "%s equals no colour", c)  # noqa
    return not same


@sub("C19", "no colour", st.sampled_from([None, "none", " none", "none\n"]), quick=10, thorough=10)
def none(value):
    from svgio import Color
    Color = Twice(Color)

    c = Color(value)
    require(channels(c) == (None,) * 4, "Color(%r) is %s", value, channels(c))
    for name in ("rgb", "rgba", "argb", "hex", "hexa", "opacity", "hue", "saturation", "lightness", "hsl", "luma", "luminance", "brightness", "blackness", "intensity"):
        require(getattr(c, name) is None, "%s of no colour is %r", name, getattr(c, name))
    require(c == None and c == "none" and c == Color(None) and c == Color("none") and not (c != "none"), "no colour is not equal to itself")  # noqa
    require(eval(repr(c), {"Color": Color}) == c and Color(str(c)) == c or str(c) == "None", "repr of no colour is %r", repr(c))
    require(Color() == Color(0, 0, 0, 0) or Color() == "black", "Color() is %s", Color())
    require(channels(abs(c)) == (None,) * 4, "abs of no colour")
    for name in ("red", "green", "blue", "alpha", "opacity", "hue", "saturation", "lightness"):
        try:
            setattr(c, name, 0.5)
        except ValueError:
            pass
        else:
            require(False, "setting %s of no colour", name)
        require(c == None, "setting %s of no colour made one", name)  # noqa
    return True
