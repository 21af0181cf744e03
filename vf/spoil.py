"""Vandalising what was just made: nothing made later, even of the same input, may be affected by it."""
import zlib


def spoil(v):
    """Changes a svgio object in place, by what it offers, as far as it can be changed."""
    from svgio import Color, Length, Matrix, Path, Point, Viewbox
    from svgio.nodes import Node
    from svgio.path import PathSegment

    if isinstance(v, Matrix):
        for i in range(6):
            v[i] = 11.0 + i
    elif isinstance(v, Point):
        v.x, v.y = 4321.5, -1234.5
    elif isinstance(v, Length):
        if v.amount is not None:
            v *= 3
        v.amount, v.units = 17.25, "pt"
    elif isinstance(v, Color):
        v.value = 0x5A6B7C8D
    elif isinstance(v, Viewbox):
        v.x, v.y, v.width, v.height, v.preserve_aspect_ratio = 1, 2, 3, 4, "none"
    elif isinstance(v, Node):
        for n in list(v):
            spoil(n)
        v.attributes.clear()
        v.attributes["id"] = "spoilt"
        if isinstance(v, list):
            v.reverse()
            del v[1:]
    elif isinstance(v, Path):
        spoil(v.transform)
        for s in list(v):
            spoil(s)
        del v[:]
    elif isinstance(v, PathSegment):
        for name in ("start", "control", "control1", "control2", "center", "prx", "pry", "end"):
            p = getattr(v, name, None)
            if isinstance(p, Point):
                spoil(p)
        v.relative = not v.relative
        v.smooth = not getattr(v, "smooth", False)
    elif isinstance(v, (list, tuple)):
        for x in v:
            spoil(x)
        if isinstance(v, list):
            del v[:]
    return None


def again(make, *args, **kwargs):
    """What make gives the second time, what it gave the first time having been spoilt."""
    spoil(make(*args, **kwargs))
    return make(*args, **kwargs)


class Twice:
    """A class whose constructors and functions are called twice, what they gave first having been spoilt."""

    def __init__(self, cls):
        self.cls = cls

    def __call__(self, *args, **kwargs):
        return again(self.cls, *args, **kwargs)

    def __getattr__(self, name):
        f = getattr(self.cls, name)
        return (lambda *args, **kwargs: again(f, *args, **kwargs)) if callable(f) else f


def touch(p):
    """Reads whatever can be read of a path whose ends are all known: later answers may not be those of now."""
    p.length(error=1e-2)
    p.point(0.25)
    for s in list(p.as_subpaths()):
        len(s), list(s), s.d(), s.bbox(), s.segments()
    p.count_subpaths()
    p.d(), p.d(relative=True), str(p), repr(p)
    p.segments(), p.segments(transformed=False)
    p == p, p == p.d()
    p.first_point, p.current_point, p.z_point, p.smooth_point


def chosen(text, n=2):
    """One in n, always the same for the same text."""
    return zlib.crc32(repr(text).encode("utf-8", "surrogatepass")) % n == 0
