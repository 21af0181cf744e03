"""C18: lengths convert, compare and add as physical quantities."""
import copy
import math

from hypothesis import strategies as st

from ..common import cleanf, g, pos
from ..core import Violation, require, rule, sub
from ..textgen import number_token
from ..spoil import Twice
from .c16_transform_text import NEEDS, UNITS, elsewhere, environment, keywords, px

rule("C18", "cases are lengths with the context they are resolved in; non-trivial: the amounts are not zero and a unit other "
     "than the plain number is involved")

ALL = ["", "px", "pt", "pc", "in", "cm", "mm", "%", "em", "ex", "vw", "vh", "vmin", "vmax"]
FAMILY = {"": 0, "px": 0, "pt": 0, "pc": 0, "in": 1, "cm": 1, "mm": 1, "%": 2, "em": 3, "ex": 4, "vw": 5, "vh": 6, "vmin": 7, "vmax": 8}
amount = st.one_of(st.integers(-20, 20), st.integers(-4000, 4000).map(lambda i: i / 8), st.floats(-1e3, 1e3).map(cleanf),
                   st.integers(-99999, 99999).map(lambda i: i / 1000), st.builds(lambda i, k: i / 10.0**k, st.integers(-99, 99), st.integers(3, 8))
                   ).map(lambda x: x if abs(x) > 1e-9 else 0)
length = st.tuples(amount, st.sampled_from(ALL)).map(list)


def text(l):
    return "%s%s" % (g(l[0]), l[1])


def mk(l, form=0):
    from svgio import Length
    Length = Twice(Length)

    if form == 0:
        return Length(text(l))
    if form == 1:
        return Length(float(l[0]), l[1])
    if form == 2:
        return Length(Length(float(l[0]), l[1]))
    if form == 3 and l[1] == "":
        return Length(l[0])
    return Length(" %s " % text(l))


def unchanged(L, l, what):
    require(L.amount == l[0] and L.units == l[1], "%s changed its operand %s to %r %r", what, text(l), L.amount, L.units)


def resolve(l, env):
    v, d = px(l[0], l[1], 0, env)
    return v, d + 1e-12 * abs(v) + 1e-13


def there(env):
    """The keywords of quite another environment."""
    e = elsewhere(env)
    e["relative_length"] = e.pop("width")
    del e["height"]
    return e


def number(x, what):
    require(isinstance(x, (int, float)) and not isinstance(x, bool), "%s is %r, not a number", what, x)
    require(math.isfinite(x), "%s is %r", what, x)
    return float(x)


def pixels(L, env, what):
    from svgio import Length
    Length = Twice(Length)

    if isinstance(L, (int, float)):
        return float(L)
    require(isinstance(L, Length.cls), "%s is %r", what, L)
    kw = keywords(env)
    kw["relative_length"] = kw.pop("width")
    del kw["height"]
    return number(L.value(**kw), "the value of " + what)


def written():
    """A length as text in every number format."""
    return st.tuples(number_token(), st.sampled_from(ALL)).map(list)


@sub("C18", "resolving", st.tuples(written(), environment, st.integers(0, 2), st.integers(0, 63)).map(list), quick=4000, thorough=250000)
def resolving(case):
    from svgio import Length, Viewbox
    Length = Twice(Length)
    Viewbox = Twice(Viewbox)

    (tok, unit), env, form, mask = case
    a = float(tok)
    l = [a, unit]
    L = [lambda: Length(tok + unit), lambda: Length(a, unit), lambda: Length(Length(a, unit))][form]()
    if form < 2:
        unchanged(L, l, "reading")
    else:
        require(abs(L.amount - a) <= 1e-12 and L.units == unit, "Length(Length(%r, %r)) is %s", a, unit, L)
    want, tol = resolve(l, env)
    tol += 1e-12 * (1 + abs(want) / max(abs(a), 1e-300) if a else 1)
    kw = {"ppi": env["ppi"], "relative_length": env["width"], "font_size": env["font_size"], "font_height": env["font_height"],
          "viewbox": keywords(env)["viewbox"]}
    if mask & 32:
        kw["viewbox"] = Viewbox(kw["viewbox"])
    L.value(**there(env))
    L.to_mm(**there(env))
    got = number(L.value(**kw), "%s in %s" % (L, kw))
    require(abs(got - want) <= tol, "%s is %r px in %s, not %r", L, got, kw, want)
    # what it depends on may be missing
    part = {k: v for i, (k, v) in enumerate(sorted(kw.items())) if mask >> i & 1}
    need = "relative_length" if unit == "%" else NEEDS.get(unit)
    r = L.value(**part)
    if need is None or need in part:
        require(abs(number(r, "%s in %s" % (L, part)) - want) <= tol, "%s is %r px in %s, not %r", L, r, part, want)
    else:
        require(isinstance(r, Length.cls) and r.units == unit and r.amount == L.amount, "%s without %s is %r, not itself", L, need, r)
    # physical units
    for name, per, u in (("to_mm", 25.4, "mm"), ("to_cm", 2.54, "cm"), ("to_inch", 1.0, "in")):
        M = getattr(L, name)(**kw)
        require(isinstance(M, Length.cls) and M.units == u, "%s of %s is %r", name, L, M)
        w = want / env["ppi"] * per
        require(abs(M.amount - w) <= 1.1e-12 + 2e-6 * abs(w) + tol / env["ppi"] * per, "%s of %s is %s in %s, not %r", name, L, M, kw, w)
        back = number(M.value(ppi=env["ppi"]), "back")
        require(abs(back - got) <= 1e-9 * abs(got) + 2e-12 * env["ppi"] + 1e-9, "%s of %s is %s which is %r px, not %r", name, L, M, back, got)
        if FAMILY[unit] <= 1:
            kw96 = dict(env, ppi=96)
            w96 = resolve(l, kw96)[0] / 96 * per
            M = getattr(L, name)()
            require(M.units == u and abs(M.amount - w96) <= 1.1e-12 + 4e-5 * abs(w96), "%s() of %s is %s, not %r at 96 ppi", name, L, M, w96)
        part = {k: v for k, v in part.items() if k != "ppi"}
        if need is not None and need != "ppi" and need not in part:
            r = getattr(L, name)(**part)
            require(isinstance(r, Length.cls) and r.units == unit and r.amount == L.amount, "%s of %s without %s is %r, not itself", name, L, need, r)
    p, i = L.in_pixels(), L.in_inches()
    if FAMILY[unit] == 0:
        require(i is None and abs(number(p, "in_pixels") - want) <= tol, "in_pixels of %s is %r", L, p)
        require(abs(float(L) - want) <= tol, "float(%s) is %r", L, float(L))
    elif FAMILY[unit] == 1:
        require(p is None and abs(number(i, "in_inches") * env["ppi"] - want) <= tol + 2e-6 * abs(want), "in_inches of %s is %r", L, i)
    else:
        require(p is None and i is None, "%s is %r px, %r in without context", L, p, i)
    require(L.value_in_units == L.amount, "value_in_units of %s is %r", L, L.value_in_units)
    return bool(a) and bool(unit)


@sub("C18", "percentages of lengths", st.tuples(amount, length, environment, st.booleans()).map(list), quick=1500, thorough=60000)
def percentages(case):
    from svgio import Length
    Length = Twice(Length)

    p, l, env, as_text = case
    if l[1] == "%":
        return False
    L = Length(float(p), "%")
    other = text(l) if as_text else mk(l)
    kw = keywords(env)
    kw["relative_length"] = other
    del kw["width"], kw["height"]
    want, tol = resolve(l, env)
    want, tol = want * p / 100, tol * (1 + abs(p) / 100) + 1e-12
    got = number(L.value(**kw), "%s of %s" % (L, text(l)))
    require(abs(got - want) <= tol, "%s of %s is %r, not %r", L, text(l), got, want)
    need = NEEDS.get(l[1])
    if need is not None and p and l[0]:
        part = {k: v for k, v in kw.items() if k != need}
        got = L.value(**part)
        require(isinstance(got, Length.cls), "%s of %s without %s is %r", L, text(l), need, got)
        got = number(got.value(**kw), "%s of %s, resolved later" % (L, text(l)))
        require(abs(got - want) <= tol, "%s of %s, resolved later, is %r, not %r", L, text(l), got, want)
    prod = L * other
    require(abs(pixels(prod, env, "%s * %s" % (L, text(l))) - want) <= tol, "%s * %s is %s", L, text(l), prod)
    prod = mk(l) * L
    require(abs(pixels(prod, env, "%s * %s" % (text(l), L)) - want) <= tol, "%s * %s is %s", text(l), L, prod)
    unchanged(L, [p, "%"], "multiplying")
    if not as_text:
        unchanged(other, l, "multiplying")
    return bool(p) and bool(l[0])


@st.composite
def length_pairs(draw):
    a = draw(length)
    mode = draw(st.integers(0, 9))
    if mode == 0:
        b = list(a)
    elif mode <= 6:
        b = [draw(amount), draw(st.sampled_from([u for u in ALL if FAMILY[u] == FAMILY[a[1]]]))]
    elif mode == 7:
        b = [0, draw(st.sampled_from(ALL))]
    elif mode == 8:
        a = [draw(st.one_of(st.just(0), amount)), a[1]]
        b = [draw(st.one_of(st.just(0), amount)), ""]
    else:
        b = draw(length)
    return [a, b] if draw(st.booleans()) else [b, a]


def related(a, b):
    return FAMILY[a[1]] == FAMILY[b[1]] or a[0] == 0 or b[0] == 0


@sub("C18", "arithmetic and order", st.tuples(length_pairs(), environment, st.integers(0, 2), st.integers(0, 4)).map(list), quick=6000, thorough=400000, weight=2)
def arithmetic(case):
    from svgio import Length
    Length = Twice(Length)

    (a, b), env, form, mform = case
    if b[1] != "" and form == 2:
        form = 0
    A = mk(a, mform)
    if A.amount != a[0]:  # text of a Length has twelve decimals
        A = mk(a)

    def B():
        return mk(b) if form == 0 else text(b) if form == 1 else b[0]

    va, da = resolve(a, env)
    vb, db = resolve(b, env)
    tol = 2 * (da + db) + 1e-12 * (abs(va) + abs(vb))
    if "pt" in (a[1], b[1]) and a[1] != b[1]:
        tol += 6e-5 * (abs(va) + abs(vb))
    b0 = mk(b)
    ops = {
        "+": (lambda x, y: x + y, va + vb), "-": (lambda x, y: x - y, va - vb),
        "r+": (lambda x, y: y + x, va + vb), "r-": (lambda x, y: y - x, vb - va),
    }
    order = {
        "<": (lambda x, y: x < y, lambda d: d < 0), "<=": (lambda x, y: x <= y, lambda d: d <= 0),
        ">": (lambda x, y: x > y, lambda d: d > 0), ">=": (lambda x, y: x >= y, lambda d: d >= 0),
        "r<": (lambda x, y: y < x, lambda d: d > 0), "r>=": (lambda x, y: y >= x, lambda d: d <= 0),
    }
    if related(a, b):
        for name, (f, want) in ops.items():
            y = B()
            r = f(A, y)
            what = "%s %s %s" % (text(a), name, b if form == 2 else text(b))
            require(r is not A and r is not y, "%s is its operand", what)
            got = pixels(r, env, what)
            require(abs(got - want) <= tol, "%s is %s = %r px, not %r (%s)", what, r, got, want, env)
            unchanged(A, a, what)
            if form == 0:
                unchanged(y, b, what)
                r.amount = 77.0
                unchanged(A, a, "changing the result of " + what)
                unchanged(y, b, "changing the result of " + what)
        for name in ("+=", "-="):
            x, y = mk(a), B()
            keep = x
            if name == "+=":
                x += y
            else:
                x -= y
            want = va + vb if name == "+=" else va - vb
            got = pixels(x, env, text(a) + " " + name + " " + text(b))
            require(abs(got - want) <= tol, "%s %s %s is %s = %r px, not %r", text(a), name, text(b), x, got, want)
            require(x is keep, "%s makes another length", name)
            if form == 0:
                unchanged(y, b, name)
        same = a == b or (a[0] == b[0] and {a[1], b[1]} <= {"", "px"})
        zero = a[0] == 0 and b[0] == 0
        d = va - vb
        if same or zero:
            d = 0
        if same or zero or abs(d) > 1e-4 * (abs(va) + abs(vb)):
            for name, (f, w) in order.items():
                y = B()
                r = f(A, y)
                require(r is True or r is False, "%s %s %s is %r", text(a), name, text(b), r)
                require(r == w(d), "%s %s %s is %s (%r px, %r px)", text(a), name, text(b), r, va, vb)
                unchanged(A, a, name)
                if form == 0:
                    unchanged(y, b, name)
    else:
        for name, (f, _) in list(ops.items()) + list(order.items()):
            y = B()
            try:
                r = f(A, y)
            except ValueError:
                pass
            else:
                raise Violation("%s %s %s is %r though they cannot be related" % (text(a), name, text(b), r))
            unchanged(A, a, name)
            if form == 0:
                unchanged(y, b, name)
    # equality never raises
    eq = A == B()
    ne = A != B()
    require(isinstance(eq, bool) and ne == (not eq), "%s == %s is %r, != is %r", text(a), text(b), eq, ne)
    if a == b or (a[0] == b[0] and {a[1], b[1]} <= {"", "px"}):
        require(eq, "%s is not equal to %s", text(a), text(b))
    elif related(a, b) and a[0] and b[0] and abs(va - vb) > 1e-4 * (abs(va) + abs(vb)):
        require(not eq, "%s equals %s", text(a), text(b))
    elif not related(a, b):
        require(not eq, "%s equals %s", text(a), text(b))
    elif abs(va - vb) > 1e-3:
        require(not eq, "%s equals %s", text(a), text(b))
    unchanged(A, a, "==")
    # the ratio
    if related(a, b) and b[0] != 0 and vb != 0:
        y = mk(b) if form != 1 else text(b)
        r = number(A / y, "%s / %s" % (text(a), text(b)))
        w = va / vb
        require(abs(r - w) <= 1e-4 * abs(w) + 1e-12, "%s / %s is %r, not %r", text(a), text(b), r, w)
        if a[1] == b[1]:
            require(abs(r - a[0] / b[0]) <= 1e-12 * abs(r), "%s / %s is %r", text(a), text(b), r)
        unchanged(A, a, "/")
    elif not related(a, b):
        try:
            r = A / (mk(b) if form != 1 else text(b))
        except ValueError:
            pass
        else:
            raise Violation("%s / %s is %r though they cannot be related" % (text(a), text(b), r))
    return bool(a[0]) and bool(b[0]) and bool(a[1] or b[1])


EXACT = [["", "px", 1], ["pc", "px", 16], ["pc", "", 16], ["cm", "mm", 10]]


@sub("C18", "equal in other units", st.tuples(st.sampled_from(EXACT), st.integers(-50, 50).map(lambda i: i / 4), st.booleans()).map(list), quick=400, thorough=8000)
def other_units(case):
    (u, v, f), x, swap = case
    A, B = mk([x, u]), mk([x * f, v])
    if swap:
        A, B = B, A
    require(A == B and not (A != B), "%s is not equal to %s", A, B)
    require(A == str(B) and B == str(A), "%s is not equal to %s as text", A, B)
    if u != "cm":
        require(A == B.value() and B == A.value(), "%s is not equal to %r", A, B.value())
    require(A != mk([x * f + 1, v]) or swap and A != mk([x + 1, u]), "%s equals something longer", A)
    return bool(x)


@sub("C18", "histories", st.tuples(length, st.lists(st.tuples(st.sampled_from(["+", "-", "*", "/", "neg", "abs", "+=", "-=", "*=", "r*", "copy"]), amount, st.integers(0, 3), st.integers(0, 1)).map(list), min_size=1, max_size=8), environment).map(list), quick=3000, thorough=150000)
def histories(case):
    """Arithmetic in one family of units against arithmetic on the resolved pixels."""
    from svgio import Length
    Length = Twice(Length)

    start, ops, env = case
    fam = [u for u in ALL if FAMILY[u] == FAMILY[start[1]]]
    L = mk(start)
    v, tol = resolve(start, env)
    tol = max(tol, 1e-12)
    said = [text(start)]
    for op, x, ui, form in ops:
        before = (L.amount, L.units)
        old = L
        other = [x, fam[ui % len(fam)]]
        O = text(other) if form else mk(other)
        vo, to = resolve(other, env)
        if op in ("+", "-", "+=", "-="):
            sg = 1 if op[0] == "+" else -1
            if op == "+":
                L = L + O
            elif op == "-":
                L = L - O
            elif op == "+=":
                L += O
            else:
                L -= O
            v, tol = v + sg * vo, tol + to + 3e-5 * (abs(v) + abs(vo)) * (len({before[1], other[1]}) > 1) + 1e-12 * (abs(v) + abs(vo))
            said.append("%s %s" % (op, text(other)))
        elif op in ("*", "r*", "*="):
            if op == "*":
                L = L * x
            elif op == "r*":
                L = x * L
            else:
                L *= x
            v, tol = v * x, tol * abs(x) + 1e-12
            said.append("%s %r" % (op, x))
        elif op == "/":
            if abs(x) < 0.01:
                continue
            L = L / x
            v, tol = v / x, tol / abs(x) + 1e-12
            said.append("/ %r" % x)
        elif op == "neg":
            L = -L
            v = -v
            said.append("neg")
        elif op == "abs":
            L = abs(L)
            v = abs(v)
            said.append("abs")
        else:
            L = copy.copy(L)
            said.append("copy")
        if abs(v) > 1e12 or tol > 1e-3 * (1 + abs(v)):
            return False
        require(isinstance(L, Length.cls), "%s is %r", " ".join(said), L)
        if op in ("+=", "-=", "*="):
            require(L is old, "%s makes another length", op)
        else:
            require((old.amount, old.units) == before and L is not old, "%s changed its operand", op)
        got = pixels(L, env, " ".join(said))
        require(abs(got - v) <= tol, "%s is %s = %r px, not %r in %s", " ".join(said), L, got, v, env)
    return bool(start[0]) and len(ops) > 1


@sub("C18", "text and copies", st.tuples(length, st.integers(0, 4)).map(list), quick=1500, thorough=60000)
def texts(case):
    from svgio import Length
    Length = Twice(Length)

    l, form = case
    L = mk(l, form)
    require(abs(L.amount - l[0]) <= 6e-13 and L.units == l[1], "%s reads as %r %r", text(l), L.amount, L.units)
    amount_ = L.amount
    t = str(L)
    M = Length(t)
    require(abs(M.amount - l[0]) <= 1.1e-12 + 1e-15 * abs(l[0]) and M.units == l[1], "%s is written %r", text(l), t)
    require(l[0] == int(l[0]) and abs(l[0]) < 1e6 or "." in t or "e" in t or abs(l[0] - round(l[0])) < 1e-11, "%s is written %r", text(l), t)
    for N in (copy.copy(L), copy.deepcopy(L), Length(L.amount, L.units)):
        require(N is not L and N == L and N.amount == amount_ and N.units == l[1], "a copy of %s is %s", L, N)
        N += Length(1.0, l[1])
        N *= 3
        require(L.amount == amount_ and L.units == l[1], "changing a copy changed %s", text(l))
    require(L != None and not (L == None), "a length equals None")  # noqa
    require(Length().amount == 0 and Length().value() == 0 and str(Length(None)) == "none" and Length(None).value() is None, "Length() or Length(None)")
    return bool(l[0]) and bool(l[1])
