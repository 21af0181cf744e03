"""C22: angles convert between units and compare as directions."""
import copy
import math

from hypothesis import strategies as st

from ..common import cleanf
from ..core import require, rule, sub
from ..textgen import number_token

rule("C22", "cases are angles in some unit; non-trivial: the angle is not zero (comparisons: a whole turn or more, or a "
     "difference, separates the two)")

TURN = {"degrees": 360.0, "gradians": 400.0, "turns": 1.0, "radians": 2 * math.pi}
SUFFIX = {"deg": "degrees", "grad": "gradians", "rad": "radians", "turn": "turns", "": "degrees"}
value = st.one_of(st.integers(-8, 8).map(lambda i: i / 8), st.integers(-40, 40).map(lambda i: i / 360), st.floats(-3, 3).map(cleanf), st.integers(-4000, 4000).map(lambda i: i / 1000))


def reads(a, turns, what):
    """Angle a is so many turns, in every unit."""
    from svgio import Angle

    require(isinstance(a, Angle), "%s is a %s", what, type(a).__name__)
    for name, per in TURN.items():
        v = getattr(a, "as_" + name)
        require(abs(float(v) - turns * per) <= 1e-13 * (1 + abs(turns)) * per, "%s is %r %s, not %r", what, float(v), name, turns * per)
    require(abs(float(a) - turns * 2 * math.pi) <= 1e-12 * (1 + abs(turns)), "%s is %r radians", what, float(a))


def around(x):
    """Distance from a whole number."""
    return abs(x - round(x))


@sub("C22", "units", st.tuples(value, st.sampled_from(sorted(TURN))).map(list), quick=2500, thorough=150000)
def units(case):
    from svgio import Angle

    t, unit = case
    a = getattr(Angle, unit)(t * TURN[unit])
    what = "Angle.%s(%r)" % (unit, t * TURN[unit])
    reads(a, t, what)
    for other, per in TURN.items():
        b = getattr(Angle, other)(float(getattr(a, "as_" + other)))
        reads(b, t, "%s through %s" % (what, other))
        require(a == b and not (a != b), "%s through %s is another angle", what, other)
    reads(Angle(float(a)), t, "Angle(%r)" % float(a))
    b = copy.copy(a)
    require(type(b) is Angle and b == a, "a copy of %s is %r", what, b)
    n = a.normalized()
    require(isinstance(n, Angle) and -1e-12 <= float(n) <= 2 * math.pi + 1e-12, "%s normalised is %r", what, n)
    require(float(n) < 2 * math.pi or float(a) < 0 and around(t) < 1e-12, "%s normalised is %r, not less than a turn", what, n)
    require(around(float(n) / (2 * math.pi) - t) <= 1e-12 and n == a, "%s normalised is %r", what, n)
    p = float(a.as_positive_degrees)
    require(p >= 0, "positive degrees of %s are %r", what, p)
    require(around(p / 360 - t) <= 1e-12, "positive degrees of %s are %r", what, p)
    require(p <= 360 or p <= t * 360 + 1e-9, "positive degrees of %s are %r", what, p)
    return t != 0


@st.composite
def texts(draw):
    tok = draw(number_token())
    unit = draw(st.sampled_from(sorted(SUFFIX)))
    word = draw(st.sampled_from([unit, unit, unit.upper(), unit.capitalize()]))
    return [tok, unit, word]


@sub("C22", "text", texts(), quick=2000, thorough=100000)
def text(case):
    from svgio import Angle

    tok, unit, word = case
    per = TURN[SUFFIX[unit]]
    v = float(tok)
    a = Angle.parse(tok + word)
    reads(a, v / per, "Angle.parse(%r)" % (tok + word))
    require(a == getattr(Angle, SUFFIX[unit])(v), "Angle.parse(%r) is not Angle.%s(%r)", tok + word, SUFFIX[unit], v)
    b = Angle.parse("%r%s" % (float(getattr(a, "as_" + SUFFIX[unit])), unit))
    require(abs(float(a) - float(b)) <= 1e-12 * (1 + abs(float(a))), "%r written and read again is %r", tok + word, b)
    return v != 0


@sub("C22", "comparison", st.tuples(value, st.integers(-20, 20), st.sampled_from([0, 0, 1e-9, -1e-9, 1e-6, 0.25, -0.5, 0.001, 1 / 3]), value, st.booleans()).map(list), quick=3000, thorough=200000)
def comparison(case):
    from svgio import Angle

    t, k, gap, u, plain = case
    a = Angle.turns(t)
    for d in (gap, u - t):
        b = Angle.turns(t + k + d)
        if plain:
            b = float(b)
        off = around(d)
        if 1e-13 < off < 5e-12:
            continue
        same = off <= 1e-13
        if same and abs(k) + abs(t) > 100:
            continue
        require((a == b) is same and (a != b) is (not same), "Angle.turns(%r) == Angle.turns(%r) is %s", t, t + k + d, a == b)
        if not plain:
            require((b == a) is same and (b != a) is (not same), "Angle.turns(%r) == Angle.turns(%r) is %s", t + k + d, t, b == a)
    return k != 0 or gap != 0


@sub("C22", "orthogonality", st.tuples(st.integers(-40, 40), st.sampled_from([0, 0, 1e-9, -1e-7, 0.001, -0.125, 0.3]), st.sampled_from(sorted(TURN))).map(list), quick=1500, thorough=30000)
def orthogonality(case):
    from svgio import Angle

    q, off, unit = case
    v = (q / 4 + off) * TURN[unit]
    a = getattr(Angle, unit)(v)
    require(bool(a.is_orthogonal()) is (off == 0), "Angle.%s(%r) is %sorthogonal", unit, v, "" if a.is_orthogonal() else "not ")
    if unit != "radians":
        suffix = {"degrees": "deg", "gradians": "grad", "turns": "turn"}[unit]
        a = Angle.parse("%r%s" % (v, suffix))
        require(bool(a.is_orthogonal()) is (off == 0), "%r%s is %sorthogonal", v, suffix, "" if a.is_orthogonal() else "not ")
    return q != 0
