"""C03: arbitrary text as path data: ValueError or exactly the segments before the first error."""
from hypothesis import strategies as st

from ..common import connected
from ..core import Violation, require, rule, sub
from ..oracle.svgpath import diagnose
from ..textgen import path_text
from ..spoil import Twice
from .c01_path_grammar import compare_segments

rule("C03", "cases are strings: grammatical path data damaged by cutting, deleting, inserting, replacing or splicing, "
     "and random text; non-trivial: the text has an error, after at least one complete command")

ALPHABET = "MmLlHhVvCcSsQqTtAaZz0123456789.,-+eE \n\t#%x()/;NnIi"


def outcome(make):
    try:
        return make(), None
    except ValueError as e:
        return None, e
    except RecursionError:
        raise
    except Exception as e:
        raise Violation("raises %s, not ValueError: %s" % (type(e).__name__, e))


def with_none(segs):
    """A fragment whose first end is unknown cannot be connected; nothing to say about it."""
    return any(None in s[1:] for s in segs[1:]) or (bool(segs) and segs[0][-1] is None)


def judge(text):
    from svgio import Path
    Path = Twice(Path)

    want, status, extreme = diagnose(text)
    if extreme:
        return False
    path, error = outcome(lambda: Path(text))
    if error is not None:
        require(status, "valid path data raises %s: %r", type(error).__name__, text)
    else:
        require(status != "parameters", "missing or impossible parameters pass silently in %r: %r", text, str(list(path))[:300])
        if not with_none(want):
            compare_segments(list(path), want, repr(text))
    # reading into an existing path: what was complete is kept, connected
    p = Path("M1,2 L3,4")
    want2, status2, extreme2 = diagnose(text, [("M", None, 1 + 2j), ("L", 1 + 2j, 3 + 4j)])
    if not extreme2:
        _, error = outcome(lambda: p.parse(text))
        require(status2 or error is None, "valid path data raises: %r", text)
        require(error is not None or status2 != "parameters", "missing parameters pass silently in %r", text)
        got = list(p)[2:]
        require(len(got) == len(want2) or (error is not None and len(got) < len(want2)),
                "appending %r adds %d segments instead of %d", text, len(got), len(want2))
        compare_segments(got, want2[:len(got)], "appending %r" % text, whole=False)
        connected(list(p))
    return bool(status) and len(want) >= 1


@st.composite
def damaged(draw):
    text = draw(path_text(max_commands=4))
    for _ in range(draw(st.integers(1, 3))):
        if not text:
            break
        k = draw(st.integers(0, 5))
        i = draw(st.integers(0, len(text)))
        if k == 0:
            text = text[:i]
        elif k == 1:
            text = text[:i] + text[i + draw(st.integers(1, 4)):]
        elif k == 2:
            text = text[:i] + draw(st.sampled_from(ALPHABET)) + text[i:]
        elif k == 3:
            text = text[:i] + draw(st.sampled_from(ALPHABET)) + text[i + 1:]
        elif k == 4:
            other = draw(path_text(max_commands=2, start_move=False))
            j = draw(st.integers(0, len(other)))
            text = text[:i] + other[j:]
        else:
            j = draw(st.integers(0, len(text)))
            a, b = sorted((i, j))
            text = text[:b] + text[a:b] + text[b:]
    return text


@sub("C03", "damaged", damaged(), quick=2200, thorough=200000, weight=2)
def check_damaged(text):
    return judge(text)


@sub("C03", "letters", st.text(alphabet=ALPHABET, max_size=24), quick=1200, thorough=100000)
def letters(text):
    return judge(text)


@sub("C03", "after_move", st.text(alphabet="LlHhVvCcSsQqTtAaZzM0123 .,-5", max_size=16).map(lambda t: "M3,4 " + t), quick=1200, thorough=100000)
def after_move(text):
    return judge(text)


@sub("C03", "any_text", st.text(max_size=30), quick=500, thorough=30000)
def any_text(text):
    judge(text)
    return len(text) > 3


NEED = {"M": 2, "L": 2, "T": 2, "H": 1, "V": 1, "Q": 4, "S": 4, "C": 6, "A": 7}


@sub("C03", "missing", st.tuples(st.sampled_from("MLTHVQSCA"), st.booleans(), st.integers(0, 6), st.integers(0, 2),
                                 st.sampled_from(["", " ", " L1,1", "$", " M5,5", "\n"])).map(list), quick=400, thorough=5000)
def missing(case):
    """Each command with too few parameters, alone and after complete repetitions, raises ValueError."""
    from svgio import Path
    Path = Twice(Path)

    letter, relative, keep, reps, tail = case
    n = NEED[letter]
    keep %= n
    if keep == 0 and reps:
        reps = 0
    args = ["1"] * n
    text = "M3,4 L5,6 " + (letter.lower() if relative else letter) + " " + " ".join(args * reps + args[:keep]) + tail
    path, error = outcome(lambda: Path(text))
    require(error is not None, "%r lacks parameters but gives %r", text, str(list(path or []))[:300])
    return True
