"""Large cases. Drawn number by number they would be too much for the generator, so a seed is drawn and expanded;
the cases handed to the checks are the expanded ones, in the format of the small ones."""
import random

from hypothesis import strategies as st

from .textgen import path_text

STYLES = ["ints", "grid", "eighths", "decimals", "thousands", "tiny", "huge", "mixed"]


def number(r, style):
    if style == "mixed":
        style = r.choice(STYLES[:5])
    if style == "ints":
        return r.randint(-9, 9)
    if style == "grid":
        return r.randint(0, 3)
    if style == "eighths":
        v = r.randint(-800, 800) / 8
    elif style == "decimals":
        v = round(r.uniform(-100, 100), r.randint(0, 4))
    elif style == "thousands":
        v = round(r.uniform(-5000, 5000), r.randint(0, 6))
    elif style == "tiny":
        v = round(r.uniform(-1e-2, 1e-2), 7)
    else:
        v = round(r.uniform(-1e6, 1e6), r.randint(0, 3))
    return int(v) if v == int(v) else v


def magnitude(style):
    return {"ints": 9, "grid": 3, "tiny": 1e-2, "huge": 1e6, "thousands": 5e3}.get(style, 100)


def expand_commands(r, n, letters, start_move, style, zero_radius=False):
    out = []
    pool = [[number(r, style), number(r, style)] for _ in range(3)]

    def pick():
        return list(r.choice(pool)) if r.randint(0, 3) == 0 else [number(r, style), number(r, style)]

    for i in range(n):
        k = "M" if start_move and i == 0 else r.choice(letters)
        if k == "Z":
            out.append(["Z"])
        elif k in "HV":
            out.append([k, number(r, style)])
        elif k in "MLT":
            out.append([k, pick()])
        elif k in "QS":
            out.append([k, pick(), pick()])
        elif k == "C":
            out.append([k, pick(), pick(), pick()])
        else:
            rx, ry = [round(magnitude(style) * r.choice([0.1, 0.5, 1, 2]) * r.choice([1, 1, 0.75]), 6) for _ in "xy"]
            if zero_radius and r.randint(0, 5) == 0:
                rx = 0
            out.append(["A", rx, ry, r.choice([0, 0, 30, 45, 90, -60, 217]), r.random() < 0.5, r.random() < 0.5, pick()])
    return out


def big_commands(lo=12, hi=60, letters="MLHVQTCSAZ", start_move=True, styles=("ints", "grid", "eighths", "decimals", "thousands", "mixed"), zero_radius=False):
    return st.builds(
        lambda n, seed, style: expand_commands(random.Random(seed), n, letters, start_move, style, zero_radius),
        st.integers(lo, hi), st.integers(0, 2**32), st.sampled_from(list(styles)))


@st.composite
def long_text(draw, letters="MLHVQTCSAZ", most=16, tight=None, inline_z=True, start_move=True):
    """Path data of up to a hundred commands: a few pieces, each in any layout, one after the other in any order."""
    first = draw(path_text(max_commands=3, letters=letters, tight=tight, inline_z=inline_z, start_move=start_move))
    pieces = [draw(path_text(max_commands=6, start_move=False, letters=letters, tight=tight, inline_z=inline_z)) for _ in range(draw(st.integers(1, 4)))]
    picks = draw(st.lists(st.integers(0, len(pieces) - 1), min_size=3, max_size=most))
    return first + "".join(pieces[i] for i in picks)


far_index = st.one_of(st.integers(-9, 9), st.integers(-70, 70))
far_bound = st.one_of(st.none(), st.integers(-9, 9), st.integers(-70, 70))
far_slices = st.tuples(far_bound, far_bound, st.sampled_from([None, None, 1, 2, -1, -2, 3, -5, 7, 11])).map(list)
