"""Generates path data text in every legal layout."""
from hypothesis import strategies as st

WS = ["", "", " ", " ", "  ", "\n", "\t", "\r\n", "\x0c"]
SEP = [" ", " ", ",", ",", ", ", " ,", " , ", "\n", "\t", "\r\n", ",\n", "\x0c", "  "]

NARGS = {"M": "pp", "L": "pp", "T": "pp", "H": "p", "V": "p", "Q": "pppp", "S": "pppp", "C": "pppppp", "A": "rrofFpp"}


@st.composite
def number_token(draw, positive=False):
    sign = "" if positive else draw(st.sampled_from(["", "", "", "-", "-", "+"]))
    form = draw(st.integers(0, 9))
    whole = str(draw(st.integers(0, 60)))
    fr = draw(st.sampled_from(["0", "5", "25", "50", "125", "001", "75", "999"]))
    if form <= 3:
        body = whole
    elif form == 4:
        body = "0" + whole
    elif form <= 6:
        body = whole + "." + fr
    elif form == 7:
        body = "." + fr
    else:
        body = draw(st.sampled_from([whole, whole + "." + fr, "." + fr]))
        body += draw(st.sampled_from(["e", "E"])) + draw(st.sampled_from(["", "+", "-"])) + draw(
            st.sampled_from(["0", "1", "2", "02", "3"]))
    return sign + body


def glues(prev, nxt, prev_is_flag):
    if prev_is_flag:
        return True
    if nxt[0] in "+-":
        return True
    if nxt[0] == ".":
        return "." in prev or "e" in prev or "E" in prev
    return False


@st.composite
def arguments(draw, letter, allow_z=True):
    """One set of parameters: list of (token, is_flag); the last point may be 'z'."""
    up = letter.upper()
    out = []
    for k in NARGS[up]:
        if k in "fF":
            out.append((draw(st.sampled_from("01")), True))
        elif k == "r":
            mode = draw(st.integers(0, 9))
            if mode == 0:
                out.append(("0", False))
            elif mode == 1:
                out.append(("-" + draw(number_token(positive=True)), False))
            else:
                out.append((draw(number_token(positive=True)), False))
        else:
            out.append((draw(number_token()), False))
    return out


@st.composite
def path_text(draw, max_commands=6, start_move=True, letters="MLHVQTCSAZ", inline_z=True, tight=None):
    n = draw(st.integers(1, max_commands))
    tight = draw(st.booleans()) if tight is None else tight
    parts = [draw(st.sampled_from(["", "", " ", "\n"]))]
    for i in range(n):
        up = "M" if (i == 0 and start_move) else draw(st.sampled_from(letters))
        letter = up if draw(st.booleans()) else up.lower()
        parts.append(letter)
        if up == "Z":
            parts.append("" if tight else draw(st.sampled_from(WS)))
            continue
        reps = draw(st.sampled_from([1, 1, 1, 2, 3]))
        toks = []
        closed = False
        for r in range(reps):
            args = draw(arguments(letter))
            if inline_z and up in "LTQSCA" and r == reps - 1 and draw(st.integers(0, 11)) == 0:
                args = args[:-2]
                closed = True
            toks += args
        if tight:
            parts.append("")
        else:
            parts.append(draw(st.sampled_from(WS)))
        prev = None
        for tok, flag in toks:
            if prev is not None:
                if glues(prev[0], tok, prev[1]) and (tight or draw(st.integers(0, 2)) == 0):
                    pass
                elif prev[1] and tight:
                    pass
                else:
                    parts.append(" " if tight else draw(st.sampled_from(SEP)))
            parts.append(tok)
            prev = (tok, flag)
        parts.append("" if tight else draw(st.sampled_from(WS)))
        if closed:
            parts.append(draw(st.sampled_from("zZ")))
            parts.append("" if tight else draw(st.sampled_from(WS)))
    return "".join(parts)
