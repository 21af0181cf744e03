"""An independent reader of SVG path data, written from the SVG specification (1.1 section 8.3, 2 section 9).

read(text) -> (segments, complete): the segments up to the first error, and whether there was none.
diagnose(text) -> (segments, status, extreme): status is "" (no error), "command" (something that is no command
where one must stand) or "parameters" (missing, incomplete or impossible parameters); extreme tells that a number
beyond 1e30 or below 1e-30 in size was met.
Segments are tuples over complex coordinates:
  ("M", start, end)  ("L", start, end)  ("Z", start, end)
  ("Q", start, control, end)  ("C", start, control1, control2, end)
  ("A", start, rx, ry, rotation_degrees, large, sweep, end)
start is None when there is no current point.

Liberal points, documented in DESIGN.md: any run of whitespace and commas separates; z may stand for the
trailing points of a command (and then closes the subpath as well); data need not begin with a move; after a
close the next drawing command starts from the closing point.
"""
WSP = " \t\n\x0c\r,"
DIGITS = "0123456789"


class Bad(Exception):
    pass


class Reader:
    def __init__(self, text):
        self.text = text
        self.pos = 0
        self.extreme = False

    def skip(self):
        t, p = self.text, self.pos
        while p < len(t) and t[p] in WSP:
            p += 1
        self.pos = p

    def peek(self):
        self.skip()
        return self.text[self.pos] if self.pos < len(self.text) else ""

    def number(self):
        """sign? digits* ('.' digits+)? | sign? digits+, with an optional exponent."""
        self.skip()
        t, p = self.text, self.pos
        n = len(t)
        q = p
        if q < n and t[q] in "+-":
            q += 1
        i = q
        while q < n and t[q] in DIGITS:
            q += 1
        whole = q - i
        frac = 0
        if q < n and t[q] == ".":
            r = q + 1
            while r < n and t[r] in DIGITS:
                r += 1
            frac = r - q - 1
            if frac:
                q = r
        if not whole and not frac:
            return None
        if q < n and t[q] in "eE":
            r = q + 1
            if r < n and t[r] in "+-":
                r += 1
            k = r
            while r < n and t[r] in DIGITS:
                r += 1
            if r > k:
                q = r
        self.pos = q
        v = float(t[p:q])
        if abs(v) > 1e30 or 0 < abs(v) < 1e-30:
            self.extreme = True
        return v

    def flag(self):
        c = self.peek()
        if c and c in "01":
            self.pos += 1
            return c == "1"
        return None


ARGS = {"M": "p", "L": "p", "T": "p", "H": "x", "V": "x", "Q": "pp", "S": "pp", "C": "ppp", "A": "nnnffp"}


def read(text, segments=()):
    """segments: what precedes the text (for appended data)."""
    segs, status, _ = diagnose(text, segments)
    return segs, not status


def letters(text):
    """For each segment of valid path data: the letter of the command that drew it."""
    out = []
    diagnose(text, (), out)
    return out


def diagnose(text, segments=(), trace=None):
    segs = list(segments)
    count = len(segs)
    rd = Reader(text)

    def current():
        return segs[-1][-1] if segs else None

    def zpoint():
        for s in reversed(segs):
            if s[0] == "M":
                return s[-1]
        return segs[0][-1] if segs else None

    def smooth(kind):
        if not segs:
            return None
        last = segs[-1]
        if last[0] != kind:
            return last[-1]
        if last[-1] is None or last[-2] is None:
            return last[-1]
        return 2 * last[-1] - last[-2]

    try:
        while True:
            c = rd.peek()
            if c == "":
                return segs[count:], "", rd.extreme
            if c not in "MmZzLlHhVvCcSsQqTtAa":
                raise Bad("command")
            rd.pos += 1
            up = c.upper()
            rel = c != up
            if up == "Z":
                segs.append(("Z", current(), zpoint()))
                if trace is not None:
                    trace.append(c)
                if rd.number() is not None:
                    raise Bad("number after z")
                continue
            first = True
            while True:
                # one set of parameters
                if not first:
                    mark = rd.pos
                    if rd.number() is None:
                        break
                    rd.pos = mark
                cur = current()
                vals = []
                usedz = False
                for k in ARGS[up]:
                    if k == "f":
                        v = rd.flag()
                        if v is None:
                            raise Bad("flag")
                    elif k == "p" and (usedz or (rd.peek() in ("z", "Z") and up != "M")):
                        v = zpoint()
                        usedz = True
                    else:
                        v = rd.number()
                        if v is None:
                            raise Bad("number")
                        if k == "p":
                            y = rd.number()
                            if y is None:
                                raise Bad("second coordinate")
                            v = complex(v, y)
                            if rel and cur is not None:
                                v += cur
                    vals.append(v)
                if up == "M":
                    segs.append(("M" if first else "L", cur, vals[0]))
                elif up == "L":
                    segs.append(("L", cur, vals[0]))
                elif up in "HV":
                    if cur is None:
                        raise Bad("no current point")
                    v = vals[0]
                    if up == "H":
                        e = complex(cur.real + v if rel else v, cur.imag)
                    else:
                        e = complex(cur.real, cur.imag + v if rel else v)
                    segs.append(("L", cur, e))
                elif up == "Q":
                    segs.append(("Q", cur, vals[0], vals[1]))
                elif up == "T":
                    segs.append(("Q", cur, smooth("Q"), vals[0]))
                elif up == "C":
                    segs.append(("C", cur) + tuple(vals))
                elif up == "S":
                    segs.append(("C", cur, smooth("C")) + tuple(vals))
                elif up == "A":
                    if cur is None or vals[-1] is None:
                        raise Bad("no current point")
                    segs.append(("A", cur) + tuple(vals))
                if trace is not None:
                    trace.append(c)
                first = False
    except Bad as e:
        return segs[count:], "command" if e.args[0] == "command" else "parameters", rd.extreme
