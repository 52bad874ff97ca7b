"""Text files <-> the lines of module MVFormat."""
import re

RE_P = re.compile(r"^p[ \t]+(\S+)[ \t]+(-?\d+)[ \t]+(-?\d+)[ \t]*$")
RE_D = re.compile(r"^d[ \t]+(\d+)[ \t]+(\d+)[ \t]*$")
RE_INT = re.compile(r"^-?\d{1,9}$")
RE_VAL = re.compile(r"^(-?)(\d{1,9})(=|!=)(\d{1,9})$")


def word(w):
    if RE_INT.match(w):
        return [int(w)]
    m = RE_VAL.match(w)
    if m:
        neg, v, rel, d = m.groups()
        if neg and rel == "=":
            return [int(v), 3, int(d)]
        if not neg:
            return [int(v), 1 if rel == "=" else 0, int(d)]
    return None


def lex(text):
    out = []
    lines = text.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    for s in lines:
        if s.startswith("c"):
            out.append({"k": "c", "s": s[:200]})
            continue
        m = RE_P.match(s)
        if m:
            out.append({"k": "p", "w": m.group(1), "a": int(m.group(2)), "b": int(m.group(3))})
            continue
        m = RE_D.match(s)
        if m:
            out.append({"k": "d", "v": int(m.group(1)), "n": int(m.group(2))})
            continue
        ws = s.split()
        if not ws:
            out.append({"k": "b"})
            continue
        t = [word(w) for w in ws]
        if any(x is None for x in t):
            out.append({"k": "?", "s": s[:200]})
        else:
            out.append({"k": "x", "t": t})
    return out


def boolean_text(nv, cls, comments=()):
    out = ["c %s" % c for c in comments]
    out += ["p cnf %d %d" % (nv, len(cls))]
    out += [" ".join(str(x) for x in c) + (" 0" if c else "0") for c in cls]
    return "\n".join(out) + "\n"
