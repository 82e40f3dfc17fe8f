"""Shared generators of small configurations."""


def shape_line(s, i, same=False, comment="!"):
    """One line of a shape word.  '0'..'9': configuration line at that indent; 'cN': comment at indent N;
    'e': empty; 'w': whitespace only; 't': configuration line indented by one tab."""
    tag = "x" if same else f"x{i}"
    if s == "e":
        return ""
    if s == "w":
        return "  "
    if s == "t":
        return "\t" + tag
    if s[0] == "c":
        return " " * int(s[1:]) + comment + ("k" if same else f"k{i}")
    return " " * int(s) + tag


def shape_lines(shape, same=False, comment="!"):
    return [shape_line(s, i, same, comment) for i, s in enumerate(shape)]


def large(base, top, sizes=(13, 40, 130, 300)):
    """Configurations far beyond the enumerated sizes: long ones, one section with many lines, many sections, and deep staircases."""
    low = [x for x in base if x[:1] == " "]
    flat = [x.strip() for x in base if x.strip()[:1] not in ("!", "#")]
    for n in sizes:
        for step in (1, 5):
            yield [base[i * step % len(base)] for i in range(n)]
        yield [top] + [low[i % len(low)] for i in range(n)]
        yield [top] + [low[0]] * n + [top] + [low[-1]] * 2
        yield [x for i in range(n // 2) for x in (top, low[i % len(low)])]
    for n in (13, 30):
        up = [" " * i + flat[i % len(flat)] for i in range(n)]
        yield up
        yield up + up[::-1]
        yield up + [low[0]] * 14 + up[:3]
