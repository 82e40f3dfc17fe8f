"""A brace-delimited configuration parses to the hierarchy its braces spell out, whatever its layout."""
import itertools

from mc import ref

ID = "C06"
# token -> (source text, depth before, depth after, parsed text or None for a line which carries no statement)
TOK = {
    "O": ("x%d {", 0, 1, "x%d"),
    "C": ("}", -1, 0, None),
    "L": ("a%d b;", 0, 0, "a%d b"),
    "K": ("# c%d # d {", 0, 0, "# c%d # d {"),
    "E": ("e%d { }", 0, 0, "e%d"),
    "S": ("s%d { t; }", 0, 0, "s%d { t; }"),
    "Q": ('q%d "u { v }";', 0, 0, 'q%d "u { v }"'),
    "A": ("} y%d {", -1, 1, "y%d"),
    "B": ("", 0, 0, None),
}
FMT = ["four", "flat", "odd"]
BOUNDS = {
    "quick": "every sequence of up to 6 brace-syntax lines over 9 line kinds that never closes more than it opened (truncated files "
             "included), every balanced one over 6 kinds up to 8 lines, x 3 layouts x classifier on/off x blank-line mode; nesting to depth 30, 300 statements and 150 blocks in one block",
    "thorough": "the same with 7 / 10 lines",
}
ASSUMPTIONS = ["'show configuration' layout: a line opens at most one block, at its end, and closes at most one, at its start",
               "a configuration without any statement is rejected by design"]
BAL = ["O", "C", "L", "A", "E", "K"]


def shards(tier):
    n, m = (6, 8) if tier == "quick" else (7, 10)
    out = [{"k": "deep"}]
    for a in TOK:
        for b in TOK:
            out.append({"k": "any", "pre": [a, b], "n": n - 2})
        out.append({"k": "any", "pre": [a], "n": 0})
    for a in BAL:
        for b in BAL:
            for c in BAL:
                out.append({"k": "bal", "pre": [a, b, c], "n": m})
    return out


def words(pre, alpha, n, balanced):
    """every word of length <= len(pre)+n that starts with pre and never closes more than it opened"""
    def depth(w):
        d = 0
        for t in w:
            d += TOK[t][1]
            if d < 0:
                return None
            d += {"O": 1, "A": 1}.get(t, 0)
        return d

    def rec(w, left):
        d = depth(w)
        if d is None or (balanced and d > left):
            return
        if (not balanced or d == 0) and set(w) != {"B"}:
            yield w
        if left:
            for t in alpha:
                yield from rec(w + [t], left - 1)
    yield from rec(list(pre), n)


def cases(shard, tier):
    if shard["k"] == "deep":
        for n in (13, 40, 150):
            for w in (["O"] + ["L"] * (2 * n) + ["C"], ["O"] + ["O", "L", "C"] * n + ["C", "L"], ["L"] * n + ["O", "E", "K"] * (n // 5) + ["C"] * (n // 5), ["O", "L", "A", "S", "C"] * (n // 5) + ["Q"]):
                for fmt in FMT:
                    for f in (False, True):
                        yield {"w": w, "fmt": fmt, "factory": f, "ib": True}
        for n in (5, 30):
            for w in (["O"] * n + ["L"] + ["C"] * n, ["O", "L"] * n + ["C", "L"] * n, (["O"] * 3 + ["A", "L"] + ["C"] * 3) * (n // 3)):
                for fmt in FMT:
                    yield {"w": w, "fmt": fmt, "factory": False, "ib": True}
        return
    if shard["k"] == "any":
        for w in words(shard["pre"], list(TOK), shard["n"], False):
            for fmt in FMT:
                yield {"w": w, "fmt": fmt, "factory": False, "ib": True}
            if len(w) <= 4:
                yield {"w": w, "fmt": "four", "factory": True, "ib": True}
                yield {"w": w, "fmt": "four", "factory": False, "ib": False}
                yield {"w": w, "fmt": "odd", "factory": True, "ib": False}
    else:
        for w in words(shard["pre"], BAL, shard["n"] - 3, True):
            yield {"w": w, "fmt": "four", "factory": False, "ib": True}


def source(w, fmt):
    """source lines, and per line (text or None, depth)"""
    d, lines, model = 0, [], []
    for i, t in enumerate(w):
        src, before, _, txt = TOK[t]
        d += before
        src = src.replace("%d", str(i))
        if fmt == "four":
            lines.append(" " * 4 * d + src)
        elif fmt == "flat":
            lines.append(src)
        else:
            lines.append("\t" * (i % 2) + " " * (i % 3) + src.replace(" {", "{").replace("e%d{ }" % i, "e%d {}" % i) + " " * (i % 2))
        model.append((None if txt is None else txt.replace("%d", str(i)), d))
        d += {"O": 1, "A": 1}.get(t, 0)
    return lines, model


def check(case, R):
    from ciscoconfparse import CiscoConfParse
    w, fmt, ib = case["w"], case["fmt"], case["ib"]
    lines, model = source(w, fmt)
    want, stack = [], []
    for t, (txt, d) in zip(w, model):
        del stack[d:]
        if txt is None:
            if not ib:
                want.append(("", "any"))
            continue
        if fmt == "odd":
            txt = txt.replace(" {", "{")
        want.append((txt, stack[-1] if stack else None))
        if t in "OA":
            stack.append(len(want) - 1)
    R.state((tuple(lines), ib, case["factory"]))
    what = f"{lines!r} ignore_blank_lines={ib} factory={case['factory']}"
    p = CiscoConfParse(list(lines), syntax="junos", factory=case["factory"], ignore_blank_lines=ib)
    rows = ref.impl_tree(p.ConfigObjs)
    R.eq("statements", [r[0].strip() for r in rows], [x[0] for x in want], what)
    R.eq("numbering", [r[1] for r in rows], list(range(len(rows))), what)
    for i, (r, x) in enumerate(zip(rows, want)):
        if x[0] == "":
            R.eq("blank_line_family", r[3], [], f"{what} line {i}")
            continue
        R.eq("parent", r[2], x[1], f"{what} line {i} {x[0]!r}")
        R.eq("children", r[3], [j for j, y in enumerate(want) if y[0] != "" and y[1] == i], f"{what} line {i} {x[0]!r}")
        depth, q = 0, x[1]
        while q is not None:
            depth, q = depth + 1, want[q][1]
        R.eq("indent", len(r[0]) - len(r[0].lstrip()), 4 * depth, f"{what} line {i} {x[0]!r}")
    R.outcome(tuple((x[1], len(x[0]) and x[0][0]) for x in want))
    R.trace()
