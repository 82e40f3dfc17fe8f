"""Parsing preserves the lines: text, order, numbering -- from a list, a tuple, or a file."""
import itertools
import os
import pathlib


from mc import core, ref

ID = "C01"
FILES = True
ALPHA = ["a", " b", "  c  ", "!", " ! x", "", "   ", "\td\t", "e\r", "no ip x $^[(", "\u00fcn\u00ef \u2603 {", "interface Ethernet0/1"]
SMALL = ["a", " b ", "", "  ", "!"]
TOK = ["a", " b", "", "  ", "! x\t", "\u00e9"]
SEPS = ["\n", "\r\n", "\r", "\r\r\n"]
SPECIAL = ["\x0b", "\x0c", "\x1c", "\x1d", "\x1e", "\x85", "\u2028", "\u2029", "\ufeff", "\xa0", "\u3000", "\x00", "\x07", "\x1b", "\u200b", "\\n", "\\",
           "%s", "{0}", "'", '"', "\u0130", "\u00df", "\U0001f600"]
ENCODINGS = ["utf-8", "utf-16", "utf-8-sig", "latin-1", "cp1252", "utf-32"]
SYN = ["ios", "nxos", "iosxr", "asa"]
BOUNDS = {
    "quick": "all line sequences over a 12-line alphabet up to length 4 (ios), length 3 with every syntax x factory x blank-line "
             "mode, all sequences over 5 lines up to length 6; all file contents of up to 4 tokens over 6 tokens and 4 line terminators; 24 special characters (other line and "
             "form separators, blanks, controls, braces, quotes) inside, before and after the text in sequences of up to 3 lines, in lists and in files; "
             "six encodings",
    "thorough": "the same with lengths 5 / 4 / 7 and files of up to 5 tokens",
}
ASSUMPTIONS = ["block braces in the first column position of a line are out of scope (the parser rejects unbalanced closing braces by design)",
               "lines of banners and macros are covered by C04"]


def shards(tier):
    big, mid, small, files = (4, 3, 6, 4) if tier == "quick" else (5, 4, 7, 5)
    out = []
    for first in [None] + ALPHA:
        out.append({"k": "list", "first": first, "n": big, "opts": ["std"]})
        out.append({"k": "list", "first": first, "n": mid, "opts": ["all"]})
    for first in [None] + SMALL:
        out.append({"k": "small", "first": first, "n": small})
    for first in TOK:
        for sep in SEPS:
            out.append({"k": "file", "first": [first, sep], "n": files - 1})
    out.append({"k": "long"})
    out += [{"k": "special", "ch": c} for c in SPECIAL]
    out += [{"k": "encoding", "enc": e} for e in ENCODINGS]
    return out


def _opts(kind):
    if kind == "std":
        return [{"ignore_blank_lines": ib} for ib in (True, False)]
    return [{"syntax": s, "factory": f, "ignore_blank_lines": ib} for s in SYN for f in (False, True) for ib in (True, False)
            if not (s == "ios" and not f)]


def cases(shard, tier):
    k = shard["k"]
    if k in ("list", "small"):
        alpha = ALPHA if k == "list" else SMALL
        optk = shard.get("opts", ["std"])[0]
        if shard["first"] is None:
            for o in _opts(optk):
                yield {"lines": [], "opt": o}
            return
        for n in range(0, shard["n"]):
            for rest in itertools.product(alpha, repeat=n):
                for o in _opts(optk):
                    yield {"lines": [shard["first"], *rest], "opt": o}
    elif k == "special":
        # a character which splits or strips lines elsewhere, inside, before and after the text of a line
        c = shard["ch"]
        pieces = ["a" + c + "b", " x " + c + " y", c + "z", "q" + c, " description " + c * 2 + " w", "m"]
        for n in (1, 2, 3):
            for lines in itertools.product(pieces, repeat=n):
                for o in _opts("std") + (_opts("all") if n < 3 else []):
                    yield {"lines": list(lines), "opt": o}
                for sep in SEPS:
                    yield {"file": sep.join(lines) + sep, "opt": {"ignore_blank_lines": n != 2}}
    elif k == "encoding":
        enc = shard["enc"]
        toks = [x for x in ["a", " b", "", "\u00e9 \u00fc", " \u4f60\u597d", "\U0001f600", "! \u20ac x"] if encodable(x, enc)]
        for n in (1, 2, 3):
            for lines in itertools.product(toks, repeat=n):
                for sep in SEPS:
                    yield {"file": sep.join(lines) + sep, "enc": enc, "opt": {"ignore_blank_lines": n != 2}}
    elif k == "file":
        pre = "".join(shard["first"])
        for n in range(0, shard["n"]):
            for toks in itertools.product(TOK, repeat=n):
                # the separators rotate through every assignment for the last two positions, LF elsewhere
                for seps in itertools.product(SEPS, repeat=min(n, 2)):
                    full = list(seps) + ["\n"] * (n - len(seps))
                    body = pre + "".join(t + s for t, s in zip(toks, full))
                    for o in ({"ignore_blank_lines": True}, {"ignore_blank_lines": False}):
                        yield {"file": body, "opt": o}
                    if n:
                        yield {"file": body[: -len(full[-1])], "opt": {"ignore_blank_lines": True, "factory": True}}
    else:
        for n in (50, 257, 1100):
            for step in (1, 3, 7):
                lines = []
                for i in range(n):
                    d = (i * step) % 9
                    lines.append("" if i % 11 == 5 else " " * d + f"w{i} " + "x" * (i % 90))
                for o in _opts("std") + _opts("all"):
                    yield {"lines": lines, "opt": o}
        for w in (255, 1000, 5000):
            for o in _opts("std"):
                yield {"lines": ["z" * w, " " * w + "y", "x" + " " * w, "!" * w], "opt": o}


def encodable(x, enc):
    try:
        x.encode(enc)
    except UnicodeEncodeError:
        return False
    return True


def verify(R, p, want, what):
    got = [o.text for o in p.ConfigObjs]
    R.eq("text", got, want, what)
    R.eq("ioscfg", list(p.ioscfg), want, what)
    R.eq("len", len(p.ConfigObjs), len(want), what)
    R.eq("objs", [o.text for o in p.objs], want, what)
    nums = [o.linenum for o in p.ConfigObjs]
    R.eq("numbering", nums, list(range(len(want))), f"{what} text={want!r}")
    R.eq("index", [p.ConfigObjs[i].text for i in range(len(want))], want, what)
    R.outcome((tuple(want)))


def check(case, R):
    from ciscoconfparse import CiscoConfParse
    opt = dict(case["opt"])
    ib = opt.get("ignore_blank_lines", True)
    if "lines" in case:
        lines = case["lines"]
        R.state((tuple(lines), sorted(opt.items())))
        want = [x.rstrip() for x in ref.keep(lines, ib)]
        arg = list(lines)
        p = CiscoConfParse(arg, **opt)
        verify(R, p, want, f"list {lines!r} {opt}")
        R.eq("input-untouched", arg, lines, "the caller's list was modified")
        if not opt.get("factory"):
            p = CiscoConfParse(tuple(lines), **opt)
            verify(R, p, want, f"tuple {lines!r} {opt}")
    else:
        body = case["file"]
        R.state((body, sorted(opt.items())))
        split = body.replace("\r\n", "\n").replace("\r", "\n").split("\n")
        if len(split) > 1 and split[-1] == "":
            split.pop()  # the empty piece after the last line terminator is not a line of the file
        want = [x.rstrip() for x in ref.keep(split, ib)]
        path = os.path.join(core.scratch(), f"cfg{os.getpid()}.txt")
        with open(path, "wb") as fh:
            fh.write(body.encode(case.get("enc", "utf-8")))
        try:
            for arg in (path, pathlib.Path(path)):
                p = CiscoConfParse(arg, encoding=case.get("enc", "utf-8"), **opt)
                verify(R, p, want, f"file {body!r} {opt}")
        finally:
            os.unlink(path)
    R.trace()
