"""Saving an edited configuration and reading the file back gives the same configuration."""
import itertools
import os

from mc import core, edits, gen, ref

ID = "C14"
BOUNDS = {
    "quick": "11 configurations x every history of up to 2 operations (39 of 90 in each place), and 26 configurations of up to 300 lines, each saved to a new and over an existing longer file and read back; non-ASCII texts; 15 characters which split or strip lines elsewhere; "
             "a file with mixed line terminators rewritten in place",
    "thorough": "the full alphabet in both places, classifier on and off",
}
ASSUMPTIONS = ["the file system writes what it is given (crash consistency of the write is not promised by the library)"]
UNI = ["interface Eth1", " description caf\u00e9 \u4f60\u597d", " description \U0001f600", "a"]
FILES = True
SPECIAL = ["\x0b", "\x0c", "\x1c", "\x1e", "\x85", "\u2028", "\u2029", "\ufeff", "\xa0", "\x00", "\x1b", "\\n", "%s", "'", "\U0001f600"]


def shards(tier):
    al = list(range(len(edits.ALL)))
    out = [{"uni": 1}, {"large": 1}] + [{"special": c} for c in SPECIAL]
    if tier == "quick":
        return out + edits.shards(2, 0, factory=(False,), configs=al)
    return out + edits.shards(2, 3, configs=al)


def cases(shard, tier):
    if "uni" in shard:
        for enc in ("utf-8", "utf-16", "latin-1"):
            for n in range(len(UNI) + 1):
                lines = UNI[:n] if enc != "latin-1" else [x for x in UNI[:n] if "\u4f60" not in x and "\U0001f600" not in x]
                for ops in ([], [["append", "z\u00e9"]]):
                    if lines or ops:
                        yield {"lines": lines or ["a"], "factory": False, "syntax": "ios", "ops": ops, "encoding": enc, "blank": True}
        for nl in ("\n", "\r\n", "\r\r\n", "\n\n"):
            yield {"lines": ["a", " b", "c"], "nl": nl, "factory": False, "syntax": "ios", "ops": [["at", 1, "after", [" x"]]], "blank": True}
        return
    if "special" in shard:
        c = shard["special"]
        pieces = ["a" + c + "b", " x " + c + " y", " description " + c * 2 + " w", "m"]
        for n in (1, 2):
            for lines in itertools.product(pieces, repeat=n):
                for enc in ("utf-8", "utf-16"):
                    for ops in ([], [["append", "z" + c + "z"]], [["at", 0, "after", [" v" + c + "u"]]]):
                        yield {"lines": list(lines), "factory": False, "syntax": "ios", "ops": ops, "encoding": enc, "blank": True}
        return
    if "large" in shard:
        for lines in gen.large(["interface Eth1", " b", "  c x", "!", " d", "e"], "interface Eth2"):
            for ops in ([], [["append", "zz"]], [["at", len(lines) - 1, "after", [" last"]]], [["at", len(lines) // 2, "delete", []]]):
                yield {"lines": lines, "factory": False, "syntax": "ios", "ops": ops, "blank": "" not in lines}
        return
    for c in edits.cases(shard):
        c["blank"] = "" not in c["lines"] or c["lines"][0].startswith("banner")
        if tier == "quick" and len(c["ops"]) == 2:
            ops = edits.ops_full(edits.ALL[shard["c"]][0])
            if ops.index(c["ops"][0]) % 7 > 2 or ops.index(c["ops"][1]) % 7 > 2:
                continue
        yield c


def face(p):
    return [(r, type(o).__name__) for r, o in zip(ref.impl_tree(p.ConfigObjs), p.ConfigObjs)]


def check(case, R):
    from ciscoconfparse import CiscoConfParse
    enc = case.get("encoding", "utf-8")
    kw = dict(syntax=case["syntax"], factory=case["factory"], ignore_blank_lines=case["blank"], encoding=enc)
    d = core.scratch()
    f1, f2 = os.path.join(d, "a.cfg"), os.path.join(d, "b.cfg")
    if "nl" in case:
        with open(f1, "w", encoding=enc, newline="") as fh:
            fh.write(case["nl"].join(case["lines"]) + case["nl"])
        p = CiscoConfParse(f1, **kw)
    else:
        p = CiscoConfParse(list(case["lines"]), **kw)
    for op in case["ops"]:
        if not len(p.ConfigObjs):
            return
        try:
            edits.apply_impl(p, op)
        except Exception as e:
            if type(e).__name__ != "InvalidParameters":
                raise
            return
    if not len(p.ConfigObjs):
        return
    texts = list(p.ioscfg)
    with open(f2, "w") as fh:
        fh.write("old line\n" * 50)
    target = f1 if "nl" in case else f2
    R.eq("returned", p.save_as(target), True, "save_as()")
    with open(target, "rb") as fh:
        data = fh.read()
    R.eq("file", data.decode(enc), "".join(t + os.linesep for t in texts), f"{texts}:")
    R.eq("unchanged_by_save", list(p.ioscfg), texts, "the saved configuration")
    again = CiscoConfParse(target, **kw)
    p.commit()
    R.eq("reload", face(again), face(p), f"{texts}:")
    again.save_as(target)
    with open(target, "rb") as fh:
        R.eq("resave", fh.read(), data, f"{texts}:")
    R.state((tuple(texts), enc, case["factory"]))
    R.outcome(data)
    R.trace()
