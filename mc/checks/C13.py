"""Committing an edited configuration gives the configuration which parsing its lines afresh gives."""
from mc import edits, ref

ID = "C13"
BOUNDS = {
    "quick": "11 configurations (with banners, macros, comments, kept blank lines) x classifier off (on: 4 of them) x every history of up to 2 of 88 operations, committed at the end, and every single operation on 4 configurations of 18 to 60 lines, from the parsed and from a committed configuration",
    "thorough": "every history of up to 2 operations in four syntaxes with the classifier on and off, and of 3 operations on four configurations",
}
ASSUMPTIONS = ["the meaning of a fresh parse is decided by C01-C06"]


def shards(tier):
    al = list(range(len(edits.ALL)))
    if tier == "quick":
        return edits.large() + edits.shards(2, 0, factory=(False,), configs=al) + edits.shards(2, 0, factory=(True,), configs=[2, 6, 7, 9])
    return edits.large(("ios", "nxos", "iosxr", "asa")) + edits.shards(2, 3, syntaxes=("ios", "nxos", "iosxr", "asa"), configs=al, core_factory=(True, False)) + edits.shards(3, 0, factory=(False,), configs=[0, 6, 7, 9])


def cases(shard, tier):
    for c in edits.cases(shard):
        c["blank"] = "" not in c["lines"] or c["lines"][0].startswith("banner")
        yield c
        yield dict(c, pre=True)


def face(p):
    rows = ref.impl_tree(p.ConfigObjs)
    return [(t, n, par, kids, type(o).__name__, o.is_comment, o.indent, o.confobj is p.ConfigObjs)
            for (t, n, par, kids), o in zip(rows, p.ConfigObjs)]


def check(case, R):
    from ciscoconfparse import CiscoConfParse
    kw = dict(syntax=case["syntax"], factory=case["factory"], ignore_blank_lines=case["blank"])
    p = CiscoConfParse(list(case["lines"]), **kw)
    if case.get("pre"):
        p.commit()
    for op in case["ops"]:
        if not len(p.ConfigObjs):
            return
        n = len(p.ConfigObjs)
        try:
            edits.apply_impl(p, op)
        except Exception as e:
            if type(e).__name__ != "InvalidParameters":
                raise
            return
        if any(isinstance(x, dict) and x.get("atomic") for x in op) or op[0] == "append" or (op[0] == "ldel" and len(p.ConfigObjs) != n) or op[-1] is True:
            texts = list(p.ioscfg)
            R.eq("atomic", face(p), face(CiscoConfParse(texts, **kw)), f"right after {op} on {texts}:")
    if not len(p.ConfigObjs):
        return
    texts = list(p.ioscfg)
    fresh = CiscoConfParse(texts, **kw)
    p.commit()
    R.eq("commit", face(p), face(fresh), f"{case['ops']} -> {texts}:")
    p.commit()
    R.eq("commit_twice", face(p), face(fresh), f"{case['ops']} -> {texts}:")
    R.eq("search", [o.linenum for o in p.find_objects("^")], list(range(len(fresh.ConfigObjs))), f"{texts}:")
    R.state((tuple(texts), case["factory"], case["syntax"]))
    R.outcome(repr(face(p)))
    R.trace()
