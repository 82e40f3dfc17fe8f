"""Every history of editing operations leaves exactly the lines which the same history leaves in a plain list."""
from mc import edits

ID = "C12"
BOUNDS = {
    "quick": "7 configurations (3 of them also with the classifier on) x every history of up to 2 operations over 90 parser-, line- and list-level operations, every single operation on 4 configurations of 18 to 60 lines, and every history of exactly 3 "
             "over 20 of them; every operation of the 90, a commit, and then an insertion or deletion through every line object from before that commit",
    "thorough": "histories of up to 3 over the full alphabet and of 4 over the core alphabet; 2 and 3 with the classifier on; depth 2 in four syntaxes",
}
ASSUMPTIONS = ["between a change and the next commit the family of a line is its family at the last commit, as documented",
               "a line object from before a commit stands for the line it was committed as, until that line moves"]
OLD = (("before", "zz"), ("after", "zz"), ("family", " zz"), ("delete", True), ("delete", False))


def shards(tier):
    old = [{"old": c} for c in range(len(edits.CONFIGS))]
    return old + edits.large(depth=1 if tier == "quick" else 2) + histories(tier)


def histories(tier):
    if tier == "quick":
        return edits.shards(2, 3, factory=(False,)) + edits.shards(2, 0, factory=(True,), configs=[0, 3, 6])
    return edits.shards(3, 4, factory=(False,)) + edits.shards(2, 3, factory=(True,), core_factory=(True,)) + edits.shards(2, 0, ("nxos", "iosxr", "asa"))


def cases(shard, tier):
    if "old" not in shard:
        yield from edits.cases(shard)
        return
    v, cfg = edits.CONFIGS[shard["old"]]
    for op in edits.ops_full(v):
        for act in OLD:
            for i in range(len(cfg)):
                yield {"lines": cfg, "first": op, "i": i, "act": act, "factory": False, "syntax": "ios"}


def check_old(case, R):
    """a line object from before a commit"""
    from ciscoconfparse import CiscoConfParse
    res = []
    for old in (False, True):
        p = CiscoConfParse(list(case["lines"]), syntax=case["syntax"], factory=case["factory"])
        try:
            o = p.ConfigObjs[case["i"]]
            edits.apply_impl(p, case["first"])
            k = [x is o for x in p.ConfigObjs].index(True)
        except ValueError:  # refused, deleted or reparsed
            return
        except Exception as e:
            R.true("error_type", type(e).__name__ == "InvalidParameters", f"{case['first']}: {type(e).__name__}")
            return
        p.commit()
        if not old:
            o = p.ConfigObjs[k]
        verb, arg = case["act"]
        if verb == "delete":
            o.delete(arg)
        else:
            {"before": o.insert_before, "after": o.insert_after, "family": o.append_to_family}[verb](arg)
        res.append((p.ioscfg, [x.linenum for x in p.ConfigObjs]))
    R.eq("old_object", res[1], res[0], f"{case['first']}, commit, {case['act']} through the line object found before the commit at {case['i']}:")
    R.outcome(res[0][0])
    R.trace()


def check(case, R):
    if "act" in case:
        return check_old(case, R)
    from ciscoconfparse import CiscoConfParse
    m = edits.Model(case["lines"])
    p = CiscoConfParse(list(case["lines"]), syntax=case["syntax"], factory=case["factory"])
    hist = []
    for op in case["ops"]:
        hist.append(op)
        if not m.lines:
            return  # an emptied configuration is the end of the history
        want = edits.apply_model(m, op)
        if want == edits.ERR:
            try:
                edits.apply_impl(p, op)
            except Exception as e:
                R.true("error_type", type(e).__name__ == "InvalidParameters", f"{op}: {type(e).__name__}")
            else:
                R.fail("blank_accepted", f"{op} inserted a blank line")
        else:
            got = edits.apply_impl(p, op)
            if want != "*":
                R.eq("returned", got, want, f"after {hist}:")
        texts = m.texts()
        R.eq("lines", [x.rstrip() for x in p.ioscfg], [x.rstrip() for x in texts], f"after {hist}:")
        R.eq("numbers", [o.linenum for o in p.ConfigObjs], list(range(len(texts))), f"after {hist}:")
        R.eq("indents", [o.indent for o in p.ConfigObjs], [edits.indent(x) for x in texts], f"after {hist}:")
        R.state((tuple(texts), case["factory"], case["syntax"]))
    R.trace()
    R.outcome(tuple(m.texts()))
