"""Banners and macros: the block belongs to its header line, flat, up to and including its terminator."""
import itertools
import re

from mc import ref

ID = "C04"
BODY = ["text", " ind", "  deep", "", " ", "! c", "interface Ethernet1"]
MBODY = ["@ y", " x @", "@@"]
KINDS = ["login", "motd", "incoming", "exec", "telnet", "lcd"]
HEADS = ([f"banner {k} ^C" for k in KINDS] + ["banner motd #", "banner motd #hi there", "banner motd m", "banner login o", "banner exec $ x",
         "banner motd # one line #", "banner login ^C one line ^C", "banner motd ##", "set banner motd %", "banner motd  ~", "banner motd @"])
MACRO = ["macro name foo", "macro name interface_one", "macro name x y"]
TAILS = [[], ["z"], ["z", " y"], [" y", "z"], ["", "z"]]
SYN = ["ios", "nxos", "iosxr"]
BOUNDS = {
    "quick": "17 banner headers and 3 macro headers x every body of up to 3 lines over 7 line kinds (10 for macros) x 4 terminator forms x 5 continuations "
             "x syntaxes ios/nxos/iosxr x blank-line/classifier modes; every pair of blocks with bodies of up to 1 line; bodies of 13, 40 and 300 lines, and 40 blocks in one configuration",
    "thorough": "bodies of up to 4 lines",
}
ASSUMPTIONS = ["a block header inside another block's body is out of scope",
               "with the classifier off and blank lines ignored, zero-length lines are discarded before blocks are recognised (documented)"]


def delim(head):
    m = re.match(r"^(?:set\s+)?banner\s+\S+\s+(\S)(.*)$", head)
    return (m.group(1), m.group(2)) if m else (None, "")


def terms(head):
    if head.startswith("macro"):
        return ["@", "@ ", None]
    d, rest = delim(head)
    if d in rest:
        return [None]
    full = "^C" if d == "^" else d
    return [full, f"the end {full}", f"  {full} ", None]


def shards(tier):
    n = 3 if tier == "quick" else 4
    out = []
    for h in HEADS + MACRO:
        for syn in SYN if h not in MACRO else ["ios"]:
            for f in (False, True):
                if h in HEADS[2:6] and (syn, f) != ("ios", True):
                    continue
                out.append({"h": h, "syntax": syn, "factory": f, "n": n if (syn == "ios") else n - 1})
    out.append({"asa": 3})
    out += [{"large": h} for h in HEADS[:2] + HEADS[6:9] + MACRO[:1]]
    for h in ["banner motd ^C", "banner exec #", "macro name foo"]:
        out.append({"pair": h})
    return out


def cases(shard, tier):
    if "large" in shard:
        h = shard["large"]
        for t in terms(h):
            for f in (False, True):
                for ib in (True, False):
                    opt = {"factory": f, "syntax": "ios", "ignore_blank_lines": ib}
                    for n in (13, 40, 300):
                        for body in (["text"] * n, [" " * (i % 7) + BODY[i % 7].strip() for i in range(n)], [" " * i + "x" for i in range(min(n, 60))]):
                            yield {"pre": ["a", " b"], "blocks": [[h, body, t]], "mid": [], "tail": [] if t is None else ["z", " y"], "opt": opt}
                    if t is not None:
                        yield {"pre": ["a", " b"], "blocks": [[h, ["text", " ind"] if i % 3 else [], t] for i in range(40)], "mid": ["q", " r"], "tail": ["z", " y"], "opt": opt}
        return
    if "pair" in shard:
        h1 = shard["pair"]
        for h2 in ["banner motd ^C", "banner login #", "banner motd # x #", "macro name bar"]:
            for b1 in ref.seqs(BODY, 0, 1):
                for b2 in ref.seqs(BODY, 0, 1):
                    for t1 in terms(h1)[:2]:
                        for t2 in terms(h2):
                            for mid in ([], ["q", " r"]):
                                blocks = [[h1, list(b1), t1], [h2, list(b2), t2]]
                                for f in (False, True):
                                    yield {"pre": ["a", " b"], "blocks": blocks, "mid": mid, "tail": [] if t2 is None and "x" not in h2 else ["z", " y"],
                                           "opt": {"factory": f, "syntax": "ios", "ignore_blank_lines": True}}
        return
    if "asa" in shard:
        # ASA banner commands carry one complete line of text and open no block
        for h in ["banner motd Welcome", "banner login Authorized Access only", "banner exec W"]:
            for body in ref.seqs(["z", " y", "W", "hostname A", ""], 0, shard["asa"]):
                for f in (False, True):
                    yield {"pre": [], "blocks": [], "mid": [], "tail": [h, *body],
                           "opt": {"factory": f, "syntax": "asa", "ignore_blank_lines": True}}
        return
    h = shard["h"]
    for body in ref.seqs(BODY + MBODY if h.startswith("macro") else BODY, 0, shard["n"]):
        for t in terms(h):
            closed = t is not None or (not h.startswith("macro") and delim(h)[0] in delim(h)[1])
            for tail in (TAILS if closed else [[]]):
                for pre in ([], ["a", " b"]):
                    if pre and len(body) > 2:
                        continue
                    for ib in (True, False):
                        yield {"pre": pre, "blocks": [[h, list(body), t]], "mid": [], "tail": tail,
                               "opt": {"factory": shard["factory"], "syntax": shard["syntax"], "ignore_blank_lines": ib}}


def check(case, R):
    from ciscoconfparse import CiscoConfParse
    opt = case["opt"]
    ib = opt["ignore_blank_lines"]
    drop_empty = ib and not opt["factory"]
    lines, block_of = [], []   # block_of[i]: index of the header line of the block holding line i, or None
    rows = [(t, None) for t in case["pre"]]
    for bi, (h, body, t) in enumerate(case["blocks"]):
        one_line = not h.startswith("macro") and delim(h)[0] in delim(h)[1]
        if not h.startswith("macro") and not one_line:
            # a body line that contains the delimiter ends the block there
            d = delim(h)[0]
            for k, b in enumerate(body):
                if d in b:
                    t = None
                    rest = body[k + 1:]
                    body = body[:k + 1]
                    break
            else:
                rest = []
        else:
            rest = []
        hi = ("block", bi)
        rows.append((h, ("head", bi)))
        for b in body:
            rows.append((b, None if one_line else hi))
        if t is not None:
            rows.append((t, None if one_line else hi))
        if rest:
            return  # continuation text after an early terminator: a different header/body pair covers it
        if bi == 0:
            rows += [(x, None) for x in case["mid"]]
    rows += [(x, None) for x in case["tail"]]
    src = [r[0] for r in rows]
    kept = []
    for text, tag in rows:
        if tag and tag[0] == "block":
            if text == "" and drop_empty:
                continue
        elif text.strip() == "" and ib:
            continue
        kept.append((text, tag))
    heads = {tag[1]: i for i, (_, tag) in enumerate(kept) if tag and tag[0] == "head"}
    model = ref.tree([k[0] for k in kept], ignore_blank=False)
    what = f"{src!r} {opt}"
    R.state((tuple(src), sorted(opt.items())))
    p = CiscoConfParse(list(src), **opt)
    got = ref.impl_tree(p.ConfigObjs)
    R.eq("text", [g[0] for g in got], [k[0].rstrip() for k in kept], what)
    R.eq("numbering", [g[1] for g in got], list(range(len(kept))), what)
    for i, ((text, tag), g) in enumerate(zip(kept, got)):
        kids = g[3]
        R.true("foreign", g[2] != "foreign" and "foreign" not in kids, f"{what}: line {i} related to a foreign line")
        if tag and tag[0] == "block":
            R.eq("block-parent", g[2], heads[tag[1]], f"{what}: parent of block line {i} {text!r}")
        elif model[i].config:
            R.eq("parent", g[2], model[i].parent.i if model[i].parent else None, f"{what}: parent of line {i} {text!r}")
        elif g[2] is not None:
            q = ref.nearest_less_indented(model, model[i])
            R.true("comment-parent", model[i].comment and q is not None and q.i == g[2], f"{what}: line {i} has parent {g[2]}")
        R.true("kids-sorted", all(a < b for a, b in zip(kids, kids[1:])), f"{what}: children of line {i} are {kids}")
        for c in kids:
            R.true("inverse", got[c][2] == i, f"{what}: {c} is listed under {i} but its parent is {got[c][2]}")
        if g[2] is not None:
            R.true("listed", got[g[2]][3].count(i) == 1, f"{what}: line {i} is not listed once under its parent {g[2]}")
    R.outcome(tuple(g[2] for g in got))
    R.trace()
