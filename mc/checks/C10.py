"""Family extraction: a match brings exactly its children, descendants, siblings with ancestors, or lineage; interfaces are found by abbreviation."""
import itertools
import re

from mc import gen, ref

ID = "C10"
LINES = ["a", "b  x", " a", " b x", "  a", "  b x", "   a", " !a", "ab"]
PATS = ["a", "^a", "a$", "b|a", "b x", r"^\s+a", r"^ \S", r"^  \S", r"^   \S", "zz", "x", "!", r"^\s*a"]
TYPES = ["Ethernet", "FastEthernet", "GigabitEthernet", "Port-channel", "Vlan", "Loopback"]
NUMS = ["0/1", "0/11", "1", "11", "1/0/1", "0/1.1"]
BOUNDS = {
    "quick": "every configuration of up to 5 lines over 9 texts at 4 indents x 13 regexes x exactmatch x ignore_ws for every extraction method, and the same in 26 configurations of up to 300 lines and 30 levels; every pair of "
             "6 interface types x 6 numbers looked up under every abbreviation of both, with and without a space, in 3 letter cases",
    "thorough": "up to 6 lines; every triple of interfaces over 4 types x 4 numbers",
}
ASSUMPTIONS = ["the tree is read from the parent links that C02 decides", "find_blocks is judged for regexes which match nested lines only; find_lineage for regexes which match"]


def shards(tier):
    n = 5 if tier == "quick" else 6
    out = [{"large": i} for i in range(4)] + [{"pre": [], "n": 0}] + [{"pre": [a], "n": 0} for a in LINES]
    for a in LINES:
        for b in LINES:
            out.append({"pre": [a, b], "n": n - 2})
    for t in TYPES:
        for u in TYPES:
            out.append({"t": t, "u": u})
    return out


def cases(shard, tier):
    if "large" in shard:
        for lines in list(gen.large(LINES + ["A", " B x", "  A", "a" * 300, "  b" + " x" * 200], "a"))[shard["large"]::4]:
            yield {"lines": lines}
        return
    if "t" in shard:
        for m in NUMS:
            for k in NUMS:
                for s in ("ios", "nxos", "iosxr"):
                    yield {"intfs": [shard["t"] + m, shard["u"] + k], "s": s}
        if tier == "thorough" and shard["t"] in TYPES[:4] and shard["u"] in TYPES[:4]:
            for m, k, v in itertools.product(NUMS[:4], repeat=3):
                for w in TYPES[:4]:
                    yield {"intfs": [shard["t"] + m, shard["u"] + k, w + v], "s": "ios"}
        return
    for n in range(shard["n"] + 1):
        for rest in itertools.product(LINES, repeat=n):
            yield {"lines": shard["pre"] + list(rest)}


def check_intf(case, R):
    from ciscoconfparse import CiscoConfParse
    lines = []
    for i in case["intfs"]:
        lines += ["interface " + i, " description x"]
    R.state((tuple(lines), case["s"]))
    p = CiscoConfParse(lines, syntax=case["s"], factory=True)
    pos = {id(o): i for i, o in enumerate(p.ConfigObjs)}

    def split(x):
        m = re.match(r"([A-Za-z-]+)(.*)", x)
        return m.group(1).lower(), m.group(2)
    have = [split(x) for x in case["intfs"]]
    asked = set()
    for t, num in have:
        for k in range(1, len(t) + 1):
            for sep in ("", " "):
                asked.add((t[:k], sep, num))
    asked |= {("zz", "", have[0][1]), (have[0][0], "", "9"), (have[0][0] + "x", "", have[0][1])}
    for typ, sep, num in sorted(asked):
        want = [2 * i for i, (t, m) in enumerate(have) if m == num and t.startswith(typ)][:1]
        for v in (typ, typ.upper(), typ.capitalize()):
            R.eq("find_interface_objects", [pos.get(id(o), "foreign") for o in p.find_interface_objects(v + sep + num)], want,
                 f"{case!r} find_interface_objects({v + sep + num!r})")
    R.outcome(tuple(have))
    R.trace()


def ws(p):
    return r"\s+".join(re.split(r"\s+", p))


def check(case, R):
    if "intfs" in case:
        return check_intf(case, R)
    from ciscoconfparse import CiscoConfParse
    lines = case["lines"]
    R.state(tuple(lines))
    p = CiscoConfParse(list(lines))
    objs = list(p.ConfigObjs)
    n = len(objs)
    before = ref.impl_tree(objs)
    par = [r[2] for r in before]
    kids = [[j for j in range(n) if par[j] == i] for i in range(n)]

    def anc(i):
        r = []
        while par[i] is not None:
            i = par[i]
            r.append(i)
        return r
    ancs = [anc(i) for i in range(n)]
    desc = [[j for j in range(n) if i in ancs[j]] for i in range(n)]

    def txt(idx):
        return [lines[i] for i in sorted(set(idx))]

    for pat in PATS:
        for ign in (False, True):
            if ign and " " not in pat:
                continue
            rx = re.compile(ws(pat) if ign else pat)
            for exact in (False, True):
                f = rx.fullmatch if exact else rx.search
                P = [i for i in range(n) if f(lines[i])]
                w = f"{lines!r} regex={pat!r} exactmatch={exact} ignore_ws={ign}"
                kw = dict(exactmatch=exact, ignore_ws=ign)
                R.eq("find_children", list(p.find_children(pat, **kw)), txt(j for i in P for j in [i] + kids[i]), w)
                R.eq("find_all_children", list(p.find_all_children(pat, **kw)), txt(j for i in P for j in [i] + desc[i]), w)
                if all(par[i] is not None for i in P):
                    sib = {j for i in P for j in kids[par[i]]}
                    R.eq("find_blocks", list(p.find_blocks(pat, **kw)), txt(list(sib) + [a for i in P for a in ancs[i]]), w)
                if not ign and P:
                    if len(P) > 1:
                        try:
                            p.find_lineage(pat, exactmatch=exact)
                            R.fail("find_lineage", f"{w}: ambiguous match accepted")
                        except ValueError:
                            R.step()
                    else:
                        i = P[0]
                        R.eq("find_lineage", list(p.find_lineage(pat, exactmatch=exact)), txt(ancs[i] + [i] + desc[i]), w)
    R.eq("unchanged", ref.impl_tree(p.ConfigObjs), before, "configuration after the searches")
    R.outcome(tuple(par))
    R.trace()
