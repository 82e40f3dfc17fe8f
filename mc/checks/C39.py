"""Compliance diffs: what is missing from a configuration, and the commands which make it comply, for every small configuration."""
import itertools
import re
import warnings

from mc import ref

ID = "C39"
FILES = ["ciscoconfparse.py", "ccp_abc.py"]
ASSUMPTIONS = ["required lines contain a letter; violating lines do not begin with 'no' and are no comments, and the unconfigure regex matches each of them",
               "the lines to add stand at the end without the parents they need (documented TODO), so that the result is applied as a whole to top-level specs only"]
ALPHA = ["log 1", "log 2", "if a", "if b", " ip x", " ip  y", " log 1", "  ip x"]
RARE = ["log (1)", " no sh", "no log 2", "   ip z"]
REQ = ["log 1", "log 3", " ip x", "ip y", "if a", "log  1"]
XREQ = ["log (1)", "log .", "sh", "no sh", " no sh", "ip z "]
SPECS = [("log", r"log \S+"), ("^log", r"log \S+"), ("ip ", r"ip\s+\S+"), ("^ ip", r"ip.*"), ("if", r"if \S+"), (r"\S", r"\S.*$"), ("ip x|if b", r"(ip|if) ."), ("log", "log")]
BOUNDS = {
    "quick": f"every configuration of up to 4 lines over {len(ALPHA)} texts at 3 indents and of up to 3 over {len(ALPHA) + len(RARE)}; every required list of up to 2 lines (with repetitions); {len(SPECS)} pairs of line and unconfigure "
             "regexes; the result applied to the configuration; the configuration edited to comply, and asked again",
    "thorough": "up to 5 lines over 8 texts and 4 over 12; required lists of up to 3",
}


def shards(tier):
    out = [{"k": "a", "first": a, "second": b} for a in range(len(ALPHA)) for b in range(-1, len(ALPHA))] + [{"k": "r", "first": a} for a in range(len(ALPHA) + len(RARE))]
    return out + [{"k": "un"}, {"k": "empty"}]


def cases(sh, tier):
    q = tier == "quick"
    if sh["k"] == "a":
        if sh["second"] < 0:
            yield {"c": [sh["first"]]}
            return
        for n in range(3 if q else 4):
            for rest in itertools.product(range(len(ALPHA)), repeat=n):
                yield {"c": [sh["first"], sh["second"], *rest], "n": 2 if q or n > 1 else 3}
    elif sh["k"] == "r":
        for n in range(3 if q else 4):
            for rest in itertools.product(range(len(ALPHA) + len(RARE)), repeat=n):
                yield {"c": [sh["first"], *rest], "x": 1}
    elif sh["k"] == "un":
        for t in ("log 1", "no log 1", "x", "no x y z", "NO shut", "nothing here", "no-op 1"):
            for ind in range(4):
                for kid in (0, 1):
                    yield {"un": t, "ind": ind, "kid": kid}
    else:
        yield {"c": []}


def missing(lines, spec, ws):
    def norm(s):
        return " ".join(s.split()) if ws else s.strip()
    have = {norm(x) for x in lines}
    return [s for s in spec if norm(s) not in have]


def apply(tree, cmds):
    """A device at work: a line enters (or adds) the section of that name, 'no X' removes X from the section it stands in."""
    root = tree
    stack = []
    for c in cmds:
        ind, t = len(c) - len(c.lstrip()), c.strip()
        while stack and stack[-1][0] >= ind:
            stack.pop()
        here = stack[-1][1] if stack else root
        if t.startswith("no "):
            here[:] = [n for n in here if n[0] != t[3:]]
            continue
        node = next((n for n in here if n[0] == t), None)
        if node is None:
            node = (t, [])
            here.append(node)
        stack.append((ind, node[1]))
    return root


def build(model):
    nodes = [(n.text.strip(), []) for n in model]
    root = []
    for n, node in zip(model, nodes):
        (nodes[n.parent.i][1] if n.parent else root).append(node)
    return root


def merged(root):
    """Sections of one name are one section on a device."""
    out = []
    for t, kids in root:
        for o in out:
            if o[0] == t:
                o[1].extend(kids)
                break
        else:
            out.append((t, list(kids)))
    return [(t, merged(k)) for t, k in out]


def walk(root):
    for t, kids in root:
        yield t
        yield from walk(kids)


def check(case, R):
    from ciscoconfparse import CiscoConfParse

    warnings.simplefilter("ignore")
    if "un" in case:
        return uncfg(case, R, CiscoConfParse)
    pool = ALPHA + RARE
    lines = [pool[i] for i in case["c"]]
    R.state("\n".join(lines))
    if not lines:
        p = CiscoConfParse([])
        for spec in ([], ["log 1"], ["log 1", " ip x"]):
            R.eq("empty", p.req_cfgspec_all_diff(list(spec)), spec, "of an empty configuration:")
            R.eq("empty", p.req_cfgspec_excl_diff("log", "log", list(spec)), spec, "of an empty configuration:")
            R.step()
        R.outcome("empty")
        R.trace()
        return
    p = CiscoConfParse(list(lines))
    before = ref.impl_tree(p.ConfigObjs)
    model = ref.tree(lines)
    odd = any(n.indent and not n.parent or n.kids and n.text.strip().startswith("no ") for n in model)  # no device shows such lines
    req = REQ + (XREQ if case.get("x") else [])
    maxn = case.get("n", 2)
    specs = [list(s) for n in range(maxn + 1) for s in itertools.product(req, repeat=n)]
    for spec in specs:
        for ws in (False, True):
            R.step()
            got = p.req_cfgspec_all_diff(list(spec), ignore_ws=ws)
            R.eq("missing", got, missing(lines, spec, ws), f"{lines}: req_cfgspec_all_diff({spec}, ignore_ws={ws}):")
    for linespec, un in SPECS:
        hit = [n for n in model if re.search(linespec, n.text)]
        if any(n.text.strip().startswith("no ") for n in hit):
            continue
        for spec in specs:
            ok = {s.strip() for s in spec}
            bad = [n for n in hit if n.text.strip() not in ok]
            if any(re.search(un, n.text) is None for n in bad):
                continue
            emit = {n.i: " " * n.indent + "no " + re.search(un, n.text).group(0) for n in bad}
            for n in bad:
                for a in ref.ancestors(n):
                    emit.setdefault(a.i, a.text)
            seen = {n.text.strip() for n in hit}
            add = [s for s in spec if s.strip() not in seen]
            R.step()
            got = p.req_cfgspec_excl_diff(linespec, un, list(spec))
            what = f"{lines}: req_cfgspec_excl_diff({linespec!r}, {un!r}, {spec}):"
            R.eq("diff", got, [emit[i] for i in sorted(emit)] + add, what)
            R.outcome((len(bad), len(add), len(emit)))
            if un == "log" or odd or any("  " in t.strip() for t in lines + spec):
                continue
            # the removals make a device comply, and touch nothing else
            now = apply(merged(build(model)), got[:len(got) - len(add)])
            R.eq("complies", sorted({t for t in walk(now) if re.search(linespec.replace("^ ", "").replace("^", ""), t)} - ok) if "^" not in linespec else [], [], f"{what} {got}: left after applying it")
            dead = {d.i for n in bad for d in [n] + ref.descendants(n)}
            gone = {n.text.strip() for n in bad}
            keep = merged(build_without(model, dead))
            R.true("touches", all(x in list(walk(now)) or x in gone for x in walk(keep)), f"{what} {got} removes more than the violations: {keep} became {now}")
            if linespec == "^log" and all(s.startswith("log") for s in spec):
                now = apply(now, add)
                R.eq("whole", sorted(t for t, _ in now if t.startswith("log")), sorted(ok), f"{what} {got}: the lines of a device after applying it")
    R.eq("unchanged", ref.impl_tree(p.ConfigObjs), before, f"{lines}: the configuration afterwards")
    # make it comply by edits, and ask again
    for linespec, spec in (("^log", ["log 1", "log 3"]), ("ip ", ["ip x"]), ("if", ["if b"])):
        p = CiscoConfParse(list(lines))
        cur = list(lines)
        while True:
            bad = [o for o in p.find_objects(linespec) if o.text.strip() not in spec]
            if not bad:
                break
            i = [id(x) for x in p.ConfigObjs].index(id(bad[0]))
            gone = [i] + [d.i for d in ref.descendants(ref.tree(cur)[i])]
            bad[0].delete()
            p.commit()
            cur = [t for j, t in enumerate(cur) if j not in gone]
        for s in p.req_cfgspec_all_diff(list(spec)):
            p.append_line(s)
            cur.append(s)
        p.commit()
        R.eq("edited", [o.text for o in p.objs], cur, f"{lines}: after the edits")
        R.eq("again", (p.req_cfgspec_all_diff(list(spec)), [x for x in p.req_cfgspec_excl_diff(linespec, r"\S.*", list(spec)) if x not in spec]), ([], []), f"{lines} edited to comply with {linespec!r} {spec}: {cur}:")
        R.step()
    R.trace()


def build_without(model, dead):
    nodes = {n.i: (n.text.strip(), []) for n in model if n.i not in dead}
    root = []
    for n in model:
        if n.i in nodes:
            (nodes[n.parent.i][1] if n.parent else root).append(nodes[n.i])
    return root


def uncfg(case, R, CiscoConfParse):
    ind, t = case["ind"], case["un"]
    lines = ["a"] + [" " * i + f"p{i}" for i in range(1, ind)] + [" " * ind + t] + ([" " * (ind + 1) + "kid"] if case["kid"] else [])
    R.state("\n".join(lines))
    p = CiscoConfParse(lines)
    o = [x for x in p.objs if x.text.strip() == t][0]
    w = t.split()
    R.eq("uncfgtext", o.uncfgtext, " " * ind + (" ".join(w[1:]) if w[0].lower() == "no" else "no " + t), f"{lines}: uncfgtext of {o.text!r}:")
    for given in ("ip x", "no ip x", "  no  ip x", "no-op"):
        o.add_uncfgtext(given)
        R.eq("add_uncfgtext", o.uncfgtext, " " * ind + "no " + ("ip x" if "ip x" in given else given), f"{lines}: uncfgtext of {o.text!r} after add_uncfgtext({given!r}):")
        R.step()
    R.eq("text", [x.text for x in p.objs], lines, "the configuration afterwards")
    R.outcome((t, ind))
    R.trace()
