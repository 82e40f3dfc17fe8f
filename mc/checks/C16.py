"""Diff: the commands of diff() turn the old configuration into the new one, rollback() turns it back."""
import itertools
import os

from mc import core

ID = "C16"
BOUNDS = {
    "quick": "all ordered pairs of 55 interface, 7 vlan, 26 router and 17 global sections (4 shapes), 24 x 24 mixed configurations in two section orders; every pair of 9 configurations of 30 to 120 sections; six input forms",
    "thorough": "all ordered pairs of 440 mixed configurations; nine input forms and both indents",
}
ASSUMPTIONS = ["command semantics: `no X` removes X with everything below it, X under `interface`/`vlan` replaces the previous description/ip address/name, sections are opened by their line",
               "hier_config's own normalisation (comments, `version`, `end`) is not part of the claim"]
FILES = True
IDEM = {"interface": ("description", "ip address"), "vlan": ("name",)}


def sec(line, kids):
    return [] if kids is None else [[line, kids]]


def interfaces():
    out = [[]]
    for d, a, s, m in itertools.product((None, "a", "b c"), (None, "1.1.1.1 255.0.0.0", "dhcp"), (None, "shutdown", "no shutdown"), (None, "mtu 9000")):
        kids = []
        if d:
            kids.append([f"description {d}", []])
        if a:
            kids.append([f"ip address {a}", []])
        if s:
            kids.append([s, []])
        if m:
            kids.append([m, []])
        out.append([["interface Eth1", kids]])
    return out


def vlans():
    one = [None, [], [["name a", []]], [["name b", []]]]
    return [sec("vlan 2", x) for x in one] + [sec("vlan 3", x) + sec("vlan 2", y) for x in one[2:3] for y in one[1:]]


def routers():
    out = []
    for n, af, v in itertools.product((None, "neighbor a", "no neighbor a"), (None, [], ["x"], ["x", "y"]), (0, 1)):
        kids = [[n, []]] if n else []
        if af is not None:
            kids.append(["address-family ipv4", [[k, []] for k in af]])
        if v:
            kids.append(["template peer-policy p", [["route-map r out", []]]])
        out.append([["router bgp 1", kids]])
    return [[], [["router ospf 1", [["network 0.0.0.0", []]]]]] + out


def globs():
    out = [[]]
    for a in ("ip routing", "no ip routing", None):
        for b in ("hostname a", "hostname b", None):
            for c in ("logging 1.1.1.1", None):
                x = [[t, []] for t in (a, b, c) if t]
                if x:
                    out.append(x)
    return out


def large():
    """many sections, each of a kind, some of them changed"""
    i, v, r = interfaces(), vlans(), routers()
    for n, step in ((30, 1), (30, 5), (120, 1), (120, 7)):
        for off in (0, 11):
            out = []
            for k in range(n):
                s = i[1 + (k * step + off) % (len(i) - 1)]
                if (k + off) % 6:
                    out.append([f"interface Eth1/{k}", s[0][1]])
                if (k + off) % 5 == 0:
                    out.append([f"vlan {100 + k}", [[f"name v{k + off}", []]]])
                if (k + off) % 13 == 0:
                    out.append([f"router bgp {k}", r[2 + (k + off) % (len(r) - 2)][0][1]])
            yield out + [["hostname a", []]]
    yield []


def mixed(tier):
    i, v, r, g = interfaces(), vlans(), routers(), globs()
    if tier == "quick":
        i, v, r, g = [i[0], i[5], i[40]], [v[0], v[3]], [r[0], r[10]], [g[4], g[9]]
    else:
        i, v, r, g = i[::5], v[1:6], r[::7], g[4:14:5] + [[]]
    return [a + b + c + d for a in i for b in v for c in r for d in g]


FAMILIES = {"interface": interfaces, "vlan": vlans, "router": routers, "global": globs}
FORMS = [("str", "str"), ("list", "tuple"), ("file", "str"), ("str", "file"), ("file", "file"), ("tuple", "list")]


def shards(tier):
    out = [{"f": f, "s": s, "n": 8} for f in ("vlan", "global", "router", "interface") for s in range(8)]
    n = len(mixed(tier))
    step = 3 if tier == "quick" else 5
    out += [{"large": i} for i in range(9)]
    return out + [{"mixed": list(range(k, min(n, k + step)))} for k in range(0, n, step)]


def cases(shard, tier):
    forms = FORMS if tier == "quick" else list(itertools.product(("str", "list", "file"), repeat=2))
    if "large" in shard:
        u = list(large())
        for j, y in enumerate(u):
            yield {"old": u[shard["large"]], "new": y, "form": list(forms[(shard["large"] + j) % len(forms)]), "ind": 1 + j % 2}
        return
    if "f" in shard:
        u = FAMILIES[shard["f"]]()
        k = 0
        for x in u:
            for y in u:
                if k % shard["n"] == shard["s"]:
                    if len(u) > 30:  # every pair, with the forms in turn
                        yield {"old": x, "new": y, "form": list(forms[(k // 8) % len(forms)]), "ind": 1 + (k // 5) % 2}
                    else:
                        for f in forms:
                            yield {"old": x, "new": y, "form": list(f), "ind": 1}
                k += 1
        return
    u = mixed(tier)
    for i in shard["mixed"]:
        for j, y in enumerate(u):
            f = forms[(i + j) % len(forms)]
            for flip in (0, 1):
                yield {"old": u[i], "new": y[::-1] if flip else y, "form": list(f), "ind": 1}


def lines(tree, ind, depth=0):
    out = []
    for t, kids in tree:
        out.append(" " * (ind * depth) + t)
        out += lines(kids, ind, depth + 1)
    return out


def neg(t):
    return t[3:] if t.startswith("no ") else "no " + t


def as_state(tree):
    return {t: as_state(kids) for t, kids in tree}


def idem(parent, text):
    for p in IDEM.get(parent.split(" ")[0] if parent else "", ()):
        if text.startswith(p + " ") or text == p:
            return p
    return None


def parse_cmds(cmds):
    """[(depth, text)] of a rendered command list"""
    out = []
    for c in cmds:
        n = len(c) - len(c.lstrip(" "))
        out.append((n // 2, n % 2, c.strip(" ")))
    return out


EXITS = {"address-family ipv4": "exit-address-family", "template peer-policy p": "exit-peer-policy"}


def run_cmds(state, cmds, R, what):
    """the configuration after the commands, each judged as it is executed"""
    ps = parse_cmds(cmds)
    stack = [(None, state)]
    for k, (d, odd, t) in enumerate(ps):
        R.step()
        if odd or d > len(stack) - 1:
            R.fail("indent", f"{what}: command {cmds[k]!r} of {cmds} has no parent")
        leaf = k + 1 == len(ps) or ps[k + 1][0] <= d
        del stack[d + 1:]
        parent, ctx = stack[d]
        if parent in EXITS and t == EXITS[parent]:
            if not leaf:
                R.fail("exit", f"{what}: {cmds}")
            stack[d] = ("left", {})
            continue
        if parent == "left":
            R.fail("exit", f"{what}: {t!r} comes after its section was left in {cmds}")
        if not leaf:
            stack.append((t, ctx.setdefault(t, {})))
            continue
        if t in ctx:
            R.fail("useless", f"{what}: {t!r} is already there when {cmds} comes to it")
        p = idem(parent, t)
        if p:
            for x in [x for x in ctx if idem(parent, x) == p]:
                del ctx[x]
        old = neg(t)
        ctx.pop(old, None)
        ctx[t] = {}
        stack.append((t, ctx[t]))
    return state


def compare(state, want, before, R, what, parent=None):
    """`no X` left over where the target says nothing of X, and X was there before, is X removed"""
    for t in want:
        if t not in state:
            R.fail("missing", f"{what}: {t!r} is not there afterwards")
        compare(state[t], want[t], (before or {}).get(t, {}), R, what, t)
    for t in state:
        R.step()
        if t not in want:
            if neg(t) in want or neg(t) not in (before or {}) or state[t]:
                R.fail("extra", f"{what}: {t!r} is there afterwards")



def check(case, R):
    from ciscoconfparse import ciscoconfparse as c
    d = core.scratch()

    def give(ls, form, name):
        if form == "list":
            return list(ls)
        if form == "tuple":
            return tuple(ls)
        if form == "none" or (form == "file" and not ls):
            return None
        if form == "str":
            return "\n".join(ls)
        path = os.path.join(d, name)
        with open(path, "w") as fh:
            fh.write("\n".join(ls) + "\n")
        return path

    lo, ln = lines(case["old"], case["ind"]), lines(case["new"], case["ind"])
    D = c.Diff(old_config=give(lo, case["form"][0], "old"), new_config=give(ln, case["form"][1], "new"))
    fwd, back = D.diff(), D.rollback()
    R.eq("repeat", [D.diff(), D.rollback()], [fwd, back], "asked again:")
    R.state((lo, ln))
    for name, cmds, x, y in (("diff", fwd, case["old"], case["new"]), ("rollback", back, case["new"], case["old"])):
        what = f"{name} of {lo} -> {ln} = {cmds}"
        if as_state(x) == as_state(y):
            R.eq("same", cmds, [], what)
        st = run_cmds(as_state(x), cmds, R, what)
        compare(st, as_state(y), as_state(x), R, what)
        ps = parse_cmds(cmds)
        for k, (dep, _, t) in enumerate(ps):
            if t in EXITS and k + 1 < len(ps) and ps[k + 1][0] > dep:
                sub = list(itertools.takewhile(lambda z: z[0] > dep, ps[k + 1:]))
                R.eq("exit", sub[-1][2], EXITS[t], what)
        R.outcome(tuple(cmds))
    R.trace(2)
