"""What a line says about itself (class name, position, kind, identity) is a function of its text and place, after every edit; and the small helpers."""
import itertools
import re

from mc import ref

ID = "C40"
FILES = ["ccp_abc.py", "ccp_util.py", "ciscoconfparse.py"]
ASSUMPTIONS = ["the class of each command is decided by C30, C33, C35 and C37 (here: that every question about the class answers with it)", "one comment character, '!'",
               "fix_repeated_words() removes pairs, as its documentation shows; regexes of __ccp_re__ whose groups all take part in a match"]
LINES = {
    "ios": ["hostname a", "interface Vlan1", " shutdown", " ! note", "!", "ip route 0.0.0.0 0.0.0.0 Null0", "  x  y", "line vty 0 4"],
    "nxos": ["hostname a", "interface Vlan1", "  shutdown", "  ! note", "!", "vpc domain 5", "    x  y", "ip route 0.0.0.0/0 Null0"],
    "ios banner": ["banner motd ^", "hello", "^", "interface Vlan1", " shutdown", " ^", "macro name q", "@"],
    "asa": ["hostname a", "interface Vlan1", " shutdown", " ! note", "!", "name 1.1.1.1 x", "  x  y", "access-list A extended permit ip any any"],
    "iosxr": ["hostname a", "interface Loopback1", " shutdown", " ! note", "!", "router ospf 1", "  x  y", "interface GigabitEthernet0/0/0/0"],
}
DNA = [("Intf", False), ("CfgLine", False), ("IOSCfgLine", True), ("Line$", False), ("^IOS", False), ("Hostname", False), ("Hostname", True), ("zz", False), (".*", True), ("ASAName", True), ("Route|VPC|vPC", False), ("IOSIntfLine|NXOSIntfLine", True),
       ("(?i)intf", False)]
WORDS = ["no", "a", "nob", "NO", "nno"]
ADDR = {"1.2.3.4": 4, "1.2.3.4/24": 4, "0.0.0.0": 4, "255.255.255.255": 4, "1.2.3.4 255.255.255.0": 4, "::1": 6, "::": 6, "2001:db8::/32": 6, "fe80::ABCD": 6, "::ffff:1.2.3.4": 6, "1.2.3": 0, "1.2.3.4.5": 0, "256.1.1.1": 0, "1.2.3.4/33": 0, "x": 0, "": 0, ":::": 0,
        "1::2::3": 0, "2001:db8::/129": 0, "g::": 0, "1.2.3.4/-1": 0, "1:2:3:4:5:6:7:8": 6, "1:2:3:4:5:6:7:8:9": 0, "1:2:3:4:5:6:7": 0}
RX = [(r"(\d+)", {1: int}), (r"(?P<a>\w)(?P<b>\d)", {"a": str, "b": int}), (r"(?P<a>\w)(\d)", {"a": None, 2: float}), (r"(x)", {}), (r"\d", None), (r"(\w+) (\w+)", None), (r"^(.)(.)$", {2: str})]
TXT = ["a1", "12 b", "x", "", "ab cd", "9", "b2b3", "  7"]
BOUNDS = {
    "quick": "every configuration of up to 4 lines over 8 texts of ios, ios with banners and macros, nxos, asa and iosxr, with factory, and of up to 3 without; after every single deletion, insertion, append and replacement; every pair of lines compared; the helpers: every sequence of up "
             f"to 6 of {len(WORDS)} words, {len(ADDR)} addresses with blanks, {len(RX)} x {len(TXT)} searches, every triple of interface component lists",
    "thorough": "up to 5 lines, and two edits of up to 3 lines",
}


def shards(tier):
    out = [{"k": "cfg", "syn": s, "first": i, "f": f} for s in LINES for i in range(8) for f in (True, False)]
    return out + [{"k": "words", "first": w} for w in range(len(WORDS))] + [{"k": "addr"}, {"k": "rx"}, {"k": "sort"}, {"k": "typed"}]


def cases(sh, tier):
    q = tier == "quick"
    if sh["k"] == "cfg":
        for n in range((4 if q else 5) - (0 if sh["f"] else 1)):
            for rest in itertools.product(range(8), repeat=n):
                c = {"k": "cfg", "syn": sh["syn"], "f": sh["f"], "c": [sh["first"], *rest]}
                yield dict(c, ops=[])
                if n <= 2 or not q:
                    ops = [["del", i] for i in range(n + 1)] + [["app", i, 2] for i in range(n + 1)] + [["ins", i, j] for i in (0, n) for j in (0, 1, 4)] + [["sub", i, j] for i in (0, n) for j in (0, 5, 7)]
                    for o in ops:
                        yield dict(c, ops=[o])
                    if not q and n <= 1:
                        for o, o2 in itertools.product(ops, ops):
                            yield dict(c, ops=[o, o2])
    elif sh["k"] == "words":
        for n in range(6 if q else 7):
            for rest in itertools.product(range(len(WORDS)), repeat=n):
                yield {"k": "words", "w": [sh["first"], *rest]}
    else:
        yield {"k": sh["k"]}


def facts(p, texts, factory, R, what):
    objs = list(p.ConfigObjs)
    R.eq("text", [o.text for o in objs], texts, f"{what}: lines")
    model = ref.tree(texts)
    rows = ref.impl_tree(objs)
    chains = []
    for i, o in enumerate(objs):
        n = model[i]
        cls = type(o).__name__
        R.step()
        R.eq("class", (o.classname, o.dna), (cls, cls), f"{what}: names of the class of line {i}")
        R.eq("position", (o.linenum, o.index), (i, i), f"{what}: position of line {i}")
        R.eq("kind", (o.is_config_line, bool(o.is_comment), o.has_children), (n.config, n.comment, bool(rows[i][3])), f"{what}: config line, comment, children of line {i}")
        up = []
        j = rows[i][2]
        while j is not None:
            up.insert(0, j)
            j = rows[j][2]
        d = o.as_diff_dict
        R.eq("diff dict", (d["indent"], d["parents"], d["text"]), (n.indent, [texts[j] for j in up], texts[i]), f"{what}: as_diff_dict of line {i}")
        R.eq("verbose", (f"# {i} " in o.verbose, cls in o.verbose, texts[i] in o.verbose or factory, f"len(children): {len(rows[i][3])} " in o.verbose or not rows[i][3]), (True,) * 4, f"{what}: verbose of line {i} is {o.verbose!r}")
        chains.append((tuple(o.diff_id_list), tuple((len(texts[j]) - len(texts[j].lstrip()), *texts[j].split()) for j in [i] + up[::-1])))
        R.outcome(cls)
        R.eq("length", len(o), len(texts[i]), f"{what}: len() of line {i}")
    below = []
    for i, o in enumerate(objs):
        todo, down = list(rows[i][3]), set()
        while todo:
            j = todo.pop()
            down.add(j)
            todo += rows[j][3]
        below.append((o.hash_children, tuple(sorted(down))))
        for j, x in enumerate(objs):
            R.eq("order", (o < x, o <= x, o > x, o >= x, o == x, o != x), (i < j, i <= j, i > j, i >= j, i == j, i != j), f"{what}: comparison of lines {i} and {j}")
    for a, b in itertools.combinations(below, 2):
        R.eq("hash_children", a[0] == b[0], a[1] == b[1], f"{what}: hash_children equal for the families {a[1]} and {b[1]}")
    R.eq("repr", (f"{len(objs)} lines" in repr(p), f"syntax: {p.syntax} " in repr(p)), (True, True), f"{what}: {p!r}")
    for a, b in itertools.combinations(chains, 2):
        R.eq("identity", a[0] == b[0], a[1] == b[1], f"{what}: diff_id_list equal of {a[1]} and {b[1]}")
    root = [i for i, n in enumerate(model) if n.indent == 0 and not n.comment]
    pos = {id(o): i for i, o in enumerate(objs)}
    par, non = p.ConfigObjs.config_hierarchy()
    R.eq("hierarchy", ([pos.get(id(o)) for o in par], [pos.get(id(o)) for o in non]), ([i for i in root if rows[i][3]], [i for i in root if not rows[i][3]]), f"{what}: config_hierarchy()")
    from ciscoconfparse.ccp_util import as_text_list
    R.eq("as_text_list", as_text_list(objs), texts, f"{what}: as_text_list")
    for rx, exact in DNA:
        R.step()
        try:
            got = [pos.get(id(o)) for o in p.find_objects_dna(rx, exactmatch=exact)]
        except ValueError:
            got = "refused"
        want = [i for i, o in enumerate(objs) if (re.fullmatch if exact else re.search)(rx, type(o).__name__)] if factory else "refused"
        R.eq("find_objects_dna", got, want, f"{what}: find_objects_dna({rx!r}, exactmatch={exact})")


def check_cfg(case, R):
    from ciscoconfparse import CiscoConfParse

    pool = LINES[case["syn"]]
    texts = [pool[i] for i in case["c"]]
    p = CiscoConfParse(list(texts), syntax=case["syn"].split()[0], factory=case["f"])
    R.state((tuple(texts), case["syn"], case["f"], str(case["ops"])))
    what = f"{texts} {case['syn']} factory={case['f']}"
    facts(p, texts, case["f"], R, what)
    for op in case["ops"]:
        if op[1] >= len(texts):
            break
        o = p.objs[op[1]]
        if op[0] == "del":
            rows = ref.impl_tree(p.objs)
            gone, todo = set(), [op[1]]
            while todo:
                i = todo.pop()
                gone.add(i)
                todo += rows[i][3]
            o.delete()
            texts = [t for i, t in enumerate(texts) if i not in gone]
        elif op[0] == "app":
            if not ref.tree(texts)[op[1]].config:
                break
            o.append_to_family("zz top", auto_indent=True)
        elif op[0] == "ins":
            o.insert_before(pool[op[2]])
            texts = texts[:op[1]] + [pool[op[2]]] + texts[op[1]:]
        else:
            o.re_sub("^.*$", pool[op[2]])
            texts = texts[:op[1]] + [pool[op[2]]] + texts[op[1] + 1:]
        p.commit()
        if op[0] == "app":
            new = [x.text for x in p.objs]  # where it goes is decided by C12
            at = next(i for i, t in enumerate(new) if t.strip() == "zz top")
            R.eq("appended", new[:at] + new[at + 1:], texts, f"{what}: the other lines after {op}")
            texts = new
        facts(p, texts, case["f"], R, f"{what} after {case['ops']}")


def reduced(words):
    """Pairs of 'no' at the beginning go, as long as something is left to say."""
    while len(words) > 2 and words[0] == words[1] == "no":
        words = words[2:]
    return words


def check(case, R):
    k = case["k"]
    if k == "cfg":
        check_cfg(case, R)
    elif k == "words":
        from ciscoconfparse.ccp_util import fix_repeated_words
        ws = [WORDS[i] for i in case["w"]]
        R.state(tuple(ws))
        for pre in ("", " ", "   "):
            for sep in (" ", "  "):
                cmd = pre + sep.join(ws)
                R.step()
                want = reduced(ws)
                R.eq("fix_repeated_words", fix_repeated_words(cmd, "no"), pre + sep.join(want), f"of {cmd!r}:")
        R.outcome(len(reduced(ws)))
    elif k == "addr":
        from ciscoconfparse.ccp_util import check_valid_ipaddress
        for a, fam in ADDR.items():
            for pre, post in itertools.product(("", " ", "\t"), repeat=2):
                t = pre + a + post
                R.state(t)
                R.step()
                try:
                    got = check_valid_ipaddress(t)
                except ValueError:
                    got = 0
                R.eq("check_valid_ipaddress", got, (a, fam) if fam else 0, f"of {t!r}:")
                R.outcome(fam)
    elif k == "rx":
        from ciscoconfparse.ccp_util import __ccp_re__ as Rx
        for (rx, groups), t in itertools.product(RX, TXT):
            m = re.search(rx, t)
            R.state((rx, t))
            R.step()
            a, b = Rx(rx, groups=groups), Rx(rx, target_str=t, groups=groups)
            R.eq("s", a.s(t), None if m is None else m.groups() or t, f"{rx!r} searched in {t!r}:")
            want = ([], {})
            if m:
                cast = lambda key, v: groups[key](v) if groups and groups.get(key) else v
                want = ([cast(i + 1, v) for i, v in enumerate(m.groups())], {n: cast(n, v) for n, v in m.groupdict().items()})
            for o in (a, b):
                R.eq("captured", o.captured, want, f"{rx!r} in {t!r} with {groups}:")
            R.outcome(str(want))
    elif k == "sort":
        from ciscoconfparse.ccp_util import sortable_interface_list as S
        ls = list(itertools.product([None, 0, 1, 10], repeat=3))
        for x, y in itertools.product(ls, ls):
            kx, ky = [[-1 if c is None else c for c in z] for z in (x, y)]
            R.state((x, y))
            R.step()
            R.eq("sortable", (S(list(x)) < S(list(y)), S(list(x)) == S(list(y))), (kx < ky, kx == ky), f"{x} < {y}:")
        R.outcome(len(ls))
    else:
        from ciscoconfparse import CiscoConfParse
        o = CiscoConfParse(["a"]).ConfigObjs[0]
        for (rx, types), t, default in itertools.product([(r"(?P<a>\w)(?P<b>\d)", {"a": str, "b": int}), (r"(?P<a>\d)", {"a": float}), (r"(?P<a>\d)(?P<b>\w)?", {"b": str}), (r"(?P<b>\w)", {"b": None})], TXT, ("none", "", -1)):
            m = re.search(rx, t)
            R.state((rx, t, default))
            R.step()
            want = {n: default if m is None or m.group(n) is None else (ty(m.group(n)) if ty else m.group(n)) for n, ty in types.items()}
            if m is not None and any(m.group(n) is None for n in types):
                continue
            got = o.get_typed_dict(m, type_dict=types, default=default)
            R.eq("get_typed_dict", got, want, f"{rx!r} in {t!r}, default {default!r}:")
            R.outcome(str(want))
    R.trace()
