"""A CiscoRange holds exactly the numbers or interfaces its text denotes, and stays a sorted set of them under every history of operations."""
import itertools

ID = "C23"
BOUNDS = {
    "quick": "integer ranges of up to 3 items over 9 values (single or a-b), 6 spacings; interface ranges of up to 3 items over 12 name forms x short/full items x class; every history of up to 3 of "
             "26 operations on 5 ranges of integers and of interfaces; every history of up to 4 of 13 operations on text members",
    "thorough": "integer ranges of up to 4 items; histories of up to 4 operations (5 on text members)",
}
ASSUMPTIONS = ["descending ranges (5-3), floats and malformed items are not claimed", "an item may repeat the whole name or only the last number (of the name before it)"]
V = [0, 1, 2, 3, 4, 9, 10, 11, 100]
ITEMS = [[v] for v in V] + [[a, b] for a in V for b in V if a <= b and b - a < 20]
SP = [("", ""), (" ", ""), ("", " "), (" ", " "), ("  ", "  "), ("\t", "")]
# prefix text, rendered prefix
FORMS = [("", ""), ("1/", "1/"), ("Eth", "Eth"), ("Eth 1/", "Eth1/"), ("Eth1/", "Eth1/"), ("Ethernet1/2/", "Ethernet1/2/"), ("Eth1/2/3.", "Eth1/2/3."), ("Eth1/2:", "Eth1/2:"),
         ("Eth 1/2/3.4:", "Eth1/2/3.4:"), ("port-channel", "port-channel"), ("Dot11Radio0/", "Dot11Radio0/"), ("Vlan", "Vlan")]
CLS = [None, "multipoint", "point-to-point"]
IITEMS = [[1], [3], [10], [1, 1], [1, 2], [2, 4], [9, 11]]
MIX = ["Eth1/", "Eth2/", "Gi1/", "Gi1/2/", "Eth1/1.", "Vlan", "Eth1/1:"]
START = ["", "5", "1-3", "2,4,9-11", "1-5,7"]
OPS = [["append", 3], ["append", 9], ["append", 6], ["append_s", 7], ["append_i", 2], ["append_is", 12], ["remove", 2], ["remove", 9], ["remove", 5], ["remove_s", 3], ["remove_i", 4], ["remove_i", 77],
       ["add", "2-4,8"], ["add", ""], ["sub", "2-4,8"], ["sub", "1-20"], ["iadd", [20, 21]], ["extend", [30]], ["pop"], ["pop", 0], ["del", 0], ["del", -1], ["delslice"], ["clear"], ["set", -1], ["sort"]]


TEXTOPS = [["append", n] for n in (1, 2, 3, 10, 100)] + [["again", 10], ["remove", 1], ["remove", 10], ["remove_i", 2], ["clear"], ["pop"], ["add"], ["sub"]]


def shards(tier):
    out = [{"k": "int", "first": i} for i in range(len(ITEMS))]
    out += [{"k": "intf", "f": i} for i in range(len(FORMS))]
    out += [{"k": "mix", "first": i} for i in range(len(MIX))]
    out += [{"k": "hist", "t": t, "s": s, "first": i} for t in ("int", "intf") for s in START for i in range(len(OPS))]
    out += [{"k": "text", "first": op} for op in TEXTOPS]
    return out


def render(items, sp, prefix="", full=0, cls=None, rprefix=None):
    """full: bit i says that item i repeats the name; bit 7 that the end of a range does too."""
    out = []
    for i, it in enumerate(items):
        p = prefix if i == 0 or full & (1 << i) else ""
        s = p + str(it[0])
        if len(it) > 1:
            s += sp[0] + "-" + sp[0] + (prefix if full & 128 else "") + str(it[1])
        out.append(s)
    return (sp[1] + "," + sp[1]).join(out) + (f" {cls}" if cls else "")


def cases(shard, tier):
    k = shard["k"]
    if k == "int":
        depth = 3 if tier == "quick" else 4
        for n in range(depth):
            rests = itertools.product(ITEMS if n < 2 else ITEMS[::3], repeat=n)
            for rest in rests:
                items = [ITEMS[shard["first"]]] + list(rest)
                for sp in (range(len(SP)) if n < 2 else (0,)):
                    yield {"k": "int", "items": items, "sp": sp}
    elif k == "intf":
        for n in (1, 2, 3):
            for items in itertools.product(IITEMS, repeat=n):
                for cls in range(len(CLS)):
                    for full in sorted({0, 2, 4, 6, 128, 130} if n == 3 else {0, 2, 128, 130} if n == 2 else {0, 128}):
                        if full & 2 and n < 2:
                            continue
                        for sp in ((0, 3) if n < 3 else (0,)):
                            yield {"k": "intf", "f": shard["f"], "items": list(items), "sp": sp, "full": full, "cls": cls}
    elif k == "mix":
        parts = [(p, it) for p in MIX + [""] for it in ([1], [3], [2, 3])]
        for it in ([1], [3], [2, 3]):
            for n in (1, 2):
                for rest in itertools.product(parts, repeat=n):
                    yield {"k": "mix", "parts": [[MIX[shard["first"]], it]] + [list(r) for r in rest]}
    elif k == "text":
        for n in range(4 if tier == "quick" else 5):
            for rest in itertools.product(TEXTOPS, repeat=n):
                yield {"k": "text", "ops": [shard["first"], *rest]}
    else:
        for n in range(3 if tier == "quick" else 4):
            for rest in itertools.product(OPS, repeat=n):
                yield {"k": "hist", "t": shard["t"], "s": shard["s"], "ops": [OPS[shard["first"]]] + list(rest)}


def members(items):
    out = set()
    for it in items:
        out |= set(range(it[0], it[-1] + 1))
    return sorted(out)


def compress(nums):
    runs = []
    for n in nums:
        if runs and n == runs[-1][1] + 1:
            runs[-1][1] = n
        else:
            runs.append([n, n])
    # two consecutive numbers stay a list, three or more become a range
    return ",".join(str(a) if a == b else f"{a},{b}" if b == a + 1 else f"{a}-{b}" for a, b in runs)


def views(R, r, want, typ, txt):
    """every reading of the range agrees with the sorted list of its members"""
    R.eq("members", list(r), want, f"{txt!r}:")
    R.eq("len", len(r), len(want), f"{txt!r}:")
    R.eq("as_list", r.as_list(), want, f"{txt!r}:")
    R.eq("as_list_type", r.as_list(result_type=typ), want, f"{txt!r}:")
    R.eq("as_list_str", r.as_list(result_type=str), [str(x) for x in want], f"{txt!r}:")
    R.eq("as_set", (type(r.as_set()), r.as_set()), (set, set(want)), f"{txt!r}:")
    R.eq("as_set_type", r.as_set(result_type=typ), set(want), f"{txt!r}:")
    R.eq("as_set_str", r.as_set(result_type=str), {str(x) for x in want}, f"{txt!r}:")
    R.eq("str", str(r), "[" + ", ".join(str(x) for x in want) + "]", f"{txt!r}:")
    for i, x in enumerate(want):
        R.true("in", x in r, f"{x} in {txt!r}")
        R.eq("index", (r[i], r[i - len(want)], r.index(x), r.count(x)), (x, x, i, 1), f"{txt!r}:")
    R.eq("unchanged", list(r), want, f"{txt!r} after reading it:")


def backwards(R, r, want, txt):
    """a range asked for in descending order lists its members so, and no question changes the order in which it holds them"""
    held = [r[i] for i in range(len(r))]
    R.eq("reversed_members", set(held), set(want), f"{txt!r}:")
    R.eq("reversed", r.as_list(), want[::-1], f"{txt!r}:")
    R.eq("reversed_set", r.as_set(), set(want), f"{txt!r}:")
    repr(r), str(r), hash(r), r == r, r.as_compressed_str(), r.as_list(result_type=str), r.as_set(result_type=str)
    R.eq("reversed_held", [r[i] for i in range(len(r))], held, f"{txt!r} after reading it:")


def check(case, R):
    from ciscoconfparse.ccp_util import CiscoIOSInterface, CiscoRange
    from ciscoconfparse.errors import DuplicateMember, InvalidMember, MismatchedType
    k = case["k"]
    if k == "int":
        txt = render(case["items"], SP[case["sp"]])
        want = members(case["items"])
        r = CiscoRange(txt, result_type=int)
        views(R, r, want, int, txt)
        R.true("not_in", all(x not in r for x in (-1, 5, 8, 101, 12) if x not in want), txt)
        c = r.as_compressed_str()
        R.eq("compressed", c, compress(want), f"{txt!r}:")
        r2 = CiscoRange(c, result_type=int)
        R.true("reparse", r2 == r and hash(r2) == hash(r), f"{txt!r} -> {c!r}")
        backwards(R, CiscoRange(txt, result_type=int, reverse=True), want, txt)
        R.state(("int", tuple(want)))
        R.outcome(c)
        R.trace()
    elif k == "intf":
        pre, rpre = FORMS[case["f"]]
        cls = CLS[case["cls"]]
        if not pre and case["full"]:
            return
        txt = render(case["items"], SP[case["sp"]], pre, case["full"], cls)
        names = [rpre + str(n) + (f" {cls}" if cls else "") for n in members(case["items"])]
        want = [CiscoIOSInterface(x) for x in names]
        R.eq("names", [str(x) for x in want], names)
        for typ in (str, None, CiscoIOSInterface):
            r = CiscoRange(txt, result_type=typ)
            R.true("types", all(type(x) is CiscoIOSInterface for x in r), txt)
            R.eq("rendered", [str(x) for x in r], names, f"{txt!r}:")
            if typ is str:
                views(R, r, want, CiscoIOSInterface, txt)
                R.eq("as_list_none", r.as_list(result_type=None), want, f"{txt!r}:")
                R.eq("as_set_none", r.as_set(result_type=None), set(want), f"{txt!r}:")
                R.true("not_in", CiscoIOSInterface(rpre + "77") not in r, txt)
                c = r.as_compressed_str()
                if cls is None:
                    R.eq("compressed", c, rpre + compress(members(case["items"])), f"{txt!r}:")
                r2 = CiscoRange(c)
                R.eq("reparse", [str(x) for x in r2], names, f"{txt!r} -> {c!r}:")
                R.true("equal", r2 == r and hash(r2) == hash(r), f"{txt!r} -> {c!r}")
                backwards(R, CiscoRange(txt, reverse=True), want, txt)
        R.state(("intf", tuple(names)))
        R.outcome(txt)
        R.trace()
    elif k == "mix":
        last, names, txt = None, set(), []
        for p, it in case["parts"]:
            txt.append(p + "-".join(map(str, it)))
            last = p or last
            names |= {last + str(n) for n in members([it])}
        txt = ",".join(txt)
        r = CiscoRange(txt)
        R.eq("names", {str(x) for x in r}, names, f"{txt!r}:")
        R.eq("once", len(r), len(names), f"{txt!r}:")
        # interfaces with the same numbers and another prefix may come in any order
        R.true("order", not any(b < a for a, b in zip(r, r[1:])), f"{txt!r}: {list(r)}")
        c = r.as_compressed_str()
        R.eq("reparse", {str(x) for x in CiscoRange(c)}, names, f"{txt!r} -> {c!r}:")
        R.state(("mix", tuple(sorted(names))))
        R.outcome(c)
        R.trace()
    elif case["k"] == "text":
        text_history(case, R, CiscoRange, DuplicateMember, InvalidMember)
    else:
        history(case, R, CiscoIOSInterface, CiscoRange, DuplicateMember, InvalidMember, MismatchedType)


def text_history(case, R, CiscoRange, DuplicateMember, InvalidMember):
    """an empty range of text members: numbers as texts, in the order of the numbers"""
    r, m = CiscoRange("", result_type=str), []
    other = CiscoRange("", result_type=str)
    for n in (10, 21, 3):
        other.append(str(n))
    for op in case["ops"]:
        k, n = op[0], op[-1]
        before, keep = r, [str(x) for x in m]
        if k in ("append", "again"):
            if n in m and k == "append":
                try:
                    r.append(str(n))
                except DuplicateMember:
                    pass
                else:
                    R.fail("duplicate", f"{case['ops']}: appending a text member again was accepted")
            else:
                r.append(str(n), ignore_errors=k == "again")
                m = sorted(set(m) | {n})
        elif k == "remove":
            if n in m:
                r.remove(str(n))
                m.remove(n)
            else:
                try:
                    r.remove(str(n))
                except InvalidMember:
                    pass
                else:
                    R.fail("remove_missing", f"{case['ops']}: removing a non-member was accepted")
        elif k == "remove_i":
            r.remove(str(n), ignore_errors=True)
            m = [x for x in m if x != n]
        elif k == "clear":
            r.clear()
            m = []
        elif k == "pop":
            if m:
                R.eq("pop", r.pop(), str(m.pop()), f"{case['ops']}:")
        else:
            r = r + other if k == "add" else r - other
            m = sorted(set(m) | {3, 10, 21}) if k == "add" else [x for x in m if x not in (3, 10, 21)]
            R.eq("operands", (list(before), list(other)), (keep, ["3", "10", "21"]), f"{case['ops']} {op}:")
        R.eq("text_history", list(r), [str(x) for x in m], f"{case['ops']} at {op}:")
        R.step()
    views(R, r, [str(x) for x in m], str, f"{case['ops']}")
    if m:
        R.eq("text_ints", (r.as_list(result_type=int), r.as_set(result_type=int)), (m, set(m)), f"{case['ops']}:")
    R.eq("text_compressed", r.as_compressed_str(), compress(m), f"{case['ops']}:")
    R.state(("text", tuple(m)))
    R.outcome(("text", tuple(m)))
    R.trace()


def history(case, R, CiscoIOSInterface, CiscoRange, DuplicateMember, InvalidMember, MismatchedType):
    integers = case["t"] == "int"

    def mk(n):
        return n if integers else CiscoIOSInterface(f"Eth1/{n}")

    def txt(s):
        return s if integers or not s else "Eth1/" + s

    def spell(n):
        return str(n) if integers else f"Ethernet 1/{n}".replace("Ethernet", "Eth")

    typ = int if integers else None
    nums = [] if not case["s"] else members([[int(y) for y in x.split("-")] for x in case["s"].split(",")])
    r = CiscoRange(txt(case["s"]), result_type=typ)
    m = list(nums)
    for op in case["ops"]:
        k = op[0]
        before, keep = r, list(m)
        if k == "append":
            if op[1] in m:
                try:
                    r.append(mk(op[1]))
                except DuplicateMember:
                    pass
                else:
                    R.fail("duplicate", f"{case['s']} {case['ops']}: appending a member again was accepted")
            else:
                R.true("append_self", r.append(mk(op[1])) is r, f"{op}")
                m = sorted(m + [op[1]])
        elif k == "append_s":
            if not m:
                continue
            try:
                r.append(spell(op[1]))
            except MismatchedType:
                pass
            else:
                R.fail("mismatch", f"{case['s']} {case['ops']}: a str was appended")
        elif k in ("append_i", "append_is"):
            if k == "append_is" and not m:
                continue
            r.append(mk(op[1]) if k == "append_i" else spell(op[1]), ignore_errors=True)
            m = sorted(set(m) | {op[1]})
        elif k in ("remove", "remove_s"):
            x = mk(op[1]) if k == "remove" else spell(op[1])
            if op[1] in m:
                R.true("remove_self", r.remove(x) is r, f"{op}")
                m.remove(op[1])
            else:
                try:
                    r.remove(x)
                except InvalidMember:
                    pass
                else:
                    R.fail("remove_missing", f"{case['s']} {case['ops']}: removing a non-member was accepted")
        elif k == "remove_i":
            r.remove(mk(op[1]), ignore_errors=True)
            m = [x for x in m if x != op[1]]
        elif k in ("add", "sub"):
            o = CiscoRange(txt(op[1]), result_type=typ)
            on = [] if not op[1] else members([[int(y) for y in x.split("-")] for x in op[1].split(",")])
            r = r + o if k == "add" else r - o
            m = sorted(set(m) | set(on)) if k == "add" else [x for x in m if x not in on]
            R.true("new_range", r is not before and isinstance(r, CiscoRange), f"{op}")
            R.eq("operands", (list(before), list(o)), ([mk(x) for x in keep], [mk(x) for x in on]), f"{case['s']} {case['ops']} {op}:")
        elif k in ("iadd", "extend"):
            if set(op[1]) & set(m):
                continue
            if k == "iadd":
                r += [mk(x) for x in op[1]]
            else:
                r.extend([mk(x) for x in op[1]])
            m = sorted(m + op[1])
        elif k == "pop":
            if m:
                R.eq("pop", r.pop(*op[1:]), mk(m.pop(*op[1:])), f"{case['ops']}:")
        elif k == "del":
            if m:
                del r[op[1]]
                del m[op[1]]
        elif k == "delslice":
            del r[1:3]
            del m[1:3]
        elif k == "clear":
            r.clear()
            m = []
        elif k == "set":
            if m:
                r[op[1]] = mk(m[-1] + 40)
                m[-1] += 40
        elif k == "sort":
            r.attribute_sort(reverse=True)
            R.eq("sorted", list(r), [mk(x) for x in m[::-1]], f"{case['s']} {case['ops']}:")
            r.attribute_sort()
        want = [mk(x) for x in m]
        R.eq("history", list(r), want, f"{case['s']!r} {case['ops']} at {op}:")
        R.step()
    want = [mk(x) for x in m]
    views(R, r, want, int if integers else CiscoIOSInterface, f"{case['s']!r} {case['ops']}")
    R.eq("slice", list(r[1:3]), want[1:3], f"{case['s']} {case['ops']}:")
    c = r.as_compressed_str()
    R.eq("compressed", c, (("" if integers or not m else "Eth1/") + compress(m)), f"{case['s']} {case['ops']}:")
    o = CiscoRange(c, result_type=typ)
    R.true("equal", o == r and hash(o) == hash(r), f"{case['s']} {case['ops']} -> {c!r}")
    R.state((case["t"], tuple(m)))
    R.outcome((case["t"], c))
    R.trace()
