"""CiscoIOSInterface: a well-formed interface name is split into its components, is rendered back to the same name, and compares, hashes and changes by its components."""
import itertools

ID = "C21"
PRE = ["", "Eth", "GigabitEthernet", "Port-channel", "Dot11Radio", "Virtual-Template"]
NUMS = [[None, None, 0], [None, None, 10], [1, None, 0], [0, None, 48], [10, None, 1], [1, 0, 0], [0, 12, 3], [4, 2, 101]]
SUB = [None, 0, 1, 4094, 4294967295]
CHAN = [None, 0, 15]
CLS = [None, "point-to-point", "multipoint"]
SORTU = [list(x) for x in itertools.product([[None, None, 0], [None, None, 2], [None, None, 10], [0, None, 2], [1, None, 1], [1, None, 10], [1, 0, 2], [2, 0, 1]], [None, 0, 9, 10], [None, 3], [None, "multipoint"])]
OPS = ([["prefix", v] for v in ("Serial", " Vlan ")] + [["slot", 3], ["slot", "12"], ["card", 7], ["card", None], ["port", 9], ["port", "0"], ["subinterface", 5], ["subinterface", None],
       ["subinterface", "77"], ["channel", 2], ["channel", None], ["interface_class", "point-to-point"], ["interface_class", " multipoint"], ["interface_class", None], ["digit_separator", "/"],
       ["dict"], ["reparse"], ["copy"], ["from_dict"]])
STARTS = ["Eth1/2", "GigabitEthernet1/0/24.100", "Serial0/0/0:15 point-to-point"]
BOUNDS = {
    "quick": "6 types x 8 slot/card/port triples x 5 subinterfaces x 3 channels x 3 classes x 3 spacings, each by name, dict and copy; every ordered pair of 128 names (equality, hash, order); "
             "every history of up to 3 of 19 changes from 3 interfaces",
    "thorough": "12 number triples; every sorted list of 3 of 128 names; histories of up to 4",
}
ASSUMPTIONS = ["ordering is specified between interfaces of one type", "a port number is always present (without one the library ends the process, by design)", "the separator is /"]


def shards(tier):
    out = [{"k": "name", "p": p, "n": n} for p in range(len(PRE)) for n in NUMS + ([] if tier == "quick" else [[9, 9, 9], [15, None, 15], [None, None, 4094], [0, 0, 0]])]
    out += [{"k": "pair", "i": i} for i in range(len(SORTU))]
    out += [{"k": "hist", "s": s, "first": i, "d": 3 if tier == "quick" else 4} for s in STARTS for i in range(len(OPS))]
    return out


def cases(shard, tier):
    if shard["k"] == "name":
        for s, c, k in itertools.product(SUB, CHAN, CLS):
            for sp in ("", " ", "  "):
                yield {"k": "name", "v": [PRE[shard["p"]]] + shard["n"] + [s, c, k], "sp": sp}
    elif shard["k"] == "pair":
        for j in range(len(SORTU)):
            yield {"k": "sort", "i": [shard["i"], j]}
        if tier != "quick":
            for j, m in itertools.product(range(0, len(SORTU)), repeat=2):
                yield {"k": "sort", "i": [shard["i"], j, m]}
    else:
        for n in range(shard["d"]):
            for rest in itertools.product(OPS, repeat=n):
                yield {"k": "hist", "s": shard["s"], "ops": [OPS[shard["first"]]] + list(rest)}


def render(v, sp=""):
    p, s, c, o, sub, ch, cl = v
    num = "/".join(str(x) for x in (s, c, o) if x is not None)
    return f"{p}{sp}{num}" + (f".{sub}" if sub is not None else "") + (f":{ch}" if ch is not None else "") + (f" {cl}" if cl is not None else "")


def look(R, o, v, w):
    p, s, c, n, sub, ch, cl = v
    num = "/".join(str(x) for x in (s, c, n) if x is not None)
    d = {"prefix": p, "slot": s, "card": c, "port": n, "subinterface": sub, "channel": ch, "interface_class": cl, "digit_separator": None if s is None else "/"}
    R.eq("components", o.as_dict(), d, w)
    R.eq("attributes", (o.prefix, o.slot, o.card, o.port, o.subinterface, o.channel, o.interface_class), tuple(v), w)
    full = render(v)
    R.eq("rendered", (str(o), o.name, repr(o), o.number), (full, full, f"<CiscoIOSInterface {full}>", num), w)
    R.eq("lists", (o.number_list, o.sort_list), ([s, c, n], [s, c, n, sub, ch, cl]), w)
    R.eq("without_type", o.slot_card_port_subinterface_channel, full[len(p):], w)


def parse(name):
    cl = None
    if " " in name:
        name, cl = name.split(" ")
    ch = sub = None
    if ":" in name:
        name, ch = name.split(":")
    if "." in name:
        name, sub = name.split(".")
    i = next(i for i, c in enumerate(name) if c.isdigit())
    nums = [int(x) for x in name[i:].split("/")]
    nums = [None] * (2 - len(nums[:-1])) + nums if len(nums) == 1 else nums if len(nums) == 3 else [nums[0], None, nums[1]]
    return [name[:i]] + nums + [None if sub is None else int(sub), None if ch is None else int(ch), cl]


def sort_key(v):
    return [(-1 if x is None else x) for x in v[1:6]] + [v[6] or ""]


def check(case, R):
    from ciscoconfparse.ccp_util import CiscoIOSInterface as I
    if case["k"] == "name":
        v = case["v"]
        s = render(v, case["sp"])
        o = I(s)
        look(R, o, v, repr(s))
        look(R, I(f"  {s} "), v, repr(s))
        look(R, I(interface_dict=o.as_dict()), v, f"dict of {s!r}")
        look(R, I(o), v, f"copy of {s!r}")
        look(R, I("Vlan7").from_dict(o.as_dict()), v, f"from_dict of {s!r}")
        look(R, I(str(o)), v, f"reparse of {s!r}")
        R.true("same", o == I(render(v)) and hash(o) == hash(I(render(v))) and not (o < I(render(v))) and not (o > I(render(v))), repr(s))
        R.eq("not_equal", (o == s, o == None, o != None, o == 5), (False, False, True, False), repr(s))  # noqa: E711
        R.state(s)
        R.outcome(tuple(v))
    elif case["k"] == "sort":
        vs = [["Eth"] + SORTU[i][0] + SORTU[i][1:] for i in case["i"]]
        objs = [I(render(v)) for v in vs]
        R.eq("sorted", [str(o) for o in sorted(objs)], [render(v) for v in sorted(vs, key=sort_key)], f"{[render(v) for v in vs]}")
        if len(vs) == 2:
            a, b = objs
            ka, kb = sort_key(vs[0]), sort_key(vs[1])
            R.eq("order", (a == b, a != b, a < b, a > b), (ka == kb, ka != kb, ka < kb, ka > kb), f"{a} {b}")
            R.eq("set", len({a, b}), 1 if ka == kb else 2, f"{a} {b}")
            other = I("Serial" + render(["", *vs[1][1:]]))
            R.true("type_matters", a != other and not (a == other), f"{a} {other}")
        R.state(repr(case))
        R.outcome(repr(case["i"]))
    else:
        o = I(case["s"])
        v = parse(case["s"])
        names = ["prefix", "slot", "card", "port", "subinterface", "channel", "interface_class"]
        for op in case["ops"]:
            w = f"{case['s']} {case['ops']} at {op}:"
            prev = o
            if op[0] in names:
                setattr(o, op[0], op[1])
                x = op[1]
                v[names.index(op[0])] = x.strip() if op[0] in ("prefix", "interface_class") and x else int(x) if x is not None and op[0] not in ("prefix", "interface_class") else x
            elif op[0] == "digit_separator":
                o.digit_separator = op[1]
            elif op[0] == "dict":
                o = I(interface_dict=o.as_dict())
            elif op[0] == "copy":
                o = I(o)
            elif op[0] == "from_dict":
                o = o.from_dict(o.as_dict())
            else:
                o = I(str(o))
            look(R, o, v, w)
            if o is not prev:
                look(R, prev, v, f"{w} the original")
                R.true("equal_copy", o == prev and hash(o) == hash(prev), w)
            R.state(render(v))
        R.outcome(render(v))
    R.trace()
