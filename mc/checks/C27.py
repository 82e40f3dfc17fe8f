"""Switchport attributes of an IOS interface, and the exact set of vlans a trunk allows."""
import itertools

from mc import attrs
from mc.attrs import WORDS, Table, numbers

ID = "C27"
ASSUMPTIONS = ["trunk lines stand in the order in which IOS writes them: the list, then add, except, remove lines; 'except' takes its vlans away, as the tests of the repository fix it",
               "an interface is a switchport exactly if one of its commands starts with switchport"]
ALL = "1-4094"
LISTS = [None, "none", "all", "1", "4094", "1-5", "10,20-25", "2-4,4,3-6,100", "1-1001,1006-4094", "5, 7-9"]
SETS = ["1", "4094", "3-21", "20", "5,24-30", "1-4094", "2-4093"]
SETS_S = ["1", "3-21", "2-4093", "4094"]


def nums(text):
    out = set()
    for part in text.replace(" ", "").split(","):
        a, _, b = part.partition("-")
        out |= set(range(int(a), int(b or a) + 1))
    return out


def compress(s):
    out, run = [], None
    for n in sorted(s):
        if run and n == run[1] + 1:
            run[1] = n
        else:
            run = [n, n]
            out.append(run)
    return [tuple(r) for r in out]


def trunk_lines(v):
    out = []
    if v[0] is not None:
        out.append(f" switchport trunk allowed vlan {v[0]}")
    for kw, part in zip(("add", "except", "remove"), v[1:]):
        out += [f" switchport trunk allowed vlan {kw} {x}" for x in part]
    return out


def allowed(v):
    base = set(range(1, 4095)) if v[0] in (None, "all") else set() if v[0] == "none" else nums(v[0])
    for x in v[1]:
        base |= nums(x)
    for x in list(v[2]) + list(v[3]):
        base -= nums(x)
    return base


F = {
    "bare": [True], "mode": ["access", "trunk", "dynamic auto", "dynamic desirable"], "avlan": [1, 100, 4094], "encap": ["dot1q", "isl", "negotiate"], "native": [1, 999, 4094], "noneg": [True],
    "psec": [True], "psecopt": ["maximum 2", "violation restrict", "mac-address sticky"], "storm": ["broadcast level 10.00", "action trap"], "macin": ["MAC1", "700"], "macout": ["MAC2"],
    "ip": [True], "nosw": [True],
    "trunk": [["1-5", [], [], []], ["none", [], [], []], ["all", [], ["5"], []], ["10,20-25", ["100", "200-210"], [], ["21"]], [None, [], [], ["2-4093"]]],
    "desc": ["switchport mode access", "switchport trunk allowed vlan 7", "x"], "chan": [True], "voice": [True],
}

WIDE = {"avlan": numbers(1, 4094), "native": numbers(1, 4094), "macin": WORDS, "macout": WORDS, "desc": WORDS}

def lines(n, v):
    if n == "trunk":
        return trunk_lines(v)
    fixed = {"bare": " switchport", "noneg": " switchport nonegotiate", "psec": " switchport port-security", "ip": " ip address 10.0.0.1 255.255.255.0", "nosw": " no switchport",
             "chan": " channel-group 7 mode active", "voice": " switchport voice vlan 55"}
    if n in fixed:
        return [fixed[n]]
    return [" " + {"mode": "switchport mode {}", "avlan": "switchport access vlan {}", "encap": "switchport trunk encapsulation {}", "native": "switchport trunk native vlan {}",
                   "psecopt": "switchport port-security {}", "storm": "storm-control {}", "macin": "mac access-group {} in", "macout": "mac access-group {} out", "desc": "description {}"}[n].format(v)]


SWF = {"bare", "mode", "avlan", "encap", "native", "noneg", "psec", "psecopt", "trunk", "voice"}


def sw(ch):
    for k in ch:
        if k in SWF and not (k == "trunk" and not trunk_lines(ch[k])):
            return True
    return False


def trunk(ch):
    if not sw(ch) or ch.get("mode") == "access":
        return 0
    return compress(allowed(ch.get("trunk", [None, [], [], []])))


def get_trunk(o):
    v = o.trunk_vlans_allowed
    if isinstance(v, int):
        return v
    lst = v.as_list(result_type=int)
    if [x for x in v] != lst or len(v) != len(lst):
        return f"iteration {list(v)[:9]} and as_list() {lst[:9]} disagree"
    return compress(lst) if len(set(lst)) == len(lst) else "repeated vlans"


A = {
    "is_switchport": lambda h, ch: sw(ch),
    "has_manual_switch_access": lambda h, ch: ch.get("mode") == "access",
    "has_manual_switch_trunk": lambda h, ch: ch.get("mode") == "trunk",
    "has_manual_switch_trunk_encap": lambda h, ch: "encap" in ch, "manual_switch_trunk_encap": lambda h, ch: ch.get("encap", ""),
    "has_switch_portsecurity": lambda h, ch: "psec" in ch,
    "has_switch_stormcontrol": lambda h, ch: sw(ch) and "storm" in ch,
    "has_dtp": lambda h, ch: sw(ch) and "noneg" not in ch,
    "access_vlan": lambda h, ch: ch.get("avlan", 1 if sw(ch) else 0),
    "native_vlan": lambda h, ch: ch.get("native", 1 if sw(ch) else 0),
    "trunk_vlans_allowed": (get_trunk, lambda h, ch: trunk(ch)),
    "trunk again": (get_trunk, lambda h, ch: trunk(ch)),
    "mac_accessgroup_in": lambda h, ch: ch.get("macin", ""), "mac_accessgroup_out": lambda h, ch: ch.get("macout", ""),
    "has_mac_accessgroup_in": lambda h, ch: sw(ch) and "macin" in ch, "has_mac_accessgroup_out": lambda h, ch: sw(ch) and "macout" in ch,
    "description": lambda h, ch: ch.get("desc", ""), "portchannel_number": lambda h, ch: 7 if "chan" in ch else -1,
    "ipv4_addr": lambda h, ch: "10.0.0.1" if "ip" in ch else "",
}
NOISE = [[" spanning-tree portfast"], [" no switchport port-security"], [" no switchport nonegotiate"], [" no storm-control broadcast level"], [" no mac access-group MAC1 in"], [" ! switchport"], [" no switchport trunk native vlan"],
         [" service instance 1 ethernet", "  encapsulation dot1q 100"], [" no switchport access vlan 7"], [" no switchport mode"], [" lacp rate fast"]]
HEADERS = [{"text": "interface GigabitEthernet1/0/1"}, {"text": "interface Port-channel1"}]
OTHER = [{"text": "interface GigabitEthernet1/0/2"}, {"text": "interface GigabitEthernet1/0/3"}]
T = Table(syntax="ios", headers=HEADERS, other=OTHER, features=F, wide=WIDE, lines=lines, noise=NOISE, attrs={k: v for k, v in A.items()})
NV = sum(len(v) for v in F.values())
BOUNDS = {
    "quick": f"every trunk list of {len(LISTS)} with 0-2 add, 0-1 except and 0-2 remove lines of {len(SETS)} vlan sets, with 3 modes; {NV} values of {len(F)} features: single, ordered pairs, between neighbours, with "
             f"{len(NOISE)} unrelated lines, removal and re-adding",
    "thorough": "0-2 lines of each kind of trunk line; ordered triples of 6 features",
}
MODES = [["mode", 1], ["mode", 0], ["bare", 0]]
BOUNDS["quick"] += "; every value also with the section indented by 1, 2, 3 and 7 blanks"


def shards(tier):
    n = 8 if tier == "quick" else 24
    out = [{"k": "wide"}, {"k": "single"}, {"k": "nb"}, {"k": "noise"}, {"k": "hist"}] + [{"k": "pair", "part": i} for i in range(4)]
    out += [{"k": "trunk", "part": i, "parts": n} for i in range(n)]
    if tier != "quick":
        out += [{"k": "tri", "part": i} for i in range(6)]
    return out


def upto(vals, n):
    for k in range(n + 1):
        yield from itertools.product(vals, repeat=k)


def cases(sh, tier):
    k = sh["k"]
    if k == "wide":
        yield from attrs.wides(T, [0])
    elif k == "single":
        yield from attrs.singles(T)
    elif k == "nb":
        yield from attrs.neighbours(T, [0, 1])
    elif k == "noise":
        yield from attrs.noisy(T, [0])
    elif k == "hist":
        yield from attrs.histories(T, [0])
    elif k == "pair":
        yield from attrs.pairs(T, [0], sh["part"], 4)
    elif k == "tri":
        names = ["mode", "trunk", "noneg", "native", "avlan", "nosw"]
        first = names[sh["part"]]
        for rest in itertools.permutations([x for x in names if x != first], 2):
            g = [first] + list(rest)
            for idx in itertools.product(*[range(len(F[n])) for n in g]):
                yield {"h": 0, "f": [[n, i] for n, i in zip(g, idx)], "nb": 0}
    else:
        if tier == "quick":
            space = itertools.product(LISTS, [list(x) for x in upto(SETS_S, 2)], [list(x) for x in upto(SETS, 1)], [list(x) for x in upto(SETS_S, 1)] + [["1", "3-21"], ["3-21", "1"], ["2-4093", "4094"], ["4094", "4094"]])
        else:
            space = itertools.product(LISTS, [list(x) for x in upto(SETS_S, 2)], [list(x) for x in upto(SETS_S, 2)], [list(x) for x in upto(SETS_S, 2)])
        for j, v in enumerate(space):
            if j % sh["parts"] == sh["part"]:
                m = MODES[j // sh["parts"] % 3]
                yield {"trunk": list(v), "m": m}


def check(case, R):
    if "trunk" not in case:
        T.check(case, R)
        return
    v = case["trunk"]
    name, i = case["m"]
    ch = {name: F[name][i], "trunk": v}
    ls = ["interface GigabitEthernet1/0/1"] + lines(name, F[name][i]) + trunk_lines(v)
    R.state("\n".join(ls))
    o = T.parse(ls).objs[0]
    T.observe(o, R, HEADERS[0], ch, ls, only={"trunk_vlans_allowed", "is_switchport", "native_vlan", "access_vlan"})
    R.trace()
