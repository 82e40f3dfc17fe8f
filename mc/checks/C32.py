"""Switchport attributes of an NX-OS interface, and the exact set of vlans its trunk commands leave."""
import itertools

from mc import attrs
from mc.attrs import WORDS, Table, numbers
from mc.checks.C27 import compress, get_trunk, nums, upto

ID = "C32"
ASSUMPTIONS = ["the trunk commands of a port are executed in the order of the configuration; 'except' allows all vlans but those named", "an interface is a switchport exactly if one of its commands starts with switchport"]
FULL = set(range(1, 4095))
SETS = ["1", "4094", "3-21", "20", "5,24-30", "1-4094", "2-4093"]
CMDS = ["none", "all", "1-5", "10,20-25", "4094", "1-3967,4048-4093"] + [f"{k} {s}" for k in ("add", "except", "remove") for s in SETS]
F = {
    "bare": [True], "mode": ["access", "trunk", "fex-fabric", "dot1q-tunnel", "private-vlan host"], "avlan": [1, 100, 4094], "native": [1, 999, 4094], "psec": [True], "psecopt": ["maximum 2", "violation restrict"],
    "storm": ["broadcast level 10.00", "action trap"], "macin": ["MAC1"], "macout": ["MAC2"], "ip": [True], "nosw": [True], "trunk": [["1-5"], ["none"], ["all", "except 5"], ["10,20-25", "add 100", "remove 21"], ["remove 2-4093"]],
    "desc": ["switchport mode access", "switchport trunk allowed vlan 7", "x", "storm-control"], "chan": [True], "voice": [True], "stp": ["edge trunk", "network"], "fex": [101], "vpc": [55],
}

WIDE = {
    "avlan": numbers(1, 4094), "native": numbers(1, 4094), "macin": WORDS, "macout": WORDS, "desc": WORDS, "fex": numbers(100, 199), "vpc": numbers(1, 4096),
    "trunk": [[str(n)] for n in numbers(1, 4094)] + [[f"{n}-{m}"] for n in numbers(1, 4094) for m in numbers(1, 4094) if n < m] + [[f"except {n}"] for n in numbers(1, 4094)],
}

def lines(n, v):
    if n == "trunk":
        return [f"  switchport trunk allowed vlan {x}" for x in v]
    fixed = {"bare": "switchport", "psec": "switchport port-security", "ip": "ip address 10.0.0.1/24", "nosw": "no switchport", "chan": "channel-group 7 mode active", "voice": "switchport voice vlan 55"}
    if n in fixed:
        return ["  " + fixed[n]]
    return ["  " + {"mode": "switchport mode {}", "avlan": "switchport access vlan {}", "native": "switchport trunk native vlan {}", "psecopt": "switchport port-security {}", "storm": "storm-control {}",
                    "macin": "mac access-group {} in", "macout": "mac access-group {} out", "desc": "description {}", "stp": "spanning-tree port type {}", "fex": "fex associate {}", "vpc": "vpc {}"}[n].format(v)]


SWF = {"bare", "mode", "avlan", "native", "psec", "psecopt", "trunk", "voice"}


def sw(ch):
    return any(k in SWF and lines(k, ch[k]) for k in ch)


def allowed(cmds):
    cur = set(FULL)
    for c in cmds:
        kw, _, rest = c.partition(" ")
        if kw == "add":
            cur = cur | nums(rest)
        elif kw == "except":
            cur = FULL - nums(rest)
        elif kw == "remove":
            cur = cur - nums(rest)
        else:
            cur = set(FULL) if c == "all" else set() if c == "none" else nums(c)
    return cur


def trunk(ch):
    if not sw(ch) or ch.get("mode") == "access":
        return 0
    return compress(allowed(ch.get("trunk", [])))


A = {
    "is_switchport": lambda h, ch: sw(ch), "has_manual_switch_access": lambda h, ch: ch.get("mode") == "access", "has_manual_switch_trunk": lambda h, ch: ch.get("mode") == "trunk",
    "has_manual_switch_fex_fabric": lambda h, ch: ch.get("mode") == "fex-fabric", "has_switch_portsecurity": lambda h, ch: "psec" in ch, "has_switch_stormcontrol": lambda h, ch: sw(ch) and "storm" in ch,
    "access_vlan": lambda h, ch: ch.get("avlan", 1 if sw(ch) else 0), "native_vlan": lambda h, ch: ch.get("native", 1 if sw(ch) else 0),
    "trunk_vlans_allowed": (get_trunk, lambda h, ch: trunk(ch)), "trunk again": (get_trunk, lambda h, ch: trunk(ch)),
    "mac_accessgroup_in": lambda h, ch: ch.get("macin", ""), "mac_accessgroup_out": lambda h, ch: ch.get("macout", ""),
    "has_mac_accessgroup_in": lambda h, ch: sw(ch) and "macin" in ch, "has_mac_accessgroup_out": lambda h, ch: sw(ch) and "macout" in ch,
    "description": lambda h, ch: ch.get("desc", ""), "portchannel_number": lambda h, ch: 7 if "chan" in ch else -1, "ipv4_addr": lambda h, ch: "10.0.0.1" if "ip" in ch else "",
    "manual_stp_port_type": lambda h, ch: ch.get("stp", ""), "fex_associate_chassis_id": lambda h, ch: ch.get("fex", 0), "vpc": lambda h, ch: ch.get("vpc", 0),
}
NOISE = [["  spanning-tree bpduguard enable"], ["  no switchport port-security"], ["  no storm-control broadcast level"], ["  no mac access-group MAC1 in"], ["  no switchport trunk native vlan"], ["  no switchport access vlan 7"],
         ["  no switchport mode"], ["  lacp rate fast"], ["  no switchport trunk allowed vlan"], ["  service-policy type qos input switchport"]]
HEADERS = [{"text": "interface Ethernet1/1"}, {"text": "interface port-channel1"}]
OTHER = [{"text": "interface Ethernet1/2"}, {"text": "interface Ethernet1/3"}]
T = Table(syntax="nxos", indent=2, headers=HEADERS, other=OTHER, features=F, wide=WIDE, lines=lines, noise=NOISE, attrs=A)
NV = sum(len(v) for v in F.values())
BOUNDS = {
    "quick": f"every sequence of 0-2 of {len(CMDS)} trunk commands, and of 3 of which the last two are add, except or remove of 2 vlan sets; with 3 modes; {NV} values of {len(F)} features: single, ordered pairs, between "
             f"neighbours, with {len(NOISE)} unrelated lines, wide value tables (every number of digits and bits, every mask, names of every kind of character); removal and re-adding",
    "thorough": "every sequence of up to 3 trunk commands; ordered triples of 6 features",
}
MODES = [["mode", 1], ["mode", 0], ["bare", 0]]
LATE = [f"{k} {s}" for k in ("add", "except", "remove") for s in ("3-21", "2-4093")]
BOUNDS["quick"] += "; every value also with the section indented by 1, 2, 3 and 7 blanks"


def shards(tier):
    n = 8 if tier == "quick" else 24
    out = [{"k": "wide"}, {"k": "single"}, {"k": "nb"}, {"k": "noise"}, {"k": "hist"}] + [{"k": "pair", "part": i} for i in range(4)]
    out += [{"k": "trunk", "part": i, "parts": n} for i in range(n)]
    if tier != "quick":
        out += [{"k": "tri", "part": i} for i in range(6)]
    return out


def cases(sh, tier):
    k = sh["k"]
    if k == "wide":
        yield from attrs.wides(T, [0])
    elif k == "single":
        yield from attrs.singles(T)
    elif k == "nb":
        yield from attrs.neighbours(T, [0, 1])
    elif k == "noise":
        yield from attrs.noisy(T, [0])
    elif k == "hist":
        yield from attrs.histories(T, [0])
    elif k == "pair":
        yield from attrs.pairs(T, [0], sh["part"], 4)
    elif k == "tri":
        names = ["mode", "trunk", "stp", "native", "avlan", "nosw"]
        first = names[sh["part"]]
        for rest in itertools.permutations([x for x in names if x != first], 2):
            g = [first] + list(rest)
            for idx in itertools.product(*[range(len(F[n])) for n in g]):
                yield {"h": 0, "f": [[n, i] for n, i in zip(g, idx)], "nb": 0}
    else:
        space = itertools.chain(upto(CMDS, 2), itertools.product(CMDS, LATE, LATE)) if tier == "quick" else upto(CMDS, 3)
        for j, v in enumerate(space):
            if j % sh["parts"] == sh["part"]:
                yield {"trunk": list(v), "m": MODES[j // sh["parts"] % 3]}


def check(case, R):
    if "trunk" not in case:
        T.check(case, R)
        return
    v = case["trunk"]
    name, i = case["m"]
    ch = {name: F[name][i], "trunk": v}
    ls = [HEADERS[0]["text"]] + lines(name, F[name][i]) + lines("trunk", v)
    R.state("\n".join(ls))
    o = T.parse(ls).objs[0]
    T.observe(o, R, HEADERS[0], ch, ls, only={"trunk_vlans_allowed", "is_switchport", "native_vlan", "access_vlan"})
    R.trace()
