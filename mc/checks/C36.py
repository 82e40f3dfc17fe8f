"""Every attribute of an ASA interface is the value its configuration lines give it, in any order, with any other lines around."""
from mc import attrs
from mc.attrs import PLAIN, SKIP, TEXTS, WORDS, Table, numbers
from mc.checks.C26 import NETS, n4, net

ID = "C36"
ASSUMPTIONS = ["a line is written as the ASA shows it (one blank of indent, single blanks between words)", "each feature is configured once per interface, as in a running-config",
               "ip_network_object of an interface with no IPv4 address is not claimed (the code raises ValueError)", "has_manual_switch_trunk_encap and build_reset_string are not claimed: the ASA has no such command"]


def H(typ, num, sub=None):
    text = typ + num + (f".{sub}" if sub is not None else "")
    return {"text": "interface " + text, "type": typ, "num": num, "sub": sub, "bare": text}


HEADERS = [H("Ethernet", "0/0"), H("GigabitEthernet", "0/1"), H("GigabitEthernet", "0/1", 100), H("Management", "0/0"), H("TenGigabitEthernet", "1/10"), H("Vlan", "1"), H("Vlan", "4094"), H("Port-channel", "1"),
           H("Port-channel", "48", 4094), H("Redundant", "1"), H("Tunnel", "7"), H("Loopback", "0"), H("GigabitEthernet", "1/0/3"), H("BVI", "1"), H("Ethernet", "0/7", 2)]
OTHER = [H("GigabitEthernet", "9/8"), H("GigabitEthernet", "9/9", 9)]
IP1, IP2 = ("198.101.172.106", "255.255.255.128", 25, None), ("10.0.0.1", "255.255.255.0", 24, "10.0.0.2")
F = {
    "desc": ["x", "to core: rtr1", "ip address 9.9.9.9 255.0.0.0", "shutdown", "speed 10", "ipv6 address 2001:db8:9::9/64 standby 2001:db8:9::a", "no"],
    "delay": [1, 16777215],
    "ip": [IP1, IP2, ("192.0.2.255", "255.255.254.0", 23, "192.0.3.1"), ("172.16.0.0", "255.255.255.254", 31, None), ("1.1.1.1", "255.255.255.255", 32, None), "dhcp", "dhcp setroute", "no"],
    "v6": [("2001:db8::1", 64, None), ("fd80::1", 127, "fd80::2"), ("2001:DB8::5", 128, "2001:db8::6"), ("2001:db8:1::", 64, "eui-64"), ("fe80:0:0:1::1", 64, "fe80:0:0:1::2"), ("fc00::1", 7, "2001:db8::9"), "fe80::1 link-local", "autoconfig", "fe80::1 link-local standby fe80::2"],
    "speed": [10, 1000, "auto", "nonegotiate"], "duplex": ["full", "half"], "shut": [True, False],
    "nameif": ["inside", "shutdown"], "sec": [0, 100], "vlan": [1, 4094], "pim": [True], "sw": ["access 2", "access 4094", "trunk", "mode access"],
}
MASKS = [".".join(str((0xFFFFFFFF << (32 - n) >> s) & 255) for s in (24, 16, 8, 0)) for n in range(33)]
NV = sum(len(v) for v in F.values())

WIDE = {
    "desc": WORDS + TEXTS + ["a  b", "x y z", "secondary", "^C"], "delay": numbers(1, 16777215), "ip": [("%d.%d.%d.%d" % (n if n % 4 else 200 - n, n, 90 + n, 200 + n), MASKS[n], n, s) for n in range(1, 33) for s in (None, "%d.%d.%d.%d" % (n if n % 4 else 200 - n, n, 90 + n, n))],
    "v6": [("2001:db8::%x" % n, n, s) for n in range(1, 129) for s in (None, "2001:db8::f:1")], "speed": [100, 10000], "nameif": PLAIN, "sec": numbers(0, 100), "vlan": numbers(1, 4094), "sw": [f"access {n}" for n in numbers(1, 4094)],
}

def lines(n, v):
    if n == "ip":
        return [" no ip address"] if v == "no" else [f" ip address {v}"] if isinstance(v, str) else [f" ip address {v[0]} {v[1]}" + (f" standby {v[3]}" if v[3] else "")]
    if n == "v6":
        return [f" ipv6 address {v}"] if isinstance(v, str) else [f" ipv6 address {v[0]}/{v[1]}" + (f" {v[2]}" if v[2] == "eui-64" else f" standby {v[2]}" if v[2] else "")]
    if n == "shut":
        return [" shutdown" if v else " no shutdown"]
    if n == "pim":
        return [" ip pim sparse-mode"]
    if n == "sw":
        return [" switchport mode access"] if v == "mode access" else [" switchport mode trunk", " switchport trunk allowed vlan 1-5"] if v == "trunk" else [f" switchport access vlan {v.split()[1]}"]
    return [" " + {"desc": "description {}", "delay": "delay {}", "speed": "speed {}", "duplex": "duplex {}", "nameif": "nameif {}", "sec": "security-level {}", "vlan": "vlan {}"}[n].format(v)]


NOISE = [[" management-only"], [" no nameif"], [" no security-level"], [" ipv6 enable"], [" ospf cost 10"], [" mac-address 0000.1111.2222 standby 0000.1111.3333"], [" no description"], [" member-interface Ethernet0/1"],
         [" flowcontrol send on"], [" no ip address"], [" no ipv6 address"], [" channel-group 1 mode active"], [" no shutdown"], [" ipv6 nd suppress-ra"], [" no speed"], [" dhcprelay server 10.1.1.1"],
         [" ! shutdown"], [" lacp port-priority 5"], [" no delay"], [" ip local policy x"], [" igmp version 2"], [" authentication mode eigrp 1 md5"], [" zone-member z"]]


def has4(ch):
    return isinstance(ch.get("ip"), tuple)


def v4(ch):
    return f"{ch['ip'][0]}/{ch['ip'][2]}" if has4(ch) else None


def network4(ch):
    from ipaddress import IPv4Network

    return str(IPv4Network(v4(ch), strict=False)) if has4(ch) else SKIP


def has6(ch):
    return isinstance(ch.get("v6"), tuple)


def v6(ch):
    import ipaddress

    return f"{ipaddress.IPv6Address(ch['v6'][0])}/{ch['v6'][1]}" if has6(ch) else None


def standby6(ch):
    v = ch.get("v6")
    if has6(ch):
        return "" if v[2] in (None, "eui-64") else v[2]
    return SKIP if v and "standby" in v else ""


def inside(ch, a, n):
    return None if not has4(ch) else ch["ip"][2] >= n and net(ch["ip"][0], n) == net(a, n)


def inside2(ch, x, y):
    return None if not has4(ch) else inside(ch, *x) or inside(ch, *y)


def eth(h):
    return h["type"].endswith("thernet")


def man_speed(ch):
    return isinstance(ch.get("speed"), int)


def ordinals(h):
    return [int(x) for x in h["num"].split("/")]


def swnum(ch):
    return int(ch["sw"].split()[1]) if ch.get("sw", "").startswith("access ") else 0


A = {
    "description": lambda h, ch: ch.get("desc", ""), "manual_delay": lambda h, ch: ch.get("delay", 0),
    "ipv4_addr_object": lambda h, ch: v4(ch), "ip": lambda h, ch: v4(ch), "ipv4": lambda h, ch: v4(ch), "has_no_ipv4": lambda h, ch: not has4(ch),
    "ipv4_addr": lambda h, ch: ch["ip"][0] if has4(ch) else "", "ip_addr": lambda h, ch: ch["ip"][0] if has4(ch) else "", "ipv4_netmask": lambda h, ch: ch["ip"][1] if has4(ch) else "",
    "ipv4_masklength": lambda h, ch: ch["ip"][2] if has4(ch) else 0,
    "ipv4_standby_addr": lambda h, ch: (ch["ip"][3] or "") if has4(ch) else "", "ipv4_standby_addr_object": lambda h, ch: f"{ch['ip'][3]}/{ch['ip'][2]}" if has4(ch) and ch["ip"][3] else None,
    "ipv6_addr_object": lambda h, ch: v6(ch), "ipv6_addr": lambda h, ch: v6(ch).split("/")[0] if has6(ch) else "", "ipv6_masklength": lambda h, ch: ch["v6"][1] if has6(ch) else 0,
    "ipv6_standby_addr": lambda h, ch: standby6(ch),
    "ip_network_object": lambda h, ch: network4(ch), "ipv4_network_object": lambda h, ch: network4(ch),
    "in_ipv4_subnet": (lambda o: [o.in_ipv4_subnet(n4(a, n)) for a, n in NETS], lambda h, ch: [inside(ch, a, n) for a, n in NETS]),
    "in_ipv4_subnets": (lambda o: [o.in_ipv4_subnets([n4(*x), n4(*y)]) for x, y in zip(NETS, NETS[1:])], lambda h, ch: [inside2(ch, x, y) for x, y in zip(NETS, NETS[1:])]),
    "has_manual_speed": lambda h, ch: man_speed(ch), "has_manual_duplex": lambda h, ch: "duplex" in ch,
    "has_autonegotiation": lambda h, ch: SKIP if ch.get("speed") == "nonegotiate" else eth(h) and not man_speed(ch) and "duplex" not in ch,
    "is_shutdown": lambda h, ch: ch.get("shut", False), "has_ip_pim_sparse_mode": lambda h, ch: has4(ch) and "pim" in ch,
    "is_switchport": lambda h, ch: "sw" in ch, "has_manual_switch_access": lambda h, ch: ch.get("sw") == "mode access", "has_manual_switch_trunk": lambda h, ch: ch.get("sw") == "trunk",
    "access_vlan": lambda h, ch: swnum(ch),
    "is_intf": lambda h, ch: True, "is_subintf": lambda h, ch: h["sub"] is not None, "is_ethernet_intf": lambda h, ch: eth(h), "is_loopback_intf": lambda h, ch: h["type"] == "Loopback",
    "is_virtual_intf": lambda h, ch: SKIP if h["type"] in ("Vlan", "BVI", "Redundant") else h["type"] in ("Loopback", "Tunnel", "Port-channel"),
    "name": lambda h, ch: h["bare"], "port": lambda h, ch: ordinals(h)[-1], "port_type": lambda h, ch: h["type"], "ordinal_list": lambda h, ch: ordinals(h),
    "shown": (lambda o: [h2 in repr(o) for h2 in ("No IPv4", "switchport")], lambda h, ch: SKIP if "desc" in ch else [not has4(ch) and "sw" not in ch, "sw" in ch]),
}
T = Table(syntax="asa", headers=HEADERS, other=OTHER, features=F, wide=WIDE, lines=lines, noise=NOISE, attrs=A)
BOUNDS = {
    "quick": f"{len(HEADERS)} interface headers x {NV} values of {len(F)} features, alone and between neighbours with contrary values; every ordered pair of values on 1 header; each of {len(NOISE)} unrelated "
             "lines before and after every value; wide value tables (every number of digits and bits, every mask, names of every kind of character); removal and re-adding of every value",
    "thorough": "every ordered pair on 5 headers, and with neighbours; unrelated lines on 4 headers; every ordered triple of 4 clusters of features",
}
CLUSTERS = [["ip", "v6", "nameif"], ["desc", "ip", "shut"], ["speed", "duplex", "delay"], ["sw", "vlan", "ip"]]
BOUNDS["quick"] += "; every value also with the section indented by 1, 2, 3 and 7 blanks"


def shards(tier):
    q = tier == "quick"
    out = [{"k": "wide"}, {"k": "single"}, {"k": "nb"}, {"k": "hist"}]
    out += [{"k": "noise", "part": i, "parts": 4} for i in range(4)]
    parts = 4 if q else 16
    out += [{"k": "pair", "part": i, "parts": parts} for i in range(parts)]
    if not q:
        out += [{"k": "pairnb", "part": i, "parts": parts} for i in range(parts)]
        out += [{"k": "tri", "g": i} for i in range(len(CLUSTERS))]
    return out


def cases(sh, tier):
    q = tier == "quick"
    k = sh["k"]
    if k == "wide":
        yield from attrs.wides(T, [0, 2])
    elif k == "single":
        yield from attrs.singles(T)
    elif k == "nb":
        yield from attrs.neighbours(T, [0, 2])
    elif k == "noise":
        yield from attrs.noisy(T, [0] if q else [0, 2, 5, 7], sh["part"], sh["parts"])
    elif k == "hist":
        yield from attrs.histories(T, [0, 2])
    elif k == "pair":
        yield from attrs.pairs(T, [0] if q else [0, 2, 5, 7, 3], sh["part"], sh["parts"])
    elif k == "pairnb":
        yield from attrs.pairs(T, [1], sh["part"], sh["parts"], nb=1)
    else:
        yield from attrs.clusters(T, [0, 2], [CLUSTERS[sh["g"]]], 3)


def check(case, R):
    T.check(case, R)
