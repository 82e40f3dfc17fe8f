"""Every attribute of an IOS-XR interface is the value its configuration lines give it, in any order, with any other lines around."""
from mc import attrs
from mc.attrs import SKIP, TEXTS, WORDS, Table, numbers
from mc.checks.C26 import NETS, n4, net

ID = "C35"
ASSUMPTIONS = ["a line is written as IOS-XR shows it (one blank of indent, single blanks between words)", "each feature is configured once per interface, as in a running-config",
               "'name' and 'interface_object' of a subinterface are not claimed: the code calls CiscoIOSXRInterface a placeholder", "attributes of features IOS-XR does not have (switchports, standby) are not claimed"]


def H(typ, num, sub=None, tail=""):
    text = typ + num + (f".{sub}" if sub is not None else "")
    return {"text": "interface " + text + tail, "type": typ, "num": num, "sub": sub, "l2": tail, "bare": text}


HEADERS = [
    H("GigabitEthernet", "0/0/0/1"), H("GigabitEthernet", "0/0/0/1", 100), H("TenGigE", "0/0/0/0"), H("TenGigE", "0/1/0/11", 7), H("HundredGigE", "0/10/0/2"), H("Loopback", "0"), H("Loopback", "2147483647"),
    H("Bundle-Ether", "1"), H("Bundle-Ether", "65535", 20), H("MgmtEth", "0/RP0/CPU0/0"), H("BVI", "5"), H("tunnel-te", "1"), H("TenGigE", "0/0/0/0", 7, " l2transport"), H("GigabitEthernet", "0/0/0/48"),
    H("GigabitEthernet", "0/2/1/3", 4094, " l2transport"), H("FastEthernet", "0/0/0/0"), H("Bundle-Ether", "7", 1, " l2transport"), H("POS", "0/1/0/0"), H("Serial", "0/1/0/1"),
]
OTHER = [H("GigabitEthernet", "0/9/9/9"), H("TenGigE", "0/9/0/9", 9)]
IP1, IP2 = ("10.0.0.1", "255.255.255.0", 24), ("192.0.2.255", "255.255.254.0", 23)
F = {
    "desc": ["x", "to core: rtr1", "ipv4 address 9.9.9.9 255.0.0.0", "shutdown", "mtu 1", "vrf B", "no", "9 helper-address"],
    "bandwidth": [1, 10000000], "encap": ["ppp", "dot1q 10", "dot1q 10 second-dot1q 20"],
    "ip": [IP1, IP2, ("172.16.0.0", "255.255.255.254", 31), ("1.1.1.1", "255.255.255.255", 32), ("10.0.0.0", "255.0.0.0", 8), "no"],
    "sec": [[("10.1.0.1", "255.255.0.0")], [("10.2.0.1", "255.255.255.252"), ("10.3.0.1", "255.255.255.0")]],
    "speed": [10, 1000], "duplex": ["full", "half"], "mtu": [64, 9216], "mplsmtu": [1508],
    "shut": [True, False], "vrf": ["A", "CUST-1"], "bundle": [True], "aclin": ["IN", "101", "egress", "ACL"], "aclout": ["OUT", "ingress"], "ipmtu": [68, 1400, 65535], "arp": [30, 14400], "v6": [True], "l3": [True],
}
MASKS = [".".join(str((0xFFFFFFFF << (32 - n) >> s) & 255) for s in (24, 16, 8, 0)) for n in range(33)]
NV = sum(len(v) for v in F.values())

WIDE = {
    "desc": WORDS + TEXTS + ["a  b", "x y z", "secondary", "^C"], "bandwidth": numbers(1, 100000000), "encap": [f"dot1q {n}" for n in numbers(1, 4094)], "speed": [100, 2500, 10000], "mtu": numbers(64, 65535),
    "ip": [("%d.%d.%d.%d" % (n if n % 4 else 200 - n, n, 90 + n, 200 + n), MASKS[n], n) for n in range(1, 33)], "mplsmtu": numbers(68, 65535), "vrf": WORDS, "aclin": WORDS, "aclout": WORDS, "ipmtu": numbers(68, 65535), "arp": numbers(30, 4294967),
}

def lines(n, v):
    if n == "ip":
        return [" no ipv4 address"] if v == "no" else [f" ipv4 address {v[0]} {v[1]}"]
    if n == "sec":
        return [f" ipv4 address {a} {m} secondary" for a, m in v]
    if n == "shut":
        return [" shutdown" if v else " no shutdown"]
    if n == "l3":
        return [" ipv6 mtu 1300", " ipv6 nd suppress-ra"]
    fixed = {"bundle": " bundle id 1 mode active", "v6": " ipv6 address 2001:db8::1/64"}
    if n in fixed:
        return [fixed[n]]
    if n in ("aclin", "aclout") and v in ("101", "ingress"):
        return [f" ipv4 access-group {v} {'in' if n == 'aclin' else 'e'}gress hardware-count"]
    return [" " + {"desc": "description {}", "bandwidth": "bandwidth {}", "encap": "encapsulation {}", "speed": "speed {}", "duplex": "duplex {}", "mtu": "mtu {}", "mplsmtu": "mpls mtu {}", "vrf": "vrf {}", "aclin": "ipv4 access-group {} ingress",
                    "aclout": "ipv4 access-group {} egress", "ipmtu": "ipv4 mtu {}", "arp": "arp timeout {}"}[n].format(v)]


NOISE = [[" service-policy output mtu"], [" no mtu"], [" no description"], [" ipv6 enable"], [" load-interval 30"], [" no vrf"], [" ipv4 unnumbered Loopback0"], [" ipv4 point-to-point"], [" flow ipv4 monitor M ingress"],
         [" carrier-delay up 100 down 100"], [" lldp", "  enable"], [" l2transport", "  l2protocol cpsv tunnel"], [" ipv4 verify unicast source reachable-via rx"], [" no speed"], [" no bandwidth"], [" dampening"],
         [" rewrite ingress tag pop 1 symmetric"], [" mac-address 0000.1111.2222"], [" ipv6 mtu 1280"], [" no shutdown"], [" tx-ring-limit 2"], [" bandwidth receive 512"], [" ipv4 directed-broadcast"], [" no duplex"], [" ipv6 access-group V6 ingress"], [" ipv6 access-group V6 egress"], [" no ipv4 access-group X ingress"], [" no ipv4 mtu"], [" no arp timeout"],
         [" mac access-group M ingress"], [" ethernet-services access-group E egress"], [" arp learning disable"], [" ipv4 mtu-discovery"]]


def has4(ch):
    return isinstance(ch.get("ip"), tuple)


def v4(ch):
    return f"{ch['ip'][0]}/{ch['ip'][2]}" if has4(ch) else "0.0.0.1/32"


def network4(ch):
    from ipaddress import IPv4Network

    return str(IPv4Network(v4(ch), strict=False))


def canon_net(o):
    return f"{o.network.network_address}/{o.prefixlen}"


def inside(ch, a, n):
    return None if not has4(ch) else ch["ip"][2] >= n and net(ch["ip"][0], n) == net(a, n)


def inside2(ch, x, y):
    return None if not has4(ch) else inside(ch, *x) or inside(ch, *y)


def full_num(h):
    return h["num"] + (f".{h['sub']}" if h["sub"] is not None else "")


def abb(h):
    t = h["type"].lower()
    return sorted({t[:k] + s + full_num(h) for k in range(1, len(t) + 1) for s in ("", " ")})


def eth(h):
    return h["type"].lower().endswith("ethernet")


def digits(h):
    return SKIP if "RP" in h["num"] else tuple(int(x) for x in h["num"].split("/"))


A = {
    "description": lambda h, ch: ch.get("desc", ""), "manual_bandwidth": lambda h, ch: ch.get("bandwidth", 0), "manual_encapsulation": lambda h, ch: ch.get("encap", "").split(" ")[0],
    "ipv4_addr_object": lambda h, ch: v4(ch), "ip": lambda h, ch: v4(ch), "ipv4": lambda h, ch: v4(ch),
    "ipv4_addr": lambda h, ch: ch["ip"][0] if has4(ch) else "", "ip_addr": lambda h, ch: ch["ip"][0] if has4(ch) else "", "ipv4_netmask": lambda h, ch: ch["ip"][1] if has4(ch) else "",
    "ipv4_masklength": lambda h, ch: ch["ip"][2] if has4(ch) else 0, "has_no_ipv4": lambda h, ch: not has4(ch),
    "net": (lambda o: canon_net(o.ip_network_object), lambda h, ch: network4(ch)), "net4": (lambda o: canon_net(o.ipv4_network_object), lambda h, ch: network4(ch)),
    "in_ipv4_subnet": (lambda o: [o.in_ipv4_subnet(n4(a, n)) for a, n in NETS], lambda h, ch: [inside(ch, a, n) for a, n in NETS]),
    "in_ipv4_subnets": (lambda o: [o.in_ipv4_subnets([n4(*x), n4(*y)]) for x, y in zip(NETS, NETS[1:])], lambda h, ch: [inside2(ch, x, y) for x, y in zip(NETS, NETS[1:])]),
    "has_manual_speed": lambda h, ch: "speed" in ch, "manual_speed": lambda h, ch: ch.get("speed", 0),
    "has_manual_duplex": lambda h, ch: "duplex" in ch, "manual_duplex": lambda h, ch: ch.get("duplex", ""),
    "has_autonegotiation": lambda h, ch: SKIP if not eth(h) and h["type"] not in ("Loopback", "tunnel-te", "BVI", "POS", "Serial") else eth(h) and "speed" not in ch and "duplex" not in ch,
    "manual_mtu": lambda h, ch: ch.get("mtu", 0), "has_manual_mtu": lambda h, ch: "mtu" in ch, "manual_mpls_mtu": lambda h, ch: ch.get("mplsmtu", 0), "has_manual_mpls_mtu": lambda h, ch: "mplsmtu" in ch,
    "is_shutdown": lambda h, ch: ch.get("shut", False), "vrf": lambda h, ch: ch.get("vrf", ""), "has_vrf": lambda h, ch: "vrf" in ch,
    "manual_ip_mtu": lambda h, ch: ch.get("ipmtu", 0), "has_manual_ip_mtu": lambda h, ch: "ipmtu" in ch, "manual_arp_timeout": lambda h, ch: ch.get("arp", 0) if has4(ch) else -1,
    "ip_accessgroup_in": lambda h, ch: ch.get("aclin", ""), "ip_accessgroup_out": lambda h, ch: ch.get("aclout", ""), "ipv4_accessgroup_in": lambda h, ch: ch.get("aclin", ""), "ipv4_accessgroup_out": lambda h, ch: ch.get("aclout", ""),
    "has_ip_accessgroup_in": lambda h, ch: "aclin" in ch, "has_ip_accessgroup_out": lambda h, ch: "aclout" in ch, "has_ipv4_accessgroup_in": lambda h, ch: "aclin" in ch, "has_ipv4_accessgroup_out": lambda h, ch: "aclout" in ch,
    "ip_helper_addresses": lambda h, ch: [], "has_ip_helper_addresses": lambda h, ch: False,
    # names
    "is_intf": lambda h, ch: True, "is_subintf": lambda h, ch: h["sub"] is not None, "is_loopback_intf": lambda h, ch: h["type"] == "Loopback", "is_switchport": lambda h, ch: False,
    "port": lambda h, ch: int(h["num"].split("/")[-1]), "port_type": lambda h, ch: h["type"], "ordinal_list": lambda h, ch: digits(h),
    "interface_number": lambda h, ch: h["num"], "subinterface_number": lambda h, ch: full_num(h), "name": lambda h, ch: SKIP if h["sub"] is not None else h["bare"],
    "abbvs": lambda h, ch: abb(h),
    "is_abbreviated_as": (lambda o: [o.is_abbreviated_as(x) for x in ("gi0/0/0/1", "GI 0/0/0/1", "g0/0/0/1.100", "te0/1/0/11.7", "lo0", "be1", "bu1", "mg0/RP0/CPU0/0", "mg0/rp0/cpu0/0")],
                          lambda h, ch: [x in abb(h) or (x.lower() in abb(h)) for x in ("gi0/0/0/1", "GI 0/0/0/1", "g0/0/0/1.100", "te0/1/0/11.7", "lo0", "be1", "bu1")] + [h["type"] == "MgmtEth"] * 2),
    "build_reset_string": (lambda o: o.build_reset_string(), lambda h, ch: SKIP),
}
T = Table(syntax="iosxr", headers=HEADERS, other=OTHER, features=F, wide=WIDE, lines=lines, noise=NOISE, attrs=A)
BOUNDS = {
    "quick": f"{len(HEADERS)} interface headers x {NV} values of {len(F)} features, alone and between neighbours with contrary values; every ordered pair of values on 1 header; each of {len(NOISE)} unrelated "
             "lines before and after every value; wide value tables (every number of digits and bits, every mask, names of every kind of character); removal and re-adding of every value",
    "thorough": "every ordered pair on 5 headers, and with neighbours; unrelated lines on 4 headers; every ordered triple of 4 clusters of features",
}
CLUSTERS = [["ip", "sec", "v6", "aclin", "aclout"], ["mtu", "mplsmtu", "l3", "bandwidth", "ipmtu"], ["vrf", "ip", "desc"], ["speed", "duplex", "encap", "shut"]]
BOUNDS["quick"] += "; every value also with the section indented by 1, 2, 3 and 7 blanks"


def shards(tier):
    q = tier == "quick"
    out = [{"k": "wide"}, {"k": "single"}, {"k": "nb"}, {"k": "hist"}]
    out += [{"k": "noise", "part": i, "parts": 4} for i in range(4)]
    parts = 4 if q else 16
    out += [{"k": "pair", "part": i, "parts": parts} for i in range(parts)]
    if not q:
        out += [{"k": "pairnb", "part": i, "parts": parts} for i in range(parts)]
        out += [{"k": "tri", "g": i} for i in range(len(CLUSTERS))]
    return out


def cases(sh, tier):
    q = tier == "quick"
    k = sh["k"]
    if k == "wide":
        yield from attrs.wides(T, [0, 1])
    elif k == "single":
        yield from attrs.singles(T)
    elif k == "nb":
        yield from attrs.neighbours(T, [0, 3])
    elif k == "noise":
        yield from attrs.noisy(T, [0] if q else [0, 1, 5, 8], sh["part"], sh["parts"])
    elif k == "hist":
        yield from attrs.histories(T, [0, 8])
    elif k == "pair":
        yield from attrs.pairs(T, [0] if q else [0, 1, 5, 7, 12], sh["part"], sh["parts"])
    elif k == "pairnb":
        yield from attrs.pairs(T, [3], sh["part"], sh["parts"], nb=1)
    else:
        yield from attrs.clusters(T, [0, 8], [CLUSTERS[sh["g"]]], 3)


def check(case, R):
    T.check(case, R)
