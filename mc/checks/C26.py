"""Every attribute of an IOS interface is the value its configuration lines give it, in any order, with any other lines around."""
from mc import attrs
from mc.attrs import SKIP, WORDS, Table, numbers

ID = "C26"
ASSUMPTIONS = ["a line is written as IOS shows it (one blank of indent, single blanks between words)", "each feature is configured once per interface, as in a running-config",
               "'name' of an interface with a class is not claimed; 'negotiated' and mobile addresses are not claimed"]
IP1 = ("10.0.0.1", "255.255.255.0", 24)
IP2 = ("192.0.2.255", "255.255.254.0", 23)


def H(typ, num, sub=None, ch=None, cls=None, gap=""):
    nums = [int(x) for x in num.split("/")]
    text = typ + gap + num
    if sub is not None:
        text += f".{sub}"
    if ch is not None:
        text += f":{ch}"
    base = {"text": "interface " + text + (f" {cls}" if cls else ""), "type": typ, "num": num, "sub": sub, "ch": ch, "cls": cls, "bare": text.replace(" ", "")}
    base["port"] = nums[-1]
    base["slot"] = nums[0] if len(nums) > 1 else None
    base["card"] = nums[1] if len(nums) > 2 else None
    return base


HEADERS = [
    H("GigabitEthernet", "1/2"), H("FastEthernet", "0/0"), H("Ethernet", "0"), H("TenGigabitEthernet", "1/0/48"), H("GigabitEthernet", "0/1", sub=100), H("GigabitEthernet", "1/0/1", sub=4094),
    H("Serial", "1/0"), H("Serial", "1/0", sub=17, cls="point-to-point"), H("Serial", "0/1/0", sub=5, cls="multipoint"), H("ATM", "2/0"), H("ATM", "2/0", sub=100, cls="point-to-point"),
    H("Loopback", "0"), H("Loopback", "2147483647"), H("Vlan", "1"), H("Vlan", "4094"), H("Tunnel", "0"), H("Dialer", "10"), H("Port-channel", "1"), H("Port-channel", "12", sub=7),
    H("Virtual-Template", "1"), H("BVI", "1"), H("Serial", "1/0", ch=5), H("Serial", "1/1/0", ch=0), H("GigabitEthernet", "0/1", gap=" "), H("Ethernet", "0/0", sub=1), H("Serial", "0/0/0"),
    H("Ethernet", "10"),
]
OTHER = [H("GigabitEthernet", "9/8"), H("GigabitEthernet", "9/9", sub=9)]
F = {
    "desc": ["x", "to core: rtr1", "ip address 9.9.9.9 255.0.0.0", "shutdown", "mtu 1", "ip helper-address 9.9.9.9", "interface Vlan5", "no"],
    "bandwidth": [1, 10000000], "delay": [1, 16777215], "hqo": [40, 4096], "hqi": [75, 1],
    "encap": ["ppp", "frame-relay", "dot1Q 10", "dot1Q 10 native"],
    "mpls": [True],
    "ip": [IP1, IP2, ("172.16.0.0", "255.255.255.254", 31), ("1.1.1.1", "255.255.255.255", 32), "dhcp", "no"],
    "sec": [[("10.1.0.1", "255.255.0.0", 16)], [("10.2.0.1", "255.255.255.252", 30), ("10.3.0.1", "255.255.255.0", 24)]],
    "v6": [("2001:db8::1", 64), ("fd00::ffff:1", 127), ("2001:DB8::5", 128), ("2001:db8:1::", 64, "eui-64"), "fe80::1 link-local", "autoconfig", "autoconfig default", "dhcp"],
    "speed": [10, 1000, "auto"], "duplex": ["full", "half"], "cdelay": [5, "msec 500", "msec 0"], "clock": [64000], "mtu": [64, 9216], "mplsmtu": [1508], "ipmtu": [1400, 9198],
    "shut": [True, False], "vrf": [("ip vrf", "A"), ("vrf", "CUST-1")], "unreach": [True], "redir": [True], "parp": [True], "pim": ["dense-mode", "sparse-mode", "sparse-dense-mode"],
    "arp": [1, 14400], "helper": [[("", False, "1.1.1.1")], [("", False, "172.16.20.12"), ("", False, "172.19.185.91")], [("V", False, "2.2.2.2"), ("", True, "3.3.3.3"), ("", False, "4.4.4.4")]],
    "chan": [(1, "mode active"), (64, "mode on")], "cdp": [True], "xc": [(100, "encapsulation mpls"), (4294967295, "pw-class PW")], "aclin": ["101", "IN-ACL"], "aclout": ["OUT"],
    "pvc": [True],
}


MASKS = [".".join(str((0xFFFFFFFF << (32 - n) >> s) & 255) for s in (24, 16, 8, 0)) for n in range(33)]
TEXTS = WORDS + attrs.TEXTS + ["a  b", "x y z", "secondary", "^C"]
WIDE = {
    "desc": TEXTS, "bandwidth": numbers(1, 10000000), "delay": numbers(1, 16777215), "hqo": numbers(0, 4096), "hqi": numbers(0, 4096), "ip": [("%d.%d.%d.%d" % (n if n % 4 else 200 - n, n, 90 + n, 200 + n), MASKS[n], n) for n in range(1, 33)],
    "speed": [100, 2500, 10000, 100000], "cdelay": numbers(0, 60) + [f"msec {n}" for n in numbers(0, 1000)], "clock": numbers(300, 8000000), "mtu": numbers(64, 18000), "mplsmtu": numbers(64, 65535),
    "ipmtu": numbers(68, 17940), "vrf": [(k, w) for w in WORDS for k in ("ip vrf", "vrf")], "arp": numbers(0, 2147483), "chan": [(n, "mode active") for n in numbers(1, 256)] + [(7, "mode " + m) for m in ("auto", "desirable non-silent", "passive")],
    "helper": [[(w, False, "2.2.2.2")] for w in WORDS] + [[("", False, f"{a}.{b}.{a}.{b}")] for a, b in ((1, 255), (10, 0), (100, 99), (223, 1), (8, 88))], "xc": [(n, "encapsulation mpls") for n in numbers(1, 4294967295)],
    "aclin": WORDS, "aclout": WORDS,
    "v6": [("2001:db8::%x" % n, n) for n in range(1, 129)] + [("2001:db8:1:2:3:4:5:6", 64), ("::1", 128), ("1::", 16), ("abcd:ef01:2345:6789:abcd:ef01:2345:6789", 127)],
}


def lines(n, v):
    if n == "ip":
        return [" no ip address"] if v == "no" else [" ip address dhcp"] if v == "dhcp" else [f" ip address {v[0]} {v[1]}"]
    if n == "sec":
        return [f" ip address {a} {m} secondary" for a, m, _ in v]
    if n == "v6":
        return [f" ipv6 address {v}"] if isinstance(v, str) else [f" ipv6 address {v[0]}/{v[1]}" + (f" {v[2]}" if len(v) > 2 else "")]
    if n == "helper":
        return [" ip helper-address " + (f"vrf {a} " if a else "") + ("global " if g else "") + ip for a, g, ip in v]
    if n == "shut":
        return [" shutdown" if v else " no shutdown"]
    if n == "vrf":
        return [f" {v[0]} forwarding {v[1]}"]
    if n == "chan":
        return [f" channel-group {v[0]} {v[1]}"]
    if n == "xc":
        return [f" xconnect 192.0.2.7 {v[0]} {v[1]}"]
    if n == "pvc":
        return [" pvc 0/100", "  vbr-nrt 704 704"]
    fixed = {"mpls": " mpls ip", "unreach": " no ip unreachables", "redir": " no ip redirects", "parp": " no ip proxy-arp", "cdp": " no cdp enable"}
    if n in fixed:
        return [fixed[n]]
    return [" " + {"desc": "description {}", "bandwidth": "bandwidth {}", "delay": "delay {}", "hqo": "hold-queue {} out", "hqi": "hold-queue {} in", "encap": "encapsulation {}", "speed": "speed {}",
                   "duplex": "duplex {}", "cdelay": "carrier-delay {}", "clock": "clock rate {}", "mtu": "mtu {}", "mplsmtu": "mpls mtu {}", "ipmtu": "ip mtu {}", "pim": "ip pim {}",
                   "arp": "arp timeout {}", "aclin": "ip access-group {} in", "aclout": "ip access-group {} out"}[n].format(v)]


NOISE = [[" ip nat inside"], [" service-policy output mtu"], [" ip ospf mtu-ignore"], [" snmp trap link-status"], [" no mtu"], [" no description"], [" bandwidth receive 512"], [" mpls traffic-eng tunnels"],
         [" ip tcp adjust-mss 1360"], [" load-interval 30"], [" ipv6 mtu 1280"], [" clns mtu 1497"], [" no ip mtu"], [" ip vrf receive B"], [" no speed"], [" no vrf forwarding"],
         [" no ip helper-address 1.2.3.4"], [" ipv6 enable"], [" no ipv6 address"], [" ip ospf 1 area 0"], [" ip access-list extended X"], [" no shutdown"], [" ! shutdown"], [" no ip access-group 101 in"],
         [" ipv6 traffic-filter V6 in"], [" tx-ring-limit 2"], [" dampening"], [" carrier-delay up 5"], [" mac-address 0000.1111.2222"], [" ip pim dr-priority 5"], [" no ip pim sparse-mode"],
         [" service instance 10 ethernet", "  bridge-domain 5"], [" lacp port-priority 5"], [" no mpls ip"], [" arp log threshold entries 5"]]
TYP_VIRTUAL = {"Loopback", "Vlan", "Tunnel", "Dialer", "Virtual-Template", "Port-channel"}


def has4(ch):
    return isinstance(ch.get("ip"), tuple)


def v4(ch):
    return f"{ch['ip'][0]}/{ch['ip'][2]}" if has4(ch) else None


def net(a, plen):
    n = 0
    for x in a.split("."):
        n = n * 256 + int(x)
    return n >> (32 - plen) if plen else 0


def inside(ch, a, plen):
    return has4(ch) and ch["ip"][2] >= plen and net(ch["ip"][0], plen) == net(a, plen)


def v6(ch):
    import ipaddress

    v = ch.get("v6")
    return f"{ipaddress.IPv6Address(v[0])}/{v[1]}" if isinstance(v, tuple) else None


def need4(fn, none=False):
    return lambda h, ch: fn(ch) if has4(ch) else none


def n4(a, n):
    from ciscoconfparse.ccp_util import IPv4Obj

    return IPv4Obj(f"{a}/{n}")


def eth(h):
    return h["type"].lower().endswith("ethernet")


def cdel(ch):
    v = ch.get("cdelay")
    return 0.0 if v is None else float(v) if isinstance(v, int) else float(v.split()[1]) / 1000


def abb(h):
    t, n = h["type"].lower(), h["num"] + (f".{h['sub']}" if h["sub"] is not None else "") + (f":{h['ch']}" if h["ch"] is not None else "")
    return sorted({t[:k] + s + n for k in range(1, len(t) + 1) for s in ("", " ")})


def network4(ch):
    from ipaddress import IPv4Network

    return str(IPv4Network(v4(ch), strict=False)) if has4(ch) else None


def canon_net(o):
    return None if o.empty else f"{o.network.network_address}/{o.prefixlen}"


def sub_num(h):
    return h["num"] + (f".{h['sub']}" if h["sub"] is not None else "")


NETS = [("10.0.0.0", 8), ("10.0.0.0", 24), ("10.0.0.0", 25), ("10.0.0.1", 32), ("192.0.2.0", 24), ("192.0.2.0", 23), ("0.0.0.0", 0), ("172.16.0.0", 31), ("1.1.1.1", 32)]
A = {
    "description": lambda h, ch: ch.get("desc", ""),
    "manual_bandwidth": lambda h, ch: ch.get("bandwidth", 0),
    "manual_delay": lambda h, ch: ch.get("delay", 0),
    "manual_holdqueue_out": lambda h, ch: ch.get("hqo", 0),
    "manual_holdqueue_in": lambda h, ch: ch.get("hqi", 0),
    "manual_encapsulation": lambda h, ch: ch.get("encap", "").split(" ")[0],
    "has_mpls": lambda h, ch: "mpls" in ch,
    "ipv4_addr_object": lambda h, ch: v4(ch), "ip": lambda h, ch: v4(ch), "ipv4": lambda h, ch: v4(ch),
    "ipv4_addr": lambda h, ch: ch["ip"][0] if has4(ch) else "", "ip_addr": lambda h, ch: ch["ip"][0] if has4(ch) else "",
    "ipv4_netmask": lambda h, ch: ch["ip"][1] if has4(ch) else "",
    "ipv4_masklength": lambda h, ch: ch["ip"][2] if has4(ch) else 0,
    "has_no_ipv4": lambda h, ch: not has4(ch),
    "net": (lambda o: canon_net(o.ip_network_object), lambda h, ch: network4(ch)),
    "net4": (lambda o: canon_net(o.ipv4_network_object), lambda h, ch: network4(ch)),
    "has_ip_secondary": lambda h, ch: "sec" in ch,
    "ip_secondary_addresses": lambda h, ch: sorted(a for a, _, _ in ch.get("sec", [])),
    "ip_secondary_networks": lambda h, ch: sorted(f"{a}/{n}" for a, _, n in ch.get("sec", [])),
    "ipv6_addr_object": lambda h, ch: v6(ch),
    "ipv6_addr": lambda h, ch: ch["v6"][0] if isinstance(ch.get("v6"), tuple) else "",
    "ipv6_masklength": lambda h, ch: ch["v6"][1] if isinstance(ch.get("v6"), tuple) else 0,
    "in_ipv4_subnet": (lambda o: [o.in_ipv4_subnet(n4(a, n)) for a, n in NETS], lambda h, ch: [inside(ch, a, n) for a, n in NETS]),
    "in_ipv4_subnets": (lambda o: [o.in_ipv4_subnets([n4(a, n), n4(b, m)]) for (a, n), (b, m) in zip(NETS, NETS[1:])],
                        lambda h, ch: [inside(ch, a, n) or inside(ch, b, m) for (a, n), (b, m) in zip(NETS, NETS[1:])]),
    "has_autonegotiation": lambda h, ch: eth(h) and not isinstance(ch.get("speed"), int) and "duplex" not in ch,
    "has_manual_speed": lambda h, ch: isinstance(ch.get("speed"), int),
    "manual_speed": lambda h, ch: ch["speed"] if isinstance(ch.get("speed"), int) else 0,
    "has_manual_duplex": lambda h, ch: "duplex" in ch, "manual_duplex": lambda h, ch: ch.get("duplex", ""),
    "has_manual_carrierdelay": lambda h, ch: cdel(ch) > 0, "manual_carrierdelay": lambda h, ch: cdel(ch),
    "has_manual_clock_rate": lambda h, ch: "clock" in ch, "manual_clock_rate": lambda h, ch: ch.get("clock", 0),
    "manual_mtu": lambda h, ch: ch.get("mtu", 0), "has_manual_mtu": lambda h, ch: "mtu" in ch,
    "manual_mpls_mtu": lambda h, ch: ch.get("mplsmtu", 0), "has_manual_mpls_mtu": lambda h, ch: "mplsmtu" in ch,
    "manual_ip_mtu": lambda h, ch: ch.get("ipmtu", 0), "has_manual_ip_mtu": lambda h, ch: "ipmtu" in ch,
    "is_shutdown": lambda h, ch: ch.get("shut", False),
    "vrf": lambda h, ch: ch["vrf"][1] if "vrf" in ch else "", "has_vrf": lambda h, ch: "vrf" in ch,
    "has_no_icmp_unreachables": need4(lambda ch: "unreach" in ch), "has_no_icmp_redirects": need4(lambda ch: "redir" in ch), "has_no_ip_proxyarp": need4(lambda ch: "parp" in ch),
    "has_ip_pim_dense_mode": need4(lambda ch: ch.get("pim") == "dense-mode"), "has_ip_pim_sparse_mode": need4(lambda ch: ch.get("pim") == "sparse-mode"),
    "has_ip_pim_sparsedense_mode": need4(lambda ch: ch.get("pim") == "sparse-dense-mode"),
    "manual_arp_timeout": need4(lambda ch: ch.get("arp", 0), none=-1),
    "ip_helper_addresses": lambda h, ch: [{"addr": ip, "vrf": v, "global": g} for v, g, ip in ch.get("helper", [])],
    "has_ip_helper_addresses": lambda h, ch: "helper" in ch,
    "intf_in_portchannel": lambda h, ch: "chan" in ch, "portchannel_number": lambda h, ch: ch["chan"][0] if "chan" in ch else -1,
    "has_manual_disable_cdp": lambda h, ch: "cdp" in ch,
    "has_xconnect": lambda h, ch: "xc" in ch, "xconnect_vc": lambda h, ch: ch["xc"][0] if "xc" in ch else 0,
    "ip_accessgroup_in": lambda h, ch: ch.get("aclin", ""), "ip_accessgroup_out": lambda h, ch: ch.get("aclout", ""),
    "ipv4_accessgroup_in": lambda h, ch: ch.get("aclin", ""), "ipv4_accessgroup_out": lambda h, ch: ch.get("aclout", ""),
    "has_ip_accessgroup_in": lambda h, ch: "aclin" in ch, "has_ip_accessgroup_out": lambda h, ch: "aclout" in ch,
    "has_ipv4_accessgroup_in": lambda h, ch: "aclin" in ch, "has_ipv4_accessgroup_out": lambda h, ch: "aclout" in ch,
    # names
    "is_intf": lambda h, ch: True, "is_subintf": lambda h, ch: h["sub"] is not None,
    "is_virtual_intf": lambda h, ch: h["type"] in TYP_VIRTUAL, "is_loopback_intf": lambda h, ch: h["type"] == "Loopback", "is_ethernet_intf": lambda h, ch: eth(h),
    "is_portchannel_intf": lambda h, ch: h["type"] == "Port-channel", "is_switchport": lambda h, ch: False,
    "port": lambda h, ch: h["port"], "port_type": lambda h, ch: h["type"],
    "ordinal_list": lambda h, ch: [-1 if x is None else x for x in (h["slot"], h["card"], h["port"], h["sub"], h["ch"], None)],
    "interface_number": lambda h, ch: SKIP if h["ch"] is not None else h["num"],
    "subinterface_number": lambda h, ch: SKIP if h["ch"] is not None else sub_num(h),
    "name": lambda h, ch: SKIP if h["cls"] else h["text"].split(" ", 1)[1],
    "interface_object": lambda h, ch: h["bare"] + (f" {h['cls']}" if h["cls"] else ""),
    "class": (lambda o: o.interface_object.interface_class, lambda h, ch: h["cls"]),
    "abbvs": lambda h, ch: SKIP if h["ch"] is not None else abb(h),
    "is_abbreviated_as": (lambda o: [o.is_abbreviated_as(x) for x in ("gi1/2", "GI 1/2", "g1/2", "gig1/20", "gj1/2", "serial1/0", "fa0/0", "ethernet 10", "e1")],
                          lambda h, ch: SKIP if h["ch"] is not None else [x.lower() in abb(h) for x in ("gi1/2", "GI 1/2", "g1/2", "gig1/20", "gj1/2", "serial1/0", "fa0/0", "ethernet 10", "e1")]),
    "build_reset_string": (lambda o: o.build_reset_string(), lambda h, ch: "default " + h["text"]),
}
T = Table(syntax="ios", headers=HEADERS, other=OTHER, features=F, wide=WIDE, lines=lines, noise=NOISE, attrs=A)
NV = sum(len(v) for v in F.values())
BOUNDS = {
    "quick": f"{len(HEADERS)} interface headers x {NV} values of {len(F)} features, alone and between neighbours with contrary values; every ordered pair of values on 1 header; each of {len(NOISE)} unrelated "
             f"lines before and after every value; wide value tables (every number of digits and bits, every mask, names of every kind of character); removal and re-adding of every value; {sum(map(len, WIDE.values()))} more values (every number of digits and bits, every mask, names of every kind of character); reset()",
    "thorough": "every ordered pair on 6 headers, and with neighbours; unrelated lines on 4 headers; every ordered triple of 8 clusters of features",
}
CLUSTERS = [["ip", "sec", "v6", "parp"], ["mtu", "ipmtu", "mplsmtu", "mpls"], ["helper", "ip", "vrf"], ["desc", "ip", "shut"], ["speed", "duplex", "clock", "cdelay"], ["aclin", "aclout", "ip", "vrf"],
            ["ip", "pim", "arp", "unreach", "redir"], ["hqi", "hqo", "delay", "cdelay", "bandwidth"]]
BOUNDS["quick"] += "; every value also with the section indented by 1, 2, 3 and 7 blanks"


def shards(tier):
    q = tier == "quick"
    out = [{"k": "wide"}, {"k": "single"}, {"k": "nb"}, {"k": "hist"}, {"k": "reset"}]
    parts = 8 if q else 32
    out += [{"k": "noise", "part": i, "parts": 6} for i in range(6)]
    out += [{"k": "pair", "part": i, "parts": parts} for i in range(parts)]
    if not q:
        out += [{"k": "pairnb", "part": i, "parts": parts} for i in range(parts)]
        out += [{"k": "tri", "g": i} for i in range(len(CLUSTERS))]
    return out


def cases(sh, tier):
    q = tier == "quick"
    k = sh["k"]
    if k == "wide":
        yield from attrs.wides(T, [0, 7] if q else range(len(HEADERS)))
    elif k == "single":
        yield from attrs.singles(T)
    elif k == "nb":
        yield from attrs.neighbours(T, [0, 7])
    elif k == "noise":
        yield from attrs.noisy(T, [0] if q else [0, 3, 10, 17], sh["part"], sh["parts"])
    elif k == "hist":
        yield from attrs.histories(T, [0, 10])
    elif k == "reset":
        for hi in range(len(HEADERS)):
            yield {"h": hi, "f": [], "nb": 0, "mode": "reset"}
    elif k == "pair":
        yield from attrs.pairs(T, [0] if q else [0, 4, 7, 9, 13, 18], sh["part"], sh["parts"])
    elif k == "pairnb":
        yield from attrs.pairs(T, [2], sh["part"], sh["parts"], nb=1)
    else:
        yield from attrs.clusters(T, [0, 10], [CLUSTERS[sh["g"]]], 3)


def check(case, R):
    if case.get("mode") == "reset":
        h = HEADERS[case["h"]]
        p = T.parse(["hostname a", h["text"], " mtu 1500", "end"])
        p.find_objects("^interface")[0].reset()
        R.eq("reset", [o.text for o in p.objs], ["hostname a", "default " + h["text"], h["text"], " mtu 1500", "end"], "reset():")
        R.state(h["text"])
        R.outcome(h["text"])
        R.trace()
        return
    T.check(case, R)
