"""Every attribute of an NX-OS interface, HSRP included, is the value its configuration lines give it, in any order."""
import itertools

from mc import attrs
from mc.attrs import SKIP, TEXTS, WORDS, Table, numbers
from mc.checks.C26 import net, n4

ID = "C31"
ASSUMPTIONS = ["a line is written as NX-OS shows it (two blanks of indent, four inside an HSRP group, single blanks between words)", "each feature is configured once per interface, as in a running-config; one HSRP group per "
               "interface, as documented", "the primary HSRP address stands before the secondary ones", "'is_virtual_intf' of nve and mgmt interfaces and 'hsrp_ip_mask' are not claimed"]


def H(typ, num, sub=None):
    nums = [int(x) for x in num.split("/")]
    return {"text": f"interface {typ}{num}" + ("" if sub is None else f".{sub}"), "type": typ, "num": num, "sub": sub, "nums": nums}


HEADERS = [H("Ethernet", "1/1"), H("Ethernet", "101/1/48"), H("Ethernet", "1/1", 100), H("Ethernet", "1/50/4", 4094), H("Vlan", "10"), H("Vlan", "4094"), H("loopback", "0"), H("port-channel", "10"), H("port-channel", "4096", 5),
           H("mgmt", "0"), H("Tunnel", "5"), H("nve", "1"), H("Ethernet", "1/1/1"), H("loopback", "1023")]
OTHER = [H("Ethernet", "9/8"), H("Ethernet", "9/9", 9)]
KIDS = [("ip", "10.0.0.254"), ("prio", 1), ("prio", 110), ("preempt", ""), ("preempt", " delay minimum 180 reload 300"), ("timers", (1, 3)), ("timers", ("msec 250", "msec 750")), ("timers", (3, 10)), ("timers", ("msec 500", 2)),
        ("track", "10"), ("track", "1 decrement 20"), ("auth", "md5 key-chain KEYS"), ("auth", "text cisco"), ("sec", "10.0.0.253"), ("name", "priority-1"), ("mac", "0000.0000.0001"), ("name", "preempt")]
SMALL = [(1, [("ip", "10.0.0.254")]), (10, [("auth", "md5 key-chain KEYS"), ("preempt", ""), ("prio", 150), ("ip", "10.0.0.253")]), (4095, [("track", "5"), ("timers", (1, 3))])]
F = {
    "desc": ["x", "to core: rtr1", "ip address 9.9.9.9/8", "shutdown", "mtu 1", "vpc 99", "vpc peer-link", "hsrp 5", "interface Vlan5", "switchport", "fex associate 199"],
    "bandwidth": [1, 100000000], "delay": [1, 16777215], "encap": ["dot1q 10", "dot1q 4094"], "mpls": [True], "ip": ["10.0.0.1/24", "192.0.2.255/23", "172.16.0.0/31", "1.1.1.1/32", "dhcp"],
    "sec": ["10.1.0.1/16"], "speed": [1000, "auto"], "duplex": ["full", "half"], "beacon": [True], "mtu": [1500, 9216], "ipmtu": [1400], "shut": [True, False], "vrf": ["A", "management"], "unreach": [True],
    "redir": [True], "pim": [True], "arp": [60, 1500], "helper": [["1.1.1.1"], ["172.16.20.12", "172.19.185.91"]], "chan": [(1, " mode active"), (4096, ""), (12, " force mode on")], "vpc": [1, 4096], "peer": [True],
    "fex": [101, 199], "stplink": ["point-to-point", "shared"], "stpport": ["edge", "edge trunk", "network", "normal"], "aclin": ["101", "IN-ACL"], "aclout": ["OUT"], "cdp": [True], "hsrp": SMALL, "bia": ["", " scope interface"],
    "cdelay": [5, "msec 500"], "clock": [64000], "mplsmtu": [1508], "parp": [True], "xc": [(100, "encapsulation mpls"), (4294967295, "pw-class PW")],
}


def group(v):
    g, kids = v
    out = [f"  hsrp {g}"]
    for n, x in kids:
        out.append("    " + {"ip": f"ip {x}", "prio": f"priority {x}", "preempt": f"preempt{x}", "timers": None, "track": f"track {x}", "auth": f"authentication {x}", "sec": f"ip {x} secondary", "name": f"name {x}",
                             "mac": f"mac-address {x}"}[n] if n != "timers" else f"    timers  {x[0]}  {x[1]}")
    return out

WIDE = {
    "desc": WORDS + TEXTS + ["a  b", "x y z", "secondary", "^C"], "bandwidth": numbers(1, 100000000), "delay": numbers(1, 16777215), "encap": [f"dot1q {n}" for n in numbers(1, 4094)], "ip": [f"{n if n % 4 else 200 - n}.{n}.{90 + n}.{200 + n}/{n}" for n in range(1, 33)],
    "speed": [10, 100, 2500, 10000, 100000], "mtu": numbers(576, 9216), "ipmtu": numbers(68, 9216), "vrf": WORDS, "arp": numbers(60, 28800), "helper": [[f"{a}.{b}.{a}.{b}"] for a, b in ((1, 255), (10, 0), (100, 99), (223, 1), (8, 88))],
    "chan": [(n, " mode active") for n in numbers(1, 4096)] + [(n, "") for n in numbers(1, 4096)], "vpc": numbers(1, 4096), "fex": numbers(100, 199), "aclin": WORDS, "aclout": WORDS,
    "cdelay": numbers(0, 60) + [f"msec {n}" for n in numbers(0, 1000)], "clock": numbers(300, 8000000), "mplsmtu": numbers(64, 65535), "xc": [(n, "encapsulation mpls") for n in numbers(1, 4294967295)],
    "hsrp": [(n, [("ip", "10.0.0.254")]) for n in numbers(0, 4095)] + [(1, [("ip", "10.0.0.254"), ("prio", n)]) for n in numbers(1, 255)] + [(1, [("ip", "10.0.0.254"), ("auth", f"md5 key-chain {w}")]) for w in WORDS]
    + [(1, [("ip", "10.0.0.254"), ("timers", (n, n + 1))]) for n in numbers(1, 254)] + [(1, [("ip", "10.0.0.254"), ("timers", (f"msec {n}", 5))]) for n in numbers(255, 999)]
    + [(1, [("ip", "10.0.0.254"), ("auth", f"text {w}")]) for w in WORDS]
    + [(1, [("ip", "10.0.0.254"), ("track", f"{n} decrement {1 + n % 255}")]) for n in numbers(1, 500)] + [(1, [("ip", "10.0.0.254"), ("preempt", f" delay minimum {n}")]) for n in numbers(0, 3600)],
}

def lines(n, v):
    if n == "ip":
        return [f"  ip address {v}"]
    if n == "sec":
        return [f"  ip address {v} secondary"]
    if n == "helper":
        return [f"  ip dhcp relay address {a}" for a in v]
    if n == "shut":
        return ["  shutdown" if v else "  no shutdown"]
    if n == "chan":
        return [f"  channel-group {v[0]}{v[1]}"]
    if n == "hsrp":
        return group(v)
    if n == "bia":
        return [f"  hsrp use-bia{v}"]
    if n == "xc":
        return [f"  xconnect 10.1.1.1 {v[0]} {v[1]}"]
    fixed = {"mpls": "mpls ip forwarding", "beacon": "beacon", "unreach": "no ip unreachables", "redir": "no ip redirects", "pim": "ip pim sparse-mode", "peer": "vpc peer-link", "cdp": "no cdp enable", "parp": "no ip proxy-arp"}
    if n in fixed:
        return ["  " + fixed[n]]
    return ["  " + {"desc": "description {}", "bandwidth": "bandwidth {}", "delay": "delay {}", "encap": "encapsulation {}", "speed": "speed {}", "duplex": "duplex {}", "mtu": "mtu {}", "ipmtu": "ip mtu {}", "vrf": "vrf member {}",
                    "arp": "arp timeout {}", "vpc": "vpc {}", "fex": "fex associate {}", "stplink": "spanning-tree link-type {}", "stpport": "spanning-tree port type {}", "aclin": "ip access-group {} in",
                    "aclout": "ip access-group {} out", "cdelay": "carrier-delay {}", "clock": "clock rate {}", "mplsmtu": "mpls mtu {}"}[n].format(v)]


NOISE = [["  no switchport"], ["  ip ospf mtu-ignore"], ["  no mtu"], ["  no description"], ["  ip router ospf 1 area 0.0.0.0"], ["  no shutdown"], ["  no vrf member A"], ["  no beacon"], ["  spanning-tree guard root"],
         ["  no ip dhcp relay address 1.2.3.4"], ["  ip arp 10.0.0.9 0000.1111.2222"], ["  ip access-list X"], ["  no hsrp 7"], ["  hsrp version 2"], ["  hsrp bfd"], ["  hsrp delay minimum 60"], ["  ip pim hello-interval 30000"],
         ["  ip pim dr-priority 10"], ["  service-policy type qos input mtu"], ["  lacp rate fast"], ["  no vpc 9"], ["  ipv6 address 2001:db8::1/64"], ["  load-interval counter 1 30"], ["  no speed"], ["  snmp trap link-status"],
         ["  spanning-tree bpduguard enable"], ["  vrrp 1", "    priority 50", "    preempt"], ["  vrrpv3 1 address-family ipv4", "    timers advertise 100"], ["  no ip redirects ipv6"], ["  mpls ldp"]]


def has4(ch):
    return "ip" in ch and ch["ip"] != "dhcp"


def dyn(ch):
    return ch.get("ip") == "dhcp"


def mask(n):
    v = (0xFFFFFFFF << (32 - n)) & 0xFFFFFFFF
    return ".".join(str(v >> s & 255) for s in (24, 16, 8, 0))


def v4(fn, none=None):
    """Attributes of the static address; with dhcp they raise the documented exception (observed by 'dynamic')."""
    return lambda h, ch: SKIP if dyn(ch) else fn(*ch["ip"].split("/")) if has4(ch) else none


def need4(fn, none=False):
    return lambda h, ch: SKIP if dyn(ch) else fn(ch) if has4(ch) else none


def dynamic(o):
    from ciscoconfparse.errors import DynamicAddressException

    out = []
    for a in ("ipv4_addr", "ip_addr", "ipv4_addr_object", "ip", "ipv4", "ip_network_object", "ipv4_network_object"):
        try:
            getattr(o, a)
            out.append(False)
        except DynamicAddressException:
            out.append(True)
    return out


def canon_net(o):
    return f"{o.network.network_address}/{o.prefixlen}"


def network(a, n):
    v = net(a, int(n)) << (32 - int(n))
    return ".".join(str(v >> s & 255) for s in (24, 16, 8, 0)) + "/" + n


def eth(h):
    return h["type"] in ("Ethernet", "mgmt")


def full(h):
    return h["num"] + ("" if h["sub"] is None else f".{h['sub']}")


def abb(h):
    t = h["type"].lower()
    return sorted({t[:k] + s + full(h) for k in range(1, len(t) + 1) for s in ("", " ")})


def kid(ch, n, default=""):
    for k, v in ch.get("hsrp", (0, []))[1]:
        if k == n:
            return v
    return default


def hsrp_ip(h, ch):
    return SKIP if dyn(ch) else kid(ch, "ip") if has4(ch) else ""


def prio(h, ch):
    return SKIP if dyn(ch) else kid(ch, "prio", 100) if hsrp_ip(h, ch) else 0


def timer(i):
    def ref(h, ch):
        t = kid(ch, "timers", None)
        if t is None:
            return 0.0
        return int(t[i].split()[1]) / 1000.0 if isinstance(t[i], str) else float(t[i])
    return ref


def cdelay(ch):
    v = ch.get("cdelay", 0)
    return int(v.split()[1]) / 1000.0 if isinstance(v, str) else float(v)



def chain(h, ch):
    a = kid(ch, "auth")
    return a.split()[-1] if a.startswith("md5") else ""


NETS = [("10.0.0.0", 8), ("10.0.0.0", 24), ("10.0.0.0", 25), ("10.0.0.1", 32), ("192.0.2.0", 24), ("192.0.2.0", 23), ("0.0.0.0", 0), ("172.16.0.0", 31), ("1.1.1.1", 32)]


def inside(a, n, b, m):
    return int(n) >= m and net(a, m) == net(b, m)


NAMES = ("eth1/1", "E 1/1", "ethernet1/10", "po10", "port-channel 10", "lo0", "vlan1", "m0", "ethernut1/1", "e1/1.100")
EMPTY4 = "0.0.0.1/32"
A = {
    "description": lambda h, ch: ch.get("desc", ""), "manual_bandwidth": lambda h, ch: ch.get("bandwidth", 0), "manual_delay": lambda h, ch: ch.get("delay", 0),
    "manual_encapsulation": lambda h, ch: ch.get("encap", "").split(" ")[0], "has_mpls": lambda h, ch: "mpls" in ch, "manual_beacon": lambda h, ch: "beacon" in ch,
    "dynamic": (dynamic, lambda h, ch: [dyn(ch)] * 7),
    "ipv4_addr_object": v4(lambda a, n: f"{a}/{n}", EMPTY4), "ip": v4(lambda a, n: f"{a}/{n}", EMPTY4), "ipv4": v4(lambda a, n: f"{a}/{n}", EMPTY4), "ipv4_addr": v4(lambda a, n: a, ""), "ip_addr": v4(lambda a, n: a, ""),
    "ipv4_masklength": v4(lambda a, n: int(n), 0), "ipv4_netmask": v4(lambda a, n: mask(int(n)), ""), "has_no_ipv4": need4(lambda ch: False, True),
    "net": (lambda o: canon_net(o.ipv4_network_object), v4(network, EMPTY4)),
    "in_ipv4_subnet": (lambda o: [o.in_ipv4_subnet(n4(a, n)) for a, n in NETS], v4(lambda a, n: [inside(a, n, b, m) for b, m in NETS], [None] * len(NETS))),
    "in_ipv4_subnets": (lambda o: [o.in_ipv4_subnets([n4(a, n), n4(b, m)]) for (a, n), (b, m) in zip(NETS, NETS[1:])],
                        v4(lambda a, n: [inside(a, n, *x) or inside(a, n, *y) for x, y in zip(NETS, NETS[1:])], [None] * (len(NETS) - 1))),
    "has_autonegotiation": lambda h, ch: eth(h) and not isinstance(ch.get("speed"), int) and "duplex" not in ch, "has_manual_speed": lambda h, ch: isinstance(ch.get("speed"), int),
    "manual_speed": lambda h, ch: ch["speed"] if isinstance(ch.get("speed"), int) else 0, "has_manual_duplex": lambda h, ch: "duplex" in ch, "manual_duplex": lambda h, ch: ch.get("duplex", ""),
    "manual_mtu": lambda h, ch: ch.get("mtu", 0), "has_manual_mtu": lambda h, ch: "mtu" in ch, "manual_ip_mtu": lambda h, ch: ch.get("ipmtu", 0), "has_manual_ip_mtu": lambda h, ch: "ipmtu" in ch,
    "is_shutdown": lambda h, ch: ch.get("shut", False), "vrf": lambda h, ch: ch.get("vrf", ""), "has_vrf": lambda h, ch: "vrf" in ch,
    "has_no_icmp_unreachables": need4(lambda ch: "unreach" in ch), "has_no_icmp_redirects": need4(lambda ch: "redir" in ch), "has_ip_pim_sparse_mode": need4(lambda ch: "pim" in ch), "has_ip_pim_dense_mode": need4(lambda ch: False),
    "has_ip_pim_sparsedense_mode": need4(lambda ch: False), "manual_arp_timeout": need4(lambda ch: ch.get("arp", 0), -1),
    "ip_helper_addresses": lambda h, ch: [{"addr": a, "vrf": ch.get("vrf", ""), "global": False} for a in ch.get("helper", [])], "has_ip_helper_addresses": lambda h, ch: "helper" in ch,
    "intf_in_portchannel": lambda h, ch: "chan" in ch, "portchannel_number": lambda h, ch: ch["chan"][0] if "chan" in ch else -1, "vpc": lambda h, ch: ch.get("vpc", 0), "is_vpc_peerlink": lambda h, ch: "peer" in ch,
    "fex_associate_chassis_id": lambda h, ch: ch.get("fex", 0), "manual_stp_link_type": lambda h, ch: ch.get("stplink", ""), "manual_stp_port_type": lambda h, ch: ch.get("stpport", ""),
    "has_manual_disable_cdp": lambda h, ch: "cdp" in ch, "manual_carrierdelay": lambda h, ch: cdelay(ch), "has_manual_carrierdelay": lambda h, ch: bool(cdelay(ch)), "manual_clock_rate": lambda h, ch: ch.get("clock", 0),
    "has_manual_clock_rate": lambda h, ch: "clock" in ch, "manual_mpls_mtu": lambda h, ch: ch.get("mplsmtu", 0), "has_manual_mpls_mtu": lambda h, ch: "mplsmtu" in ch, "has_no_ip_proxyarp": need4(lambda ch: "parp" in ch),
    "has_xconnect": lambda h, ch: "xc" in ch, "xconnect_vc": lambda h, ch: ch["xc"][0] if "xc" in ch else 0, "has_dtp": lambda h, ch: False, "manual_switch_trunk_encap": lambda h, ch: "",
    "ip_accessgroup_in": lambda h, ch: ch.get("aclin", ""), "ip_accessgroup_out": lambda h, ch: ch.get("aclout", ""), "ipv4_accessgroup_in": lambda h, ch: ch.get("aclin", ""), "ipv4_accessgroup_out": lambda h, ch: ch.get("aclout", ""),
    "has_ip_accessgroup_in": lambda h, ch: "aclin" in ch, "has_ip_accessgroup_out": lambda h, ch: "aclout" in ch, "has_ipv4_accessgroup_in": lambda h, ch: "aclin" in ch, "has_ipv4_accessgroup_out": lambda h, ch: "aclout" in ch,
    "hsrp_ip_addr": hsrp_ip, "has_ip_hsrp": lambda h, ch: SKIP if dyn(ch) else bool(hsrp_ip(h, ch)), "hsrp_group": lambda h, ch: str(ch["hsrp"][0]) if "hsrp" in ch else "", "hsrp_priority": prio,
    "hsrp_hello_timer": timer(0), "hsrp_hold_timer": timer(1), "hsrp_track": lambda h, ch: kid(ch, "track").split(" ")[0], "has_hsrp_track": lambda h, ch: bool(kid(ch, "track")),
    "has_hsrp_preempt": lambda h, ch: kid(ch, "preempt", None) is not None, "has_hsrp_usebia": lambda h, ch: "bia" in ch, "hsrp_authentication_md5_keychain": chain, "has_hsrp_authentication_md5": lambda h, ch: bool(chain(h, ch)),
    # names
    "is_intf": lambda h, ch: True, "is_subintf": lambda h, ch: h["sub"] is not None, "is_virtual_intf": lambda h, ch: SKIP if h["type"] in ("nve", "mgmt") else h["type"] != "Ethernet",
    "is_loopback_intf": lambda h, ch: h["type"] == "loopback", "is_ethernet_intf": lambda h, ch: eth(h), "is_portchannel_intf": lambda h, ch: h["type"] == "port-channel", "is_switchport": lambda h, ch: False,
    "port": lambda h, ch: h["nums"][-1], "port_type": lambda h, ch: h["type"], "ordinal_list": lambda h, ch: h["nums"], "interface_number": lambda h, ch: h["num"], "subinterface_number": lambda h, ch: full(h),
    "name": lambda h, ch: h["type"] + full(h), "abbvs": lambda h, ch: abb(h), "is_abbreviated_as": (lambda o: [o.is_abbreviated_as(x) for x in NAMES], lambda h, ch: [x.lower() in abb(h) for x in NAMES]),
    "build_reset_string": (lambda o: o.build_reset_string(), lambda h, ch: "default " + h["text"]),
}
T = Table(syntax="nxos", indent=2, headers=HEADERS, other=OTHER, features=F, wide=WIDE, lines=lines, noise=NOISE, attrs=A)
NV = sum(len(v) for v in F.values())
HA = {k: v for k, v in A.items() if "hsrp" in k or k in ("ipv4_addr", "vrf", "description", "is_intf")}
BOUNDS = {
    "quick": f"{len(HEADERS)} interface headers x {NV} values of {len(F)} features, alone and between neighbours with contrary values; every ordered pair of values on 1 header; each of {len(NOISE)} unrelated "
             f"lines before and after every value; wide value tables (every number of digits and bits, every mask, names of every kind of character); removal and re-adding of every value; every ordered choice of 3 of {len(KIDS)} HSRP commands of a group, the address before and after it",
    "thorough": "every ordered pair on 5 headers, and with neighbours; unrelated lines on 4 headers; every ordered choice of 4 HSRP commands; every ordered triple of 5 clusters of features",
}
CLUSTERS = [["ip", "sec", "vrf", "helper"], ["mtu", "ipmtu", "mpls", "desc"], ["chan", "vpc", "peer", "fex", "stpport"], ["hsrp", "ip", "bia", "shut"], ["aclin", "aclout", "ip", "vrf"]]
BOUNDS["quick"] += "; every value also with the section indented by 1, 2, 3 and 7 blanks"


def shards(tier):
    q = tier == "quick"
    out = [{"k": "wide"}, {"k": "single"}, {"k": "nb"}, {"k": "hist"}, {"k": "reset"}]
    parts = 8 if q else 32
    out += [{"k": "noise", "part": i, "parts": 6} for i in range(6)]
    out += [{"k": "pair", "part": i, "parts": parts} for i in range(parts)]
    out += [{"k": "hsrp", "a": a} for a in range(len(KIDS))]
    if not q:
        out += [{"k": "pairnb", "part": i, "parts": parts} for i in range(parts)]
        out += [{"k": "tri", "g": i} for i in range(len(CLUSTERS))]
    return out


def cases(sh, tier):
    q = tier == "quick"
    k = sh["k"]
    if k == "wide":
        yield from attrs.wides(T, [0, 4])
    elif k == "single":
        yield from attrs.singles(T)
    elif k == "nb":
        yield from attrs.neighbours(T, [0, 7])
    elif k == "noise":
        yield from attrs.noisy(T, [0] if q else [0, 3, 4, 7], sh["part"], sh["parts"])
    elif k == "hist":
        yield from attrs.histories(T, [0, 4])
    elif k == "reset":
        for hi in range(len(HEADERS)):
            yield {"h": hi, "f": [], "nb": 0, "mode": "reset"}
    elif k == "pair":
        yield from attrs.pairs(T, [0] if q else [0, 3, 4, 7, 9], sh["part"], sh["parts"])
    elif k == "pairnb":
        yield from attrs.pairs(T, [2], sh["part"], sh["parts"], nb=1)
    elif k == "hsrp":
        for n in (1, 2, 3) if q else (1, 2, 3, 4):
            for rest in itertools.permutations([i for i in range(len(KIDS)) if i != sh["a"]], n - 1):
                ks = [sh["a"], *rest]
                names = [KIDS[i][0] for i in ks]
                if len(set(names)) < len(names) or "sec" in names and "ip" in names and names.index("sec") < names.index("ip"):
                    continue
                for addr in (0, 1, 2):
                    yield {"h": 4, "kids": ks, "addr": addr}
    else:
        yield from attrs.clusters(T, [0, 4], [CLUSTERS[sh["g"]]], 3)


def check(case, R):
    if case.get("mode") == "reset":
        h = HEADERS[case["h"]]
        p = T.parse(["hostname a", h["text"], "  mtu 1500", "end"])
        p.find_objects("^interface")[0].reset()
        R.eq("reset", [o.text for o in p.objs], ["hostname a", "default " + h["text"], h["text"], "  mtu 1500", "end"], "reset():")
        R.state(h["text"])
        R.outcome(h["text"])
        R.trace()
    elif "kids" in case:
        kids = [KIDS[i] for i in case["kids"]]
        if not any(n == "ip" for n, _ in kids):
            kids = [x for x in kids if x[0] != "sec"]  # a secondary address alone does not exist
        v = (12, kids)
        h = HEADERS[case["h"]]
        ch = {"hsrp": v}
        body = group(v)
        if case["addr"]:
            ch["ip"] = "10.0.0.1/24"
            body = ["  ip address 10.0.0.1/24"] + body if case["addr"] == 1 else body + ["  ip address 10.0.0.1/24"]
        ls = ["hostname a", h["text"], *body, "!", "interface Vlan11", "  ip address 10.9.9.9/24", "  hsrp 99", "    preempt", "    ip 10.9.9.1", "    priority 9", "    authentication md5 key-chain OTHER", "    track 99"]
        R.state("\n".join(body))
        p = T.parse(ls)
        for a, ref in HA.items():
            want = ref(h, ch)
            if want is SKIP:
                continue
            got = attrs.canon(getattr(p.objs[1], a))
            R.step()
            if not attrs.same(got, attrs.canon(want)):
                R.fail(a, f"{ls}: {a} is {got!r} and should be {want!r}")
            R.outcome((a, repr(got)))
        R.trace()
    else:
        T.check(case, R)
