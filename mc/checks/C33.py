"""NX-OS static routes, the vPC domain, AAA, access lines, hostname and globals: class of every command and every attribute."""
import ipaddress
import itertools

from mc.checks.C29 import VRF, mask, shapes
from mc.checks.C30 import attrs, kind

from mc.attrs import PLAIN, WORDS, numbers

ID = "C33"
FILES = ["models_nxos.py", "ciscoconfparse.py"]
ASSUMPTIONS = ["one blank between the words and two of indent, as NX-OS writes them", "IPv4 routes stand outside of a vrf context and name no next-hop vrf; IPv6 options stand in the order of the command reference",
               "'route_name' and 'unicast' of IPv6 routes are documented as not implemented; 'admin_distance' is text", "an exec-timeout which is not configured is not claimed", "at most one server group, before the other methods"]
CLASS = {
    "NXOSIntfLine": ["interface Ethernet1/1", "interface Vlan10", "interface port-channel10", "interface mgmt0"],
    "NXOSRouteLine": ["ip route 10.0.0.0/8 Null0", "ipv6 route ::/0 2001:db8::1"],
    "NXOSAccessLine": ["line console", "line vty"],
    "NXOSvPCLine": ["vpc domain 10"],
    "NXOSAaaLoginAuthenticationLine": ["aaa authentication login default group TAC local", "aaa authentication login console none"],
    "NXOSAaaEnableAuthenticationLine": ["aaa authentication enable default group TAC"],
    "NXOSAaaCommandsAuthorizationLine": ["aaa authorization commands default group TAC local"],
    "NXOSAaaConsoleAuthorizationLine": ["aaa authorization console 15 default group TAC local"],
    "NXOSAaaCommandsAccountingLine": ["aaa accounting commands 15 default start-stop group TAC"],
    "NXOSAaaExecAccountingLine": ["aaa accounting exec default stop-only group TAC"],
    "NXOSAaaGroupServerLine": ["aaa group server tacacs+ T1", "aaa group server radius R1"],
    "NXOSHostnameLine": ["hostname Switch-1"],
    "NXOSIntfGlobal": ["no cdp run", "logging event link-status global", "spanning-tree mode rapid-pvst", "spanning-tree portfast default", "spanning-tree portfast bpduguard default"],
    "NXOSCfgLine": ["feature vpc", "vrf context management", "  ip route 0.0.0.0/0 10.0.0.1", "aaa authentication ppp default local", "ip routing", "ipv6 access-list X", "cdp run", "  description interface Vlan1", "router ospf 1", "vlan 10",
                    "  ip address 1.1.1.1/8", "end", "!", "no ip domain-lookup", "spanning-tree mode mst", "switchname X", "version 7.0", "  vpc domain 9", "  hostname x", "ip access-list line"],
}
ALL = [(t, c) for c, ts in CLASS.items() for t in ts]
METHODS = ["local", "none", "enable"]
LISTS, GROUPS = ["default", "console", "group1", "A.b:c/1"], ["", "tacacs+", "radius", "MY_GRP", "g-1.x:y/2"]
GLOBALS = dict(zip(["no cdp run", "logging event link-status global", "spanning-tree portfast bpduguard default", "spanning-tree mode rapid-pvst"],
                   ["has_cdp_disabled", "has_intf_logging_def", "has_stp_portfast_bpduguard_def", "has_stp_mode_rapidpvst"]))
OPT4 = [("name", "X1"), ("name", "tag"), ("track", "35"), ("tag", "20"), ("", "1"), ("", "255")]
NH4 = [("", "10.0.0.1"), ("Null0", ""), ("Ethernet1/1", ""), ("Vlan10", "172.16.1.254"), ("port-channel10.5", "1.2.3.4")]
NH6 = [("", "2001:DB8::1"), ("Null0", ""), ("Vlan10", ""), ("Ethernet1/1", "fe80::1")]
# vPC domain: feature -> (lines, {attribute: value})
KEEP = {"source": "10.9.9.2", "vrf": "keepalive", "interval": 400, "timeout": 5, "precedence": "critical", "tos": "max-reliability", "tos-byte": 192, "udp-port": 3200, "hold-timeout": 3}
VPC = {
    "role": [(f"role priority {n}", {"vpc_role_priority": n}) for n in (1, 65535)], "sys": [(f"system-priority {n}", {"vpc_system_priority": n}) for n in (1, 4096)],
    "mac": [("system-mac 00:23:04:ee:be:01", {"vpc_system_mac": "00:23:04:ee:be:01"})], "bypass": [("peer-config-check-bypass", {"has_peer_config_check_bypass": True})],
    "switch": [("peer-switch", {"has_peer_switch": True})], "l3": [("layer3 peer-router", {"has_layer3_peer_router": True})], "gw": [("peer-gateway", {"has_peer_gateway": True}), ("peer-gateway exclude-vlan 9", {"has_peer_gateway": True})],
    "auto": [("auto-recovery", {"has_auto_recovery": True}), ("auto-recovery reload-delay 360", {"has_auto_recovery": True, "vpc_auto_recovery_reload_delay": 360})],
    "arp": [("ip arp synchronize", {"has_ip_arp_synchronize": True})],
    "keep": [("peer-keepalive destination 10.9.9.1", {}), ("peer-keepalive destination 10.9.9.1 source 10.9.9.2 vrf keepalive", {"source": 1, "vrf": 1}),
             ("peer-keepalive destination 10.9.9.1 interval 400 timeout 5", {"interval": 1, "timeout": 1})],
}
WIDE = [(f"role priority {n}", {"vpc_role_priority": n}) for n in numbers(1, 65535)] + [(f"system-priority {n}", {"vpc_system_priority": n}) for n in numbers(1, 65535)]
WIDE += [(f"auto-recovery reload-delay {n}", {"has_auto_recovery": True, "vpc_auto_recovery_reload_delay": n}) for n in numbers(240, 3600)] + [(f"system-mac {m}", {"vpc_system_mac": m}) for m in ("aa:bb:cc:dd:ee:ff", "0123.4567.89ab", "AA:00:11:22:33:99")]
KWIDE = [[(o, n)] for o, hi in (("interval", 10000), ("timeout", 20), ("tos-byte", 255), ("udp-port", 65000), ("hold-timeout", 10)) for n in numbers(1, hi)] + [[("vrf", w)] for w in WORDS] + [[("source", a), ("vrf", "v")] for a in ("1.2.3.4", "255.0.10.100")]
KWIDE += [[("precedence", w)] for w in ("critical", "flash", "flash-override", "immediate", "internet", "network", "priority", "routine", "0", "7")] + [[("tos", w)] for w in ("max-reliability", "max-throughput", "min-delay", "min-monetary-cost", "normal", "0", "15")]
VPC0 = {"vpc_role_priority": -1, "vpc_system_priority": -1, "vpc_system_mac": "", "has_peer_config_check_bypass": False, "has_peer_switch": False, "has_layer3_peer_router": False, "has_peer_gateway": False, "has_auto_recovery": False,
        "vpc_auto_recovery_reload_delay": -1, "has_ip_arp_synchronize": False}
KEEP0 = {"destination": "", "hold-timeout": -1, "interval": -1, "timeout": -1, "precedence": "", "source": "", "tos": "", "tos-byte": -1, "udp-port": -1, "vrf": ""}
VNOISE = ["delay restore 150", "no ip arp synchronize", "no peer-gateway", "no peer-switch", "graceful consistency-check", "ipv6 nd synchronize", "dual-active exclude interface-vlan 10", "no auto-recovery", "no layer3 peer-router"]
TIMEOUTS = [None, [0], [30], [525600], [5, 30]]
LHEADS = [("console", []), ("vty", []), ("con", [0]), ("vty", [0, 4]), ("", [33, 48])]
LOTHERS = ["  session-limit 5", "  access-class IN in", "  speed 115200", "  no exec"]
BOUNDS = {
    "quick": f"every ordered pair of {len(ALL)} commands (class of each) and every replacement of one by another; IPv4 routes: every ordered set of options x next hop, every prefix length; IPv6: every shape of address as network and next hop, "
             "vrf, nexthop-vrf, distance, tag; vPC domains: ordered triples of values, unrelated lines, keepalive options in order; AAA: list x group x ordered choice of methods x level; server groups: ordered subsets; lines",
    "thorough": "ordered triples of commands, ordered choices of 4 vPC values, all shapes of network x next hop",
}


def route(fam, vrf, net, nh, opts=(), ad=None, nhvrf="", cast="", tag=None):
    w = ["ip route" if fam == 4 else "ipv6 route"] + (["vrf", vrf] if vrf else []) + ["%s/%d" % tuple(net)] + [x for x in nh if x]
    if nhvrf:
        w += ["nexthop-vrf", nhvrf]
    if ad is not None:
        w.append(str(ad))
    if cast:
        w.append(cast)
    if tag is not None:
        w += ["tag", str(tag)]
    for k, v in opts:
        w += [k, v] if k else [v]
    return " ".join(w)


def shards(tier):
    out = [{"k": "class", "i": i} for i in range(len(ALL))]
    out += [{"k": "aaa", "cmd": c} for c in ("authentication login", "authentication enable", "authorization commands", "authorization console")]
    out += [{"k": "r4", "nh": n} for n in range(len(NH4))] + [{"k": "r6", "nh": n} for n in range(len(NH6))] + [{"k": "r6s", "part": i} for i in range(4)]
    out += [{"k": "vpc", "f": f} for f in VPC] + [{"k": "keep"}, {"k": "wide"}]
    return out + [{"k": "acct"}, {"k": "srv", "nb": 0}, {"k": "srv", "nb": 1}, {"k": "line"}, {"k": "globals"}, {"k": "host"}, {"k": "edit"}]


def cases(sh, tier):
    q = tier == "quick"
    k = sh["k"]
    if k == "class":
        for j in range(len(ALL)):
            yield {"k": k, "seq": [sh["i"], j]}
            if not q:
                for m in range(len(ALL)):
                    yield {"k": k, "seq": [sh["i"], j, m]}
    elif k == "r4":
        nh = NH4[sh["nh"]]
        for n in range(5):
            for sel in itertools.permutations(OPT4, n):
                if len({a for a, _ in sel}) == n:
                    yield {"k": "route", "a": [4, "", ["172.16.0.0", 12], list(nh), [list(x) for x in sel]]}
        for n in range(33):
            for net in ("0.0.0.0", "255.255.255.255", "10.1.2.3", "192.168.254.129"):
                yield {"k": "route", "a": [4, "", [net, n], list(nh)]}
        for a in range(256):
            yield {"k": "route", "a": [4, "", [f"{a}.{255 - a}.0.{a}", 32], [nh[0], f"{a}.1.{a}.{255 - a}"]]}
    elif k == "r6":
        nh = NH6[sh["nh"]]
        for vrf in VRF:
            for nv in ("", "OTHER"):
                for ad in (None, 1, 255):
                    for cast in ("", "unicast", "multicast"):
                        for tag in (None, 0, 4294967295):
                            yield {"k": "route", "a": [6, vrf, ["2001:db8:1::", 48], list(nh), [], ad, nv, cast, tag]}
        for n in range(129):
            for net in ("::", "2001:db8::", "FE80::1"):
                yield {"k": "route", "a": [6, VRF[n % 3], [net, n], list(nh)]}
    elif k == "r6s":
        s = list(shapes())
        for i, a in enumerate(s):
            if i % 4 == sh["part"]:
                for j, b in enumerate(s if not q else [a, "::", "2001:db8::1"]):
                    for intf in ("", "Vlan10"):
                        yield {"k": "route", "a": [6, VRF[(i + j) % 3], [a, 64], [intf, b], [], None, "", "", 5]}
                        yield {"k": "route", "a": [6, VRF[(i + j) % 3], [b, 64], [intf, a], [], 7]}
    elif k == "vpc":
        for n in (0, 1, 2) if q else (0, 1, 2, 3):
            for rest in itertools.permutations([f for f in VPC if f != sh["f"]], n):
                fs = [sh["f"], *rest]
                for idx in itertools.product(*[range(len(VPC[f])) for f in fs]):
                    f = [[a, b] for a, b in zip(fs, idx)]
                    yield {"k": k, "f": f}
                    if n == 0:
                        for m in range(len(VNOISE)):
                            for at in (0, 1):
                                yield {"k": k, "f": f, "noise": m, "at": at}
    elif k == "wide":
        for i in range(len(WIDE)):
            for d in (1, 10, 1000):
                yield {"k": "vpcw", "i": i, "id": d}
        for d in numbers(1, 1000):
            yield {"k": "vpcw", "i": 0, "id": d}
        for o in KWIDE:
            yield {"k": "keepw", "o": [list(x) for x in o]}
        for n in numbers(0, 4294967295):
            for nh in NH6[:3]:
                yield {"k": "route", "a": [6, "", ["2001:db8:1::", 48], list(nh), [], None, "", "", n]}
                yield {"k": "route", "a": [6, "", ["2001:db8:1::", 48], list(nh), [], 7, "V", "", n]}
            for nh in NH4[:3]:
                yield {"k": "route", "a": [4, "", ["172.16.0.0", 12], list(nh), [["tag", str(n)]]]}
                yield {"k": "route", "a": [4, "", ["172.16.0.0", 12], list(nh), [["name", "9"], ["tag", str(n)]]]}
        for w in PLAIN:
            yield {"k": "route", "a": [6, w, ["2001:db8:1::", 48], list(NH6[0]), [], 7, w, "", 3]}
            for nh in NH4:
                yield {"k": "route", "a": [4, "", ["172.16.0.0", 12], list(nh), [["name", w]]]}
        for n in range(1, 256):
            for nh in NH4[:3]:
                yield {"k": "route", "a": [4, "", ["172.16.0.0", 12], list(nh), [["", str(n)]]]}
                yield {"k": "route", "a": [6, "", ["2001:db8:1::", 48], ["", "2001:db8::1"], [], n]}
    elif k == "keep":
        opts = list(KEEP)
        for n in range(5 if q else len(opts) + 1):
            for sel in itertools.combinations(opts, n):
                yield {"k": k, "opts": list(sel)}
        for sel in itertools.permutations(opts, 2):
            yield {"k": k, "opts": list(sel)}
    elif k == "aaa":
        for lst in LISTS:
            for g in GROUPS:
                for n in range(4):
                    for ms in itertools.permutations(METHODS, n):
                        if sh["cmd"] == "authorization console":
                            if g and n:  # the only form the model claims to know
                                for lev in (1, 15):
                                    yield {"k": k, "cmd": sh["cmd"], "list": lst, "group": g, "methods": list(ms), "level": lev}
                        elif n or g:
                            for lev in ([None, 0, 1, 15] if "commands" in sh["cmd"] else [None]):
                                yield {"k": k, "cmd": sh["cmd"], "list": lst, "group": g, "methods": list(ms), "level": lev}
    elif k == "acct":
        for lev in [None] + list(range(16)):
            for lst in LISTS:
                for rec in ("start-stop", "stop-only", "none"):
                    for g in GROUPS[1:]:
                        yield {"k": k, "level": lev, "list": lst, "rec": rec, "group": g}
    elif k == "srv":
        kids = ["  server-private 192.0.2.10 key cisco", "  server-private 192.0.2.11", "  deadtime 5", "  use-vrf management", "  source-interface mgmt0", "  server 10.0.0.1"]
        for proto in ("tacacs+", "radius"):
            for n in range(len(kids) + 1 if not q else 5):
                for sel in itertools.permutations(range(len(kids)), n):
                    yield {"k": k, "proto": proto, "kids": [kids[i] for i in sel], "nb": sh["nb"]}
            for w in WORDS:
                for kid in (f"  use-vrf {w}", f"  server-private {w}"):
                    yield {"k": k, "proto": proto, "kids": [kid], "nb": sh["nb"]}
            for w in ("loopback0", "Vlan4094", "Ethernet1/1", "port-channel10.5", "mgmt0"):
                yield {"k": k, "proto": proto, "kids": [f"  source-interface {w}"], "nb": sh["nb"]}
    elif k == "line":
        for r in LHEADS:
            for t in TIMEOUTS:
                for n in range(3):
                    for sel in itertools.permutations(LOTHERS, n):
                        for at in range(n + 1) if t else (0,):
                            yield {"k": k, "type": r[0], "range": r[1], "timeout": t, "others": list(sel), "at": at}
        for t in [[n] for n in numbers(0, 525600)] + [[n, 7] for n in numbers(0, 525600)]:
            yield {"k": k, "type": "vty", "range": [], "timeout": t, "others": [], "at": 0}
    elif k == "globals":
        for n in range(5):
            for sel in itertools.permutations(sorted(GLOBALS), n):
                yield {"k": k, "sel": list(sel)}
    elif k == "host":
        for h in (*PLAIN, "r1", "R-1.example.com", "hostname", "line", "0", "a" * 63):
            for pre in range(3):
                yield {"k": k, "host": h, "pre": pre}
    else:
        for i in range(len(ALL)):
            for j in range(len(ALL)):
                for how in (("sub",) if q else ("sub", "ins")):
                    yield {"k": k, "old": i, "new": j, "how": how}


def parse(lines, R):
    from ciscoconfparse import CiscoConfParse
    R.state("\n".join(lines))
    return CiscoConfParse(lines, syntax="nxos", factory=True)


def check_route(case, R):
    fam, vrf, net, nh, *rest = case["a"]
    opts, ad, nhvrf, cast, tag = (list(rest) + [(), None, "", "", None][len(rest):])
    t = route(*case["a"])
    p = parse(["hostname h", t, "vrf context V", "  ip route 9.9.9.9/32 Null0"], R)
    o = p.objs[1]
    kind(o, "NXOSRouteLine", R, t)
    R.eq("routes", [x.text for x in p.objs if type(x).__name__ == "NXOSRouteLine"], [t], "the route lines")
    od = dict(map(tuple, opts))
    want = {"address_family": "ip" if fam == 4 else "ipv6", "network": net[0], "next_hop_interface": nh[0], "next_hop_addr": nh[1], "netmask": mask(net[1]) if fam == 4 else str(ipaddress.IPv6Network(("::", net[1])).netmask)}
    if fam == 4:
        want.update(nexthop_str=" ".join(x for x in nh if x), admin_distance=od.get("", "1"), route_name=od.get("name", ""), tag=od.get("tag", ""))
        want["tracking_object_name"] = od.get("track")
    else:
        want.update(admin_distance="1" if ad is None else str(ad), tag="" if tag is None else str(tag))
        if not (nh[0] and nh[1]):
            want["nexthop_str"] = nh[0] or nh[1]
    attrs(o, want, R)
    R.eq("masklen", str(o.masklen), str(net[1]), f"{t!r}: masklen is")
    R.eq("network_object", str(ipaddress.ip_network(o.network_object.as_cidr_net)), str(ipaddress.ip_network(tuple(net), strict=False)), f"{t!r}: network_object is")
    R.true("repr", str(nh[0] or nh[1]).lower() in repr(o).lower(), f"{t!r}: repr is {o!r}")


def check_vpc(case, R):
    want, keep, body = dict(VPC0), dict(KEEP0), []
    for f, i in case["f"]:
        line, vals = VPC[f][i]
        body.append("  " + line)
        if f == "keep":
            keep["destination"] = "10.9.9.1"
            keep.update({a: KEEP[a] for a in vals})
        else:
            want.update(vals)
    if "noise" in case:
        body.insert(case["at"], "  " + VNOISE[case["noise"]])
    p = parse(["feature vpc", "  role priority 77", "vpc domain 12"] + body + ["interface port-channel1", "  vpc peer-link", "  peer-switch", "  description peer-keepalive destination 9.9.9.9"], R)
    attrs(p.objs[2], {"vpc_domain_id": "12", **want, "vpc_peer_keepalive": keep}, R)


def check(case, R):
    k = case["k"]
    if k == "route":
        check_route(case, R)
    elif k == "vpc":
        check_vpc(case, R)
    elif k == "vpcw":
        t, want = WIDE[case["i"]]
        p = parse(["feature vpc", f"vpc domain {case['id']}", "  " + t, "interface mgmt0", "  role priority 3"], R)
        attrs(p.objs[1], {**VPC0, "vpc_domain_id": str(case["id"]), **want, "vpc_peer_keepalive": KEEP0}, R)
    elif k == "keepw":
        t = "  peer-keepalive destination 10.9.9.1" + "".join(f" {o} {v}" for o, v in case["o"])
        p = parse(["vpc domain 1", t, "interface mgmt0"], R)
        attrs(p.objs[0], {"vpc_peer_keepalive": dict(KEEP0, destination="10.9.9.1", **dict(map(tuple, case["o"])))}, R)
    elif k == "keep":
        t = "  peer-keepalive destination 10.9.9.1" + "".join(f" {o} {KEEP[o]}" for o in case["opts"])
        p = parse(["vpc domain 1", t, "interface mgmt0", "  peer-keepalive vrf x"], R)
        attrs(p.objs[0], {"vpc_domain_id": "1", "vpc_peer_keepalive": dict(KEEP0, destination="10.9.9.1", **{o: KEEP[o] for o in case["opts"]})}, R)
    elif k == "class":
        seq = [ALL[i] for i in case["seq"]]
        p = parse([t for t, _ in seq], R)
        R.eq("lines", [o.text for o in p.objs], [t for t, _ in seq], "the parsed lines")
        for o, (t, c) in zip(p.objs, seq):
            kind(o, c, R, case["seq"])
    elif k == "aaa":
        lev = [] if case["level"] is None else [str(case["level"])]
        t = " ".join(["aaa", case["cmd"]] + lev + [case["list"]] + (["group", case["group"]] if case["group"] else []) + case["methods"])
        want = {"list_name": case["list"], "group": case["group"], "methods": case["methods"], "feature": "aaa " + case["cmd"]}
        if "authorization" in case["cmd"]:
            want["level"] = case["level"] or 0
        attrs(parse([t], R).objs[0], want, R)
    elif k == "acct":
        cmd = "exec" if case["level"] is None else f"commands {case['level']}"
        want = {"list_name": case["list"], "group": case["group"], "record_type": case["rec"]}
        if case["level"] is not None:
            want["level"] = case["level"]
        attrs(parse([f"aaa accounting {cmd} {case['list']} {case['rec']} group {case['group']}"], R).objs[0], want, R)
    elif k == "srv":
        kids = case["kids"]
        nb = ["aaa group server tacacs+ OTHER", "  server-private 9.9.9.9 key x", "  use-vrf OV", "  source-interface loopback9"] if case["nb"] else []
        nb2 = ["aaa group server radius OTHER2", "  server-private 8.8.8.8", "  use-vrf OV2", "  source-interface loopback8"] if case["nb"] else []
        def last(word):
            return next((x.split()[1] for x in kids if x.split()[0] == word), "")
        o = parse(nb + [f"aaa group server {case['proto']} GRP-1"] + kids + nb2, R).objs[len(nb)]
        attrs(o, {"protocol": case["proto"], "group": "GRP-1", "vrf": last("use-vrf"), "source_interface": last("source-interface"),
                  "server_private": {x.split()[1] for x in kids if "server-private" in x}}, R)
    elif k == "line":
        body = list(case["others"])
        t = case["timeout"]
        if t:
            body.insert(case["at"], "  exec-timeout " + " ".join(map(str, t)))
        head = " ".join(["line"] + ([case["type"]] if case["type"] else []) + list(map(str, case["range"])))
        p = parse(["line aux", "  exec-timeout 99 98", head] + body + ["line vty2", "  exec-timeout 97 96"], R)
        want = {"line_range": case["range"], "range_str": " ".join(map(str, case["range"])), "name": case["type"], "is_accessline": True, "feature": "access line", "parse_exectimeout": t or []}
        if t:
            want.update(manual_exectimeout_minutes=t[0], manual_exectimeout_seconds=t[1] if len(t) > 1 else 0)
        attrs(p.objs[2], want, R)
    elif k == "globals":
        p = parse(["hostname r"] + case["sel"] + ["interface Vlan1", "  no cdp enable"], R)
        for o, t in zip(p.objs[1:], case["sel"]):
            attrs(o, {a: t == g for g, a in GLOBALS.items()}, R)
    elif k == "host":
        o = parse(["!"] * case["pre"] + [f"hostname {case['host']}", "interface Vlan1"], R).objs[case["pre"]]
        attrs(o, {"hostname": case["host"], "feature": "hostname"}, R)
    else:
        (t1, c1), (t2, c2) = ALL[case["old"]], ALL[case["new"]]
        p = parse(["version 7.0", t1, "no ip http server"], R)
        kind(p.objs[1], c1, R, case)
        if case["how"] == "sub":
            p.objs[1].re_sub("^.*$", t2)
            p.commit()
            now = p.objs[1]
        else:
            p.objs[1].insert_after(t2)
            p.commit()
            kind(p.objs[1], c1, R, case)
            now = p.objs[2]
        R.eq("text", now.text, t2, str(case))
        kind(now, c2, R, case)
    R.trace()
