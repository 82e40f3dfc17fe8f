"""IOS static routes: every attribute of a route line, for the whole grammar of the command."""
import ipaddress
import itertools

from mc.attrs import PLAIN, numbers

ID = "C29"
FILES = ["models_cisco.py"]
BOUNDS = {
    "quick": "IPv4: every ordered set of options x next hop x vrf x global x distance; every mask and every pair of first octets; IPv6: the same with nexthop-vrf, every shape of address (:: at every place) as network and as both kinds of next "
             "hop, every prefix length; lists of three routes edited up to depth 2",
    "thorough": "the same with every shape of network x every shape of next hop and edits up to depth 3",
}
ASSUMPTIONS = ["the distance comes before the options, and the dhcp and global keywords before the distance, as IOS writes them", "interface names without blanks for IPv4 (as IOS writes them)",
               "nexthop_str of an IPv6 route with both an interface and an address is not claimed"]
OPT4 = [("multicast", None), ("name", "X1"), ("name", "tag"), ("permanent", None), ("track", "35"), ("tag", "20")]
OPT6 = [("unicast", None), ("multicast", None), ("tag", "7"), ("track", "1"), ("name", "permanent"), ("name", "N-6")]
NH4 = [("", "10.0.0.1"), ("Null0", ""), ("GigabitEthernet0/0/1", ""), ("FastEthernet0/0", "172.16.1.254"), ("Serial1/0.100", "1.2.3.4"), ("dhcp", "")]
NH6 = [("", "2001:DB8::1"), ("Null0", ""), ("GigabitEthernet0/0/1", ""), ("Tunnel0", "fe80::1"), ("Serial 1/0", ""), ("Serial 1/0", "2001:db8:0:1::5")]
VRF = ["", "V", "mgmt-9"]
NAMES = PLAIN + ["IN+OUT", "A@b(c)", "n$", "x[y]", "a*b", "a|b", "a,b", "#x", "a=b", "route", "ip"]


def ordered(opts):
    """Every sequence of options, each kind once; permanent excludes track, unicast excludes multicast."""
    bad = [{"permanent", "track"}, {"unicast", "multicast"}]
    for n in range(5):
        for sel in itertools.permutations(opts, n):
            kinds = [k for k, _ in sel]
            if len(set(kinds)) == n and not any(b <= set(kinds) for b in bad):
                yield [list(x) for x in sel]


def shapes(word="abcd"):
    """IPv6 texts with :: at every place and every number of groups around it, and without it."""
    g = ["2001", "db8", "1", "A0", "0", "ffff", "7", word]
    yield ":".join(g)
    for i in range(8):
        for j in range(8 - i):
            yield ":".join(g[:i]) + "::" + ":".join(g[8 - j:] if j else [])


def mask(n):
    v = (0xFFFFFFFF << (32 - n)) & 0xFFFFFFFF
    return ".".join(str(v >> s & 255) for s in (24, 16, 8, 0))


def route(fam=4, vrf="", net=("10.0.0.0", 8), nh=("", "192.0.2.1"), glob=False, ad=None, opts=(), nhvrf=""):
    return {"fam": fam, "vrf": vrf, "net": list(net), "nh": list(nh), "glob": glob, "ad": ad, "opts": [list(x) for x in opts], "nhvrf": nhvrf}


def text(r):
    w = ["ip" if r["fam"] == 4 else "ipv6", "route"]
    if r["vrf"]:
        w += ["vrf", r["vrf"]]
    w += [r["net"][0], mask(r["net"][1])] if r["fam"] == 4 else ["%s/%d" % tuple(r["net"])]
    w += [x for x in r["nh"] if x]
    if r["glob"]:
        w.append("global")
    if r["nhvrf"]:
        w += ["nexthop-vrf", r["nhvrf"]]
    if r["ad"] is not None:
        w.append(str(r["ad"]))
    for k, v in r["opts"]:
        w += [k] if v is None else [k, v]
    return " ".join(w)


def want(r):
    o = dict(r["opts"])
    intf, addr = r["nh"]
    if intf == "dhcp":
        intf = ""
    e = {"vrf": r["vrf"], "address_family": "ip" if r["fam"] == 4 else "ipv6", "network": r["net"][0], "masklen": r["net"][1], "next_hop_interface": intf, "next_hop_addr": addr,
         "admin_distance": 1 if r["ad"] is None else r["ad"], "multicast": "multicast" in o, "route_name": o.get("name", ""), "tracking_object_name": o.get("track", ""), "tag": o.get("tag", "")}
    if r["fam"] == 4:
        n = ipaddress.ip_network((r["net"][0], r["net"][1]), strict=False)
        e.update(netmask=mask(r["net"][1]), permanent="permanent" in o, global_next_hop=r["glob"] or not r["vrf"], nexthop_str=" ".join(x for x in (intf, addr) if x))
    else:
        n = ipaddress.ip_network((r["net"][0], r["net"][1]), strict=False)
        e.update(netmask=str(n.netmask), nexthop_vrf=r["nhvrf"])
        if not (intf and addr) and " " not in intf:
            e["nexthop_str"] = intf or addr
    e["net"] = str(n)
    return e


def judge(obj, r, R, what):
    from ciscoconfparse.models_cisco import IOSRouteLine
    if type(obj) is not IOSRouteLine:
        R.fail("class", f"{what}: a {type(obj).__name__}")
    for a, v in want(r).items():
        if a == "net":
            got = str(ipaddress.ip_network(obj.network_object.as_cidr_net))
        else:
            got = getattr(obj, a)
        R.step()
        if got != v or isinstance(got, bool) != isinstance(v, bool):
            R.fail(a, f"{what}: {a} of {obj.text!r} is {got!r} and should be {v!r}")
        R.outcome((a, repr(got)))


def shards(tier):
    out = [{"k": "opt", "fam": f, "vrf": v, "nh": n} for f in (4, 6) for v in VRF for n in range(6)]
    out += [{"k": "net4"}, {"k": "hist"}, {"k": "wide"}]
    out += [{"k": "net6", "nh": n, "part": i} for n in range(3) for i in range(4)]
    return out


A, B, C, D = (route(vrf="V", nh=("Null0", ""), ad=5, opts=[["tag", "1"]]), route(6, net=("2001:db8::", 32), nh=("Tunnel0", "fe80::9"), opts=[["name", "b"]]),
              route(net=("192.0.2.0", 25), nh=("FastEthernet0/0", "1.1.1.1"), opts=[["track", "8"], ["name", "c"]]), route(6, vrf="W", net=("::", 0), nh=("", "2001:db8::9"), ad=200, nhvrf="U"))


def cases(shard, tier):
    k = shard["k"]
    if k == "opt":
        fam, nh = shard["fam"], (NH4 if shard["fam"] == 4 else NH6)[shard["nh"]]
        for opts in ordered(OPT4 if fam == 4 else OPT6):
            for ad in (None, 1, 255):
                for second in (False, True):
                    yield {"r": [route(fam, shard["vrf"], ("172.16.0.0", 12) if fam == 4 else ("2001:db8:1::", 48), nh, fam == 4 and second, ad, opts, "OTHER" if fam == 6 and second else "")], "ops": []}
    elif k == "wide":
        for fam in (4, 6):
            net, nhs = (("172.16.0.0", 12), NH4) if fam == 4 else (("2001:db8:1::", 48), NH6)
            for nh in nhs[:1] + nhs[2:4]:
                for n in numbers(1, 4294967295):
                    yield {"r": [route(fam, "", net, nh, opts=[["tag", str(n)]])], "ops": []}
                    yield {"r": [route(fam, "V", net, nh, ad=9, opts=[["tag", str(n)], ["track" if fam == 4 else "name", "7"]])], "ops": []}
                for n in numbers(1, 1000):
                    yield {"r": [route(fam, "", net, nh, opts=[["track", str(n)]])], "ops": []}
                for n in range(1, 256):
                    yield {"r": [route(fam, "", net, nh, ad=n)], "ops": []}
                for w in NAMES:
                    yield {"r": [route(fam, w, net, nh)], "ops": []}
                    yield {"r": [route(fam, "", net, nh, opts=[["name", w]])], "ops": []}
                    yield {"r": [route(fam, w, net, nh, fam == 4, 7, [["name", w], ["tag", "12"]], w if fam == 6 else "")], "ops": []}
    elif k == "net4":
        for n in range(33):
            for net in ("0.0.0.0", "255.255.255.255", "10.1.2.3", "192.168.254.129"):
                for vrf in ("", "V"):
                    for nh in NH4:
                        yield {"r": [route(4, vrf, (net, n), nh)], "ops": []}
        for a in range(256):
            yield {"r": [route(4, "", (f"{a}.{255 - a}.0.{a}", 32), ("", f"{a}.1.{a}.{255 - a}"), ad=a or None)], "ops": []}
    elif k == "net6":
        sh = list(shapes())
        if shard["nh"] == 0:
            for n in range(129):
                if n % 4 == shard["part"]:
                    for net in ("::", "2001:db8::", "FE80::1"):
                        for vrf in VRF:
                            yield {"r": [route(6, vrf, (net, n), ("", "2001:db8::1"), ad=n or None)], "ops": []}
            for i, s in enumerate(sh):
                if i % 4 == shard["part"]:
                    for nh in NH6:
                        for vrf in VRF:
                            yield {"r": [route(6, vrf, (s, 64), nh, opts=[["tag", "5"]])], "ops": []}
        else:
            for i, s in enumerate(sh):
                if i % 4 == shard["part"]:
                    nh = ("", s) if shard["nh"] == 1 else ("Ethernet0/1", s)
                    for t in ([sh[0], "::", "2001:db8::"] if tier == "quick" else sh):
                        for ad in (None, 20):
                            yield {"r": [route(6, v, (t, 56), nh, ad=ad) for v in VRF], "ops": []}
    else:
        ops = [["del", i] for i in range(3)] + [["set", i, j] for i in range(3) for j in range(4)] + [["add", j] for j in range(4)] + [["ins", i, j] for i in range(2) for j in (0, 3)]
        for n in range(3 if tier == "quick" else 4):
            for seq in itertools.product(ops, repeat=n):
                for start in ([A, B, C], [D, A, B]):
                    yield {"r": start, "ops": [list(x) for x in seq]}


def check(case, R):
    from ciscoconfparse import CiscoConfParse
    rs = [dict(r) for r in case["r"]]
    p = CiscoConfParse(["hostname h"] + [text(r) for r in rs] + ["ip routing", "interface Null0", " ip route-cache", " ip route 9.9.9.9 255.255.255.255 Null0"], syntax="ios", factory=True)
    known = [A, B, C, D]
    done = []
    for op in case["ops"]:
        if op[0] == "del" and op[1] < len(rs):
            p.objs[1 + op[1]].delete()
            del rs[op[1]]
        elif op[0] == "set" and op[1] < len(rs):
            old = text(rs[op[1]])
            p.objs[1 + op[1]].re_sub("^.*$", text(known[op[2]]))
            R.true("set", p.objs[1 + op[1]].text == text(known[op[2]]), f"{old!r} became {p.objs[1 + op[1]].text!r}")
            rs[op[1]] = known[op[2]]
        elif op[0] == "add":
            p.append_line(text(known[op[1]]))
            # at the end of the configuration, after the last line of the interface
            p.commit()
            judge(p.objs[-1], known[op[1]], R, f"{case['ops']}")
            p.objs[-1].delete()
        elif op[0] == "ins" and op[1] < len(rs):
            p.objs[1 + op[1]].insert_after(text(known[op[2]]))
            rs.insert(op[1] + 1, known[op[2]])
        p.commit()
        done.append(op)
    R.state("\n".join(text(r) for r in rs))
    got = [o for o in p.objs if type(o).__name__ == "IOSRouteLine"]
    R.eq("count", [o.text for o in got], [text(r) for r in rs], f"the route lines after {done}")
    for o, r in zip(got, rs):
        judge(o, r, R, f"after {done}" if done else "parsed")
    R.trace()
