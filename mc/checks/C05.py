"""The line classifier only adds a class to each line: same texts, same tree, and a class decided by the line's own text."""
import itertools

from mc import gen, ref

ID = "C05"
COMMON = {
    "interface Ethernet0/1": "IntfLine", "interface Ethernet0/1.100": "IntfLine", "interface Port-channel1": "IntfLine",
    " description interface foo": "CfgLine", "!": "CfgLine", "! interface x": "CfgLine", "router bgp 1": "CfgLine",
    " neighbor 1.1.1.1 remote-as 2": "CfgLine", "no interface Vlan1": "CfgLine", "interfaces": None,
    "policy-map x": "CfgLine", " class interface": "CfgLine", "  police 1000": "CfgLine",
}
IOSLIKE = {
    "ip route 10.0.0.0 255.0.0.0 Null0": "RouteLine", "ipv6 route 2001:db8::/32 Null0": "RouteLine",
    "line vty 0 4": "AccessLine", "line con 0": "AccessLine",
    "aaa authentication login default local": "AaaLoginAuthenticationLine",
    "aaa authentication enable default group tacacs+ enable": "AaaEnableAuthenticationLine",
    "aaa authorization commands 15 default local": "AaaCommandsAuthorizationLine",
    "aaa authorization console": "AaaConsoleAuthorizationLine",
    "aaa accounting commands 15 default stop-only group tacacs+": "AaaCommandsAccountingLine",
    "aaa accounting exec default start-stop group tacacs+": "AaaExecAccountingLine",
    "aaa group server tacacs+ G": "AaaGroupServerLine", "hostname foo": "HostnameLine",
    "no cdp run": "IntfGlobal", "spanning-tree portfast default": "IntfGlobal", "aaa new-model": "CfgLine",
    " ip address 1.1.1.1 255.255.255.0": "CfgLine", " ip helper-address 1.1.1.1": "CfgLine", "username hostname password line": "CfgLine",
}
VOC = {
    "ios": dict(COMMON, **IOSLIKE),
    "nxos": {k.replace("10.0.0.0 255.0.0.0", "10.0.0.0/8"): v for k, v in dict(COMMON, **IOSLIKE, **{"vpc domain 10": "vPCLine"}).items()},
    "iosxr": {**COMMON, **{k: "CfgLine" for k in IOSLIKE}},
    "asa": dict(COMMON, **{
        "hostname foo": "HostnameLine", "name 1.1.1.1 foo": "Name", "name 1.1.1.1 foo description x": "Name", "names": "CfgLine",
        "object network x": "ObjNetwork", " host 1.1.1.1": "CfgLine", "object service x": "ObjService", " service tcp destination eq 80": "CfgLine",
        "object-group network x": "ObjGroupNetwork", " network-object host 1.1.1.1": "CfgLine", "object-group service x": "ObjGroupService",
        "object-group service y tcp": "ObjGroupService", " port-object eq 80": "CfgLine", "mtu inside 1500": "IntfGlobal",
        "access-list a extended permit ip any any": "AclLine", "access-list a remark hi": "AclLine",
        "access-group a in interface inside": "CfgLine", " nameif inside": "CfgLine"}),
}
for _s in VOC:
    VOC[_s] = {k: v for k, v in VOC[_s].items() if v is not None}
PREFIX = {"ios": "IOS", "nxos": "NXOS", "iosxr": "IOSXR", "asa": "ASA"}
BOUNDS = {
    "quick": "every sequence of up to 3 lines of the full vocabulary of each syntax (23-32 lines, every documented line class) and every "
             "sequence of up to 5 lines over a 10-line vocabulary, at the vocabulary's own indents, and configurations of up to 300 lines and 30 levels, classifier on against classifier off",
    "thorough": "the same with sequences of up to 6 lines over the 10-line vocabulary",
}
ASSUMPTIONS = ["lines are well-formed commands of the syntax (a malformed static route, ASA name or AAA group line is rejected with ValueError by design)"]


def small(s):
    v = list(VOC[s])
    want = ["IntfLine", "CfgLine"]
    out = ["interface Ethernet0/1", " description interface foo", "!", "router bgp 1", "  police 1000"]
    for k in v:
        if VOC[s][k] not in want and len(out) < 10:
            out.append(k)
            want.append(VOC[s][k])
    return out


def shards(tier):
    out = []
    for s in VOC:
        out.append({"s": s, "k": "one"})
        out.append({"s": s, "k": "large"})
        for first in VOC[s]:
            out.append({"s": s, "k": "full", "first": first})
        for a in small(s):
            out.append({"s": s, "k": "small", "first": a})
    return out


def cases(shard, tier):
    s = shard["s"]
    full, sm = (3, 5) if tier == "quick" else (3, 6)
    if shard["k"] == "one":
        yield {"s": s, "lines": []}
        yield {"s": s, "lines": list(VOC[s])}
        yield {"s": s, "lines": list(VOC[s])[::-1]}
        return
    if shard["k"] == "large":
        voc = list(VOC[s])
        for lines in gen.large(voc, "interface Ethernet0/1"):
            yield {"s": s, "lines": lines}
        for sect in voc:
            for n in (13, 40):
                yield {"s": s, "lines": [sect] + [" " * (1 + i % 3) + "x" + str(i) for i in range(n)] + voc}
        return
    alpha, n = (list(VOC[s]), full) if shard["k"] == "full" else (small(s), sm)
    for k in range(n):
        for rest in itertools.product(alpha, repeat=k):
            yield {"s": s, "lines": [shard["first"], *rest]}


def check(case, R):
    from ciscoconfparse import CiscoConfParse
    s, lines = case["s"], case["lines"]
    R.state((s, tuple(lines)))
    a = CiscoConfParse(list(lines), syntax=s, factory=False)
    b = CiscoConfParse(list(lines), syntax=s, factory=True)
    ta, tb = ref.impl_tree(a.ConfigObjs), ref.impl_tree(b.ConfigObjs)
    R.eq("same_lines", [r[0] for r in tb], lines, f"{s} {lines!r}")
    R.eq("same_tree", tb, ta, f"{s} {lines!r}")
    for o in a.ConfigObjs:
        R.eq("class_off", type(o).__name__, PREFIX[s] + "CfgLine", f"{s} {o.text!r} classifier off")
    for o in b.ConfigObjs:
        if o.text in VOC[s]:
            R.eq("class_on", type(o).__name__, PREFIX[s] + VOC[s][o.text], f"{s} {o.text!r} in {lines!r}")
    R.outcome(tuple(type(o).__name__ for o in b.ConfigObjs))
    R.trace()
