"""Is this line an interface, and of which kind: every line of every platform answers, with and without factory, before and after edits."""
ID = "C34"
FILES = ["models_cisco.py", "models_nxos.py", "models_iosxr.py", "models_asa.py", "models_junos.py", "ccp_abc.py"]
ASSUMPTIONS = ["interface commands as the platform prints them, at the first column (IOS family, ASA) or below 'interfaces' (Junos)", "interface-range and apply-groups of Junos, TenGigE, Bundle-Ether, nve and Redundant names, and the "
               "loopback, ethernet and virtual questions on Junos are not claimed"]
# what an interface line answers: subinterface, virtual, loopback, ethernet, port-channel  (None: not claimed)
INTF = {
    "ios": [("GigabitEthernet0/1", 0, 0, 0, 1, 0), ("FastEthernet0/0.100", 1, 0, 0, 1, 0), ("Ethernet1/0", 0, 0, 0, 1, 0), ("TenGigabitEthernet1/0/1", 0, 0, 0, 1, 0), ("Loopback0", 0, 1, 1, 0, 0), ("Vlan10", 0, 1, 0, 0, 0),
            ("Tunnel100", 0, 1, 0, 0, 0), ("Dialer1", 0, 1, 0, 0, 0), ("Virtual-Template1", 0, 1, 0, 0, 0), ("Port-channel1", 0, 1, 0, 0, 1), ("Port-channel10.20", 1, 1, 0, 0, 1), ("Serial0/0/0", 0, 0, 0, 0, 0),
            ("Serial1/0:5", 0, 0, 0, 0, 0), ("ATM2/0.100 point-to-point", 1, 0, 0, 0, 0), ("BVI1", 0, 0, 0, 0, 0), ("Null0", 0, 0, 0, 0, 0)],
    "nxos": [("Ethernet1/1", 0, 0, 0, 1, 0), ("Ethernet1/1.100", 1, 0, 0, 1, 0), ("mgmt0", 0, 0, 0, 1, 0), ("loopback0", 0, 1, 1, 0, 0), ("Vlan10", 0, 1, 0, 0, 0), ("port-channel10", 0, 1, 0, 0, 1), ("port-channel10.5", 1, 1, 0, 0, 1),
             ("Tunnel5", 0, 1, 0, 0, 0)],
    "iosxr": [("GigabitEthernet0/0/0/1", 0, 0, 0, 1, 0), ("GigabitEthernet0/0/0/1.100", 1, 0, 0, 1, 0), ("Loopback0", 0, 1, 1, 0, 0), ("Bundle-Ether1", 0, None, 0, None, None), ("MgmtEth0/RP0/CPU0/0", 0, 0, 0, None, 0),
              ("TenGigE0/0/0/0.7", 1, 0, 0, None, 0), ("POS0/1/0/0", 0, 0, 0, 0, 0)],
    "asa": [("Ethernet0/0", 0, 0, 0, 1, None), ("GigabitEthernet0/1", 0, 0, 0, 1, None), ("GigabitEthernet0/1.100", 1, 0, 0, 1, None), ("Port-channel1", 0, 1, 0, 0, None), ("Management0/0", 0, 0, 0, 0, None), ("Loopback1", 0, 1, 1, 0, None),
            ("Tunnel1", 0, 1, 0, 0, None)],
}
OTHER = {
    "ios": ["hostname interface", "no ip routing", "interface", "interfaces", "ip http source-interface Loopback0", "line vty 0 4", "logging source-interface Vlan1", "no cdp run", "ip route 10.0.0.0 255.0.0.0 Null0",
            "aaa new-model", "aaa authentication login default local", "!", "default interface Ethernet0/0", "no interface Loopback5", "router ospf 1", " passive-interface Vlan1", " description interface Loopback0", " ip address 1.1.1.1 255.0.0.0",
            "aaa group server tacacs+ X", "end", "port-channel load-balance src-dst-ip", "spanning-tree portfast default"],
    "nxos": ["hostname interface", "feature interface-vlan", "interface", "line vty", "no cdp run", "ip route 10.0.0.0/8 Null0", "vpc domain 10", "  peer-switch", "aaa authentication login default local", "aaa group server tacacs+ X", "!",
             "no interface Vlan5", "  description interface loopback0", "  ip address 1.1.1.1/8", "spanning-tree mode rapid-pvst", "port-channel load-balance src-dst", "router ospf 1", "  passive-interface default"],
    "iosxr": ["hostname interface", "interface", "router ospf 1", " area 0", "  interface Loopback0", "interface-class x", "!", " description interface Loopback0", " ipv4 address 1.1.1.1 255.0.0.0", "no interface Loopback5", "line console",
              "route-policy X", "mpls ldp", "end"],
    "asa": ["hostname interface", "mtu inside 1500", "name 1.1.1.1 interface", "object network X", " host 1.1.1.1", "object-group network G", " network-object host 1.1.1.1", "object-group service S tcp", " port-object eq 80", "!", "names",
            "access-list A extended permit ip any any", "route outside 0.0.0.0 0.0.0.0 1.1.1.1", "no interface Vlan5", " nameif inside", " description interface Loopback0", "same-security-traffic permit inter-interface", "object service T",
            " service tcp destination eq 80"],
}
ASK = ("is_intf", "is_subintf", "is_virtual_intf", "is_loopback_intf", "is_ethernet_intf", "is_portchannel_intf")
KIDS = [None, "channel-group 7 mode active", "channel-group 1", "description channel-group 9", "no channel-group 9"]
LINES = {s: [("interface " + n, (1, *k)) for n, *k in INTF[s]] + [(t, (0,) * 6) for t in OTHER[s]] for s in INTF}
JPHY = ["ge-0/0/0", "xe-0/0/1", "lo0", "vlan", "irb", "unit-ports", "ge-0/0/2 unit", "ae0"]
JSTM = ["description unit", "mtu 9000", "description \"family ethernet-switching\"", "vlan-tagging", "gigether-options", "units 5"]
JUNIT = ["unit 0", "unit 100"]
JFAM = [[], ["family inet", "    address 10.0.0.1/24"], ["family ethernet-switching", "    port-mode trunk"], ["description \"see family ethernet-switching\""], ["family inet6", "    address 2001:db8::1/64", "family inet", "    address 10.0.0.1/8"],
        ["vlan-id 5"]]
NJ = {"quick": 2, "thorough": 3}
BOUNDS = {
    "quick": f"every ordered pair of the {'/'.join(str(len(LINES[s])) for s in LINES)} lines of ios/nxos/iosxr/asa, with factory on and off; every line replaced by every other; channel-group lines below every line; Junos: "
             f"{len(JPHY)} physical interfaces x up to 2 of {len(JSTM)} statements x units x {len(JFAM)} families, inside and outside of 'interfaces'",
    "thorough": "ordered triples of lines; up to 3 statements and two units with every pair of families",
}


def shards(tier):
    out = [{"k": "seq", "s": s, "i": i} for s in LINES for i in range(len(LINES[s]))]
    out += [{"k": "edit", "s": s} for s in LINES] + [{"k": "chan", "s": s} for s in ("ios", "nxos", "iosxr")]
    return out + [{"k": "junos", "p": p} for p in range(len(JPHY))]


def cases(sh, tier):
    k = sh["k"]
    if k == "seq":
        n = len(LINES[sh["s"]])
        for j in range(n):
            for fac in (False, True):
                yield {"k": k, "s": sh["s"], "seq": [sh["i"], j], "fac": fac}
        if tier != "quick":
            for j in range(n):
                for m in range(n):
                    yield {"k": k, "s": sh["s"], "seq": [sh["i"], j, m], "fac": True}
    elif k == "edit":
        n = len(LINES[sh["s"]])
        for i in range(n):
            for j in list(range(n)) + [-1]:
                for fac in (False, True):
                    yield {"k": k, "s": sh["s"], "seq": [i, j], "fac": fac}
    elif k == "chan":
        for i in range(len(LINES[sh["s"]])):
            if not LINES[sh["s"]][i][0].startswith((" ", "!")):
                for c in range(len(KIDS)):
                    for d in range(len(KIDS)):
                        for fac in (False, True):
                            yield {"k": k, "s": sh["s"], "i": i, "c": [c, d], "fac": fac}
    else:
        import itertools

        for n in range(NJ[tier] + 1):
            for st in itertools.permutations(range(len(JSTM)), n):
                for f in range(len(JFAM)):
                    for g in range(-1, len(JFAM)) if tier != "quick" else (-1, f, 2):
                        for at in (0, 1):
                            yield {"k": "junos", "p": sh["p"], "st": list(st), "f": f, "g": g, "at": at}


def ask(o, want, s, R, what):
    for a, w in zip(ASK, want):
        if s == "asa" and a == "is_portchannel_intf":
            continue
        got = getattr(o, a)
        R.step()
        if w is not None and got is not bool(w):
            R.fail(a, f"{what}: {a} of {o.text!r} is {got!r} and should be {bool(w)}")
        R.outcome((s, a, got))
    R.true("repr", isinstance(repr(o), str) and isinstance(str(o), str), f"{what}: repr or str of {o.text!r} is no text")


def parse(lines, s, fac, R):
    from ciscoconfparse import CiscoConfParse

    R.state(s + "\n" + "\n".join(lines))
    return CiscoConfParse(lines, syntax=s, factory=fac)


def junos(case, R):
    body, ends = [], []
    phy = JPHY[case["p"]]
    sw = []
    cfg = ["system {", "    host-name x;", "}", "protocols {", "    vstp {", "        interfaces {", "            unit 9 {", "                a;", "            }", "        }", "    }", "}", "interfaces {",
           "    fe-9/9/9 {", "        unit 3 {", "            family ethernet-switching {", "                x;", "            }", "        }", "    }"]
    want = [None] * 20  # one per parsed line below; (is_intf, is_subintf, name, switchport) for the ones of interest
    exp = {}

    def unit(u, fam):
        out = [f"        {u} {{"]
        for ln in fam:
            if ln.startswith("    "):
                out.append(f"            {ln};")
            elif ln.startswith("family"):
                out.append(f"            {ln} {{")
            else:
                out.append(f"            {ln};")
            if ln.startswith("    "):
                out.append("            }")
        return out + ["        }"]
    stm = [f"        {JSTM[i]};" if JSTM[i] != "gigether-options" else "        gigether-options {" for i in case["st"]]
    flat = []
    for x in stm:
        flat += [x, "            no-auto-negotiation;", "        }"] if x.endswith("{") else [x]
    units = unit(JUNIT[0], JFAM[case["f"]]) + (unit(JUNIT[1], JFAM[case["g"]]) if case["g"] >= 0 else [])
    me = [f"    {phy} {{"] + (flat + units if case["at"] == 0 else units + flat) + ["    }"]
    cfg += me + ["    ge-8/8/8 {", "        unit 7 {", "            family ethernet-switching;", "        }", "    }", "}", "vlans {", "    unit {", "        unit 1;", "    }", "}"]
    del body, ends, sw, want
    p = parse(cfg, "junos", bool(case["at"]), R)
    sw0, sw1 = case["f"] == 2, case["g"] == 2
    # the reference: walk the braces
    stack, exp = [], []
    for ln in cfg:
        t = ln.strip()
        if t == "}":
            stack.pop()
            continue
        name = t.rstrip("{;").strip()
        path = [*stack, name]
        isf = path[0] == "interfaces" and (len(path) == 2 or len(path) == 3 and name.split()[0] == "unit")
        sub = isf and len(path) == 3
        full = " ".join(path[1:]) if isf else None
        switch = False
        if isf:
            if path[1] == phy:
                switch = (sw0 or sw1) if len(path) == 2 else sw0 if name == "unit 0" else sw1
            else:
                switch = True
        exp.append((name, isf, sub, full, switch))
        if t.endswith("{"):
            stack.append(name)
    R.eq("lines", [o.text.strip() for o in p.objs], [e[0] for e in exp], "the parsed statements")
    for o, (name, isf, sub, full, switch) in zip(p.objs, exp):
        for a, w in (("is_intf", isf), ("is_subintf", sub), ("intf_name", full), ("name", full), ("is_switchport", switch)):
            got = getattr(o, a)
            R.step()
            if got != w:
                R.fail("junos " + a, f"{me}: {a} of {o.text!r} is {got!r} and should be {w!r}")
            R.outcome((a, repr(got)))
    R.trace()


def check(case, R):
    k = case["k"]
    if k == "junos":
        junos(case, R)
        return
    s, ls = case["s"], LINES[case["s"]]
    if k == "seq":
        seq = [ls[i] for i in case["seq"]]
        p = parse([t for t, _ in seq], s, case["fac"], R)
        R.eq("lines", [o.text for o in p.objs], [t for t, _ in seq], "the parsed lines")
        for o, (t, w) in zip(p.objs, seq):
            ask(o, w, s, R, [t for t, _ in seq])
            if s != "asa":
                R.eq("portchannel", (o.intf_in_portchannel, o.portchannel_number), (False, -1), f"{[t for t, _ in seq]}: port-channel of {t!r}")
    elif k == "edit":
        i, j = case["seq"]
        t, w = ls[j] if j >= 0 else ("interface ", (0,) * 6)
        p = parse(["version 1", ls[i][0], "end"], s, case["fac"], R)
        p.objs[1].re_sub("^.*$", t)
        ask(p.objs[1], w, s, R, f"{ls[i][0]!r} replaced by {t!r}")
        p.commit()
        ask(p.objs[1], w, s, R, f"{ls[i][0]!r} replaced by {t!r} and committed")
    else:
        kids = [KIDS[c] for c in case["c"] if KIDS[c]]
        p = parse([ls[case["i"]][0]] + [f" {x}" for x in kids] + ["interface Ethernet9/9", " channel-group 99 mode on"], s, case["fac"], R)
        num = [int(x.split()[1]) for x in kids if x.startswith("channel")]
        n = num[0] if num else -1
        R.eq("portchannel", (p.objs[0].intf_in_portchannel, p.objs[0].portchannel_number), (n >= 0, n), f"{[o.text for o in p.objs]}: port-channel of the first line")
        ask(p.objs[0], ls[case["i"]][1], s, R, [o.text for o in p.objs])
        R.eq("portchannel", (p.objs[-2].intf_in_portchannel, p.objs[-2].portchannel_number), (True, 99), f"{[o.text for o in p.objs]}: port-channel of the last interface")
    R.trace()
