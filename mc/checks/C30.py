"""IOS lines with a model of their own: the factory gives each the class of its command, and its attributes are the words of the command."""
import itertools

from mc.attrs import PLAIN, WORDS, numbers

ID = "C30"
FILES = ["models_cisco.py", "ciscoconfparse.py"]
BOUNDS = {
    "quick": "every ordered pair of 46 commands (class of each); AAA lists: every list name x server group (or none) x ordered choice of up to 3 methods x level; accounting: level x list x record x group; server groups: every ordered "
             "subset of their lines, alone and between neighbours; access lines: every line type x range x exec-timeout x order; edited lines",
    "thorough": "ordered triples of commands, four methods, and every pair of edits",
}
ASSUMPTIONS = ["one blank between the words, as IOS writes them", "at most one server group, before the other methods", "an exec-timeout which is not configured is not claimed"]
CLASS = {
    "IOSIntfLine": ["interface GigabitEthernet0/1", "interface Vlan10", "interface Serial1/0.1 point-to-point"],
    "IOSRouteLine": ["ip route 10.0.0.0 255.0.0.0 Null0", "ipv6 route ::/0 2001:db8::1"],
    "IOSAccessLine": ["line con 0", "line vty 0 4", "line 33 48"],
    "IOSAaaLoginAuthenticationLine": ["aaa authentication login default group tacacs+ local", "aaa authentication login CON none"],
    "IOSAaaEnableAuthenticationLine": ["aaa authentication enable default group tacacs+ enable"],
    "IOSAaaCommandsAuthorizationLine": ["aaa authorization commands 15 default group tacacs+ none"],
    "IOSAaaConsoleAuthorizationLine": ["aaa authorization console"],
    "IOSAaaCommandsAccountingLine": ["aaa accounting commands 15 default start-stop group tacacs+"],
    "IOSAaaExecAccountingLine": ["aaa accounting exec default stop-only group radius"],
    "IOSAaaGroupServerLine": ["aaa group server tacacs+ T1", "aaa group server radius R1"],
    "IOSHostnameLine": ["hostname Router-1"],
    "IOSIntfGlobal": ["no cdp run", "logging event link-status global", "spanning-tree portfast default", "spanning-tree portfast bpduguard default", "spanning-tree mode rapid-pvst"],
    "IOSCfgLine": ["aaa new-model", "aaa authentication ppp default local", "aaa authorization exec default local", "aaa accounting system default none", "ip routing", "ipv6 unicast-routing", "ip route-cache", "cdp run",
                   "service timestamps debug", "router ospf 1", "vlan 10", "username hostname password x", "ip access-list extended line", " shutdown", " description interface Vlan1", " ip address 1.1.1.1 255.0.0.0",
                   "access-list 1 permit any", "end", "!", "banner login x", "logging buffered 4096", "no ip domain lookup", "spanning-tree mode pvst"],
}
ALL = [(t, c) for c, ts in CLASS.items() for t in ts]
METHODS = ["local", "local-case", "enable", "none", "if-authenticated"]
LISTS, GROUPS = ["default", "CON-1", "group1", "A.b:c/1"], ["", "tacacs+", "radius", "MY_GRP", "g-1.x:y/2"]
GLOBALS = dict(zip(CLASS["IOSIntfGlobal"], ["has_cdp_disabled", "has_intf_logging_def", "has_stp_portfast_def", "has_stp_portfast_bpduguard_def", "has_stp_mode_rapidpvst"]))
RANGES = [("con", [0]), ("aux", [0]), ("console", [0]), ("tty", [1, 16])] + [("vty", [a, b]) for a in (0, 5, 10) for b in (4, 15, 98) if a <= b] + [("vty", [7])] + [("", [33, 48]), ("", [2]), ("", [0, 1])]
TIMEOUTS = [None, [0, 0], [5, 30], [35791, 0], [10]]
OTHERS = [" login local", " transport input ssh", " no exec", " session-timeout 10", " access-class 23 in"]


def shards(tier):
    out = [{"k": "class", "i": i} for i in range(len(ALL))]
    out += [{"k": "aaa", "cmd": c} for c in ("authentication login", "authentication enable", "authorization commands")]
    return out + [{"k": "acct"}, {"k": "srv", "nb": 0}, {"k": "srv", "nb": 1}, {"k": "line"}, {"k": "globals"}, {"k": "host"}, {"k": "edit"}]


def cases(sh, tier):
    q = tier == "quick"
    k = sh["k"]
    if k == "class":
        for j in range(len(ALL)):
            yield {"k": k, "seq": [sh["i"], j]}
            if not q:
                for m in range(len(ALL)):
                    yield {"k": k, "seq": [sh["i"], j, m]}
    elif k == "aaa":
        for lst in LISTS:
            for g in GROUPS:
                for n in range(4 if q else 5):
                    for ms in itertools.permutations(METHODS, n):
                        if n or g:
                            for lev in ([0, 1, 15] if "commands" in sh["cmd"] else [None]):
                                yield {"k": k, "cmd": sh["cmd"], "list": lst, "group": g, "methods": list(ms), "level": lev}
    elif k == "acct":
        for lev in [None] + list(range(16)):
            for lst in LISTS:
                for rec in ("start-stop", "stop-only"):
                    for g in GROUPS[1:]:
                        yield {"k": k, "level": lev, "list": lst, "rec": rec, "group": g}
    elif k == "srv":
        kids = [" server-private 192.0.2.10 key cisco", " server-private 192.0.2.11", " server-private 2001:db8::1 timeout 5", "VRF", "SRC", " server 10.0.0.1"]
        for proto in ("tacacs+", "radius"):
            for n in range(len(kids) + 1 if not q else 5):
                for sel in itertools.permutations(range(len(kids)), n):
                    for vrf in (" ip vrf forwarding MGMT", " vrf forwarding V-2") if 3 in sel else ("",):
                        yield {"k": k, "proto": proto, "kids": [vrf if kids[i] == "VRF" else f" ip {proto.strip('+')} source-interface GigabitEthernet0/48" if kids[i] == "SRC" else kids[i] for i in sel], "nb": sh["nb"]}
        for w in WORDS:
            for kid in (f" ip vrf forwarding {w}", f" vrf forwarding {w}", f" server-private {w}"):
                yield {"k": k, "proto": proto, "kids": [kid], "nb": sh["nb"]}
            for w in ("Loopback0", "Vlan4094", "GigabitEthernet0/0/0.100", "Port-channel1", "BVI1", "Tunnel2147483647", "TenGigabitEthernet1/0/48", "Serial0/1/0:3"):
                yield {"k": k, "proto": proto, "kids": [f" ip {proto.strip('+')} source-interface {w}"], "nb": sh["nb"]}
    elif k == "line":
        for r in RANGES:
            for t in TIMEOUTS:
                for n in range(3):
                    for sel in itertools.permutations(OTHERS, n):
                        for at in range(n + 1) if t else (0,):
                            yield {"k": k, "type": r[0], "range": r[1], "timeout": t, "others": list(sel), "at": at}
        for t in [[n] for n in numbers(0, 35791)] + [[n, 7] for n in numbers(0, 35791)] + [[3, n] for n in range(60)]:
            yield {"k": k, "type": "vty", "range": [0, 4], "timeout": t, "others": [], "at": 0}
        for n in numbers(0, 2000):
            for m in (None, n + 1, n + 15):
                for typ in ("vty", "tty", ""):
                    yield {"k": k, "type": typ, "range": [n] if m is None else [n, m], "timeout": [5, 30], "others": [], "at": 0}
    elif k == "globals":
        for n in range(6):
            for sel in itertools.permutations(sorted(GLOBALS), n):
                yield {"k": k, "sel": list(sel)}
    elif k == "host":
        for h in (*PLAIN, "r1", "R-1.example.com", "hostname", "line", "0", "a" * 63):
            for pre in range(3):
                for tail in ("", " "):
                    yield {"k": k, "host": h, "pre": pre, "tail": tail}
    else:
        # a line is replaced by another command: after the commit it has the new class
        for i in range(len(ALL)):
            for j in range(len(ALL)):
                for how in (("sub",) if q else ("sub", "ins")):
                    yield {"k": k, "old": i, "new": j, "how": how}


def parse(lines, R):
    from ciscoconfparse import CiscoConfParse
    R.state("\n".join(lines))
    return CiscoConfParse(lines, syntax="ios", factory=True)


def kind(o, cls, R, what):
    R.step()
    if type(o).__name__ != cls:
        R.fail("class", f"{what}: {o.text!r} is a {type(o).__name__} and should be a {cls}")
    R.outcome(cls)


def attrs(o, want, R):
    for a, v in want.items():
        got = getattr(o, a)
        if callable(got):
            got = got()
        R.step()
        if got != v or type(got) is not type(v):
            R.fail(a, f"{o.text!r} {[c.text for c in o.children]}: {a} is {got!r} and should be {v!r}")
        R.outcome((a, repr(got)))


def check(case, R):
    k = case["k"]
    if k == "class":
        seq = [ALL[i] for i in case["seq"]]
        if any(t.startswith("banner") for t, _ in seq):
            seq.append(("x", "IOSCfgLine"))
            n = next(i for i, s in enumerate(seq) if s[0].startswith("banner"))
            seq = seq[:n + 1] + [(t, c) for t, c in seq[n + 1:]]
        p = parse([t for t, _ in seq], R)
        R.eq("lines", [o.text for o in p.objs], [t for t, _ in seq], "the parsed lines")
        for o, (t, c) in zip(p.objs, seq):
            kind(o, c, R, case["seq"])
    elif k == "aaa":
        lev = [] if case["level"] is None else [str(case["level"])]
        text = " ".join(["aaa", case["cmd"]] + lev + [case["list"]] + (["group", case["group"]] if case["group"] else []) + case["methods"])
        want = {"list_name": case["list"], "group": case["group"], "methods": case["methods"], "feature": "aaa " + case["cmd"]}
        if lev:
            want["level"] = case["level"]
        attrs(parse([text], R).objs[0], want, R)
    elif k == "acct":
        cmd = "exec" if case["level"] is None else f"commands {case['level']}"
        want = {"list_name": case["list"], "group": case["group"], "record_type": case["rec"]}
        if case["level"] is not None:
            want["level"] = case["level"]
        attrs(parse([f"aaa accounting {cmd} {case['list']} {case['rec']} group {case['group']}"], R).objs[0], want, R)
    elif k == "srv":
        kids = case["kids"]
        me = [f"aaa group server {case['proto']} GRP-1"] + kids
        nb = ["aaa group server tacacs+ OTHER", " server-private 9.9.9.9 key x", " ip vrf forwarding OV", " ip tacacs source-interface Loopback9", "!"] if case["nb"] else []
        nb2 = ["!", "aaa group server radius OTHER2", " server-private 8.8.8.8", " vrf forwarding OV2", " ip radius source-interface Loopback8"] if case["nb"] else []
        o = parse(nb + me + nb2, R).objs[len(nb)]
        src = [x.split()[-1] for x in kids if "source-interface" in x]
        vrf = [x.split()[-1] for x in kids if "forwarding" in x]
        attrs(o, {"protocol": case["proto"], "group": "GRP-1", "vrf": vrf[0] if vrf else "", "source_interface": src[0] if src else "", "server_private": {x.split()[1] for x in kids if "server-private" in x}}, R)
    elif k == "line":
        body = list(case["others"])
        t = case["timeout"]
        if t:
            body.insert(case["at"], " exec-timeout " + " ".join(map(str, t)))
        head = "line " + (case["type"] + " " if case["type"] else "") + " ".join(map(str, case["range"]))
        p = parse(["line aux 9", " exec-timeout 99 98", head] + body + ["line vty 97 98", " exec-timeout 97 96"], R)
        want = {"line_range": case["range"], "range_str": " ".join(map(str, case["range"])), "name": case["type"], "is_accessline": True, "feature": "access line"}
        if t:
            want.update(parse_exectimeout=t, manual_exectimeout_minutes=t[0], manual_exectimeout_seconds=t[1] if len(t) > 1 else 0)
        else:
            want["parse_exectimeout"] = []
        attrs(p.objs[2], want, R)
    elif k == "globals":
        p = parse(["hostname r"] + case["sel"] + ["interface Vlan1", " no cdp enable", " spanning-tree portfast"], R)
        for o, t in zip(p.objs[1:], case["sel"]):
            attrs(o, {a: t == g for g, a in GLOBALS.items()}, R)
    elif k == "host":
        o = parse(["!"] * case["pre"] + [f"hostname {case['host']}{case['tail']}", "interface Vlan1"], R).objs[case["pre"]]
        attrs(o, {"hostname": case["host"], "feature": "hostname"}, R)
    else:
        (t1, c1), (t2, c2) = ALL[case["old"]], ALL[case["new"]]
        if "banner" in t1 + t2:
            return
        p = parse(["version 15", t1, "no ip http server"], R)
        kind(p.objs[1], c1, R, case)
        if case["how"] == "sub":
            p.objs[1].re_sub("^.*$", t2)
            p.commit()
            now = p.objs[1]
        else:
            p.objs[1].insert_after(t2)
            p.commit()
            kind(p.objs[1], c1, R, case)
            now = p.objs[2]
        R.eq("text", now.text, t2, str(case))
        kind(now, c2, R, case)
    R.trace()
