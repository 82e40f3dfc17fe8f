"""An L4Object lists exactly the ports of its port specification, whatever operator, spelling or service name it uses."""

ID = "C24"
BOUNDS = {
    "quick": "eq and bare specifications of every port 0..65600; lt, gt and neq of 120 ports at the ends and of every service name; ranges over every ordered pair of 40 ports and names; 5 spacings; tcp and udp; "
             "equality of every pair of 60 specifications",
    "thorough": "lt, gt and neq of every 64th port too; ranges over every pair of 90",
}
ASSUMPTIONS = ["the service names are those of the ASA command reference with the numbers below", "port 0 in a range and trailing words are not claimed"]
TCP = {
    "aol": 5190, "bgp": 179, "chargen": 19, "cifs": 3020, "citrix-ica": 1494, "cmd": 514, "ctiqbe": 2748, "daytime": 13, "discard": 9, "domain": 53, "echo": 7,
    "exec": 512, "finger": 79, "ftp": 21, "ftp-data": 20, "gopher": 70, "h323": 1720, "hostname": 101, "http": 80, "https": 443, "ident": 113, "imap4": 143,
    "irc": 194, "kerberos": 88, "klogin": 543, "kshell": 544, "ldap": 389, "ldaps": 636, "login": 513, "lotusnotes": 1352, "lpd": 515, "netbios-ssn": 139,
    "nfs": 2049, "nntp": 119, "pcanywhere-data": 5631, "pim-auto-rp": 496, "pop2": 109, "pop3": 110, "pptp": 1723, "rsh": 514, "rtsp": 554, "sip": 5060, "smtp": 25,
    "sqlnet": 1521, "ssh": 22, "sunrpc": 111, "tacacs": 49, "talk": 517, "telnet": 23, "uucp": 540, "whois": 43, "www": 80,
}
UDP = {
    "biff": 512, "bootpc": 68, "bootps": 67, "cifs": 3020, "discard": 9, "dnsix": 90, "domain": 53, "echo": 7, "http": 80, "isakmp": 500, "kerberos": 88, "mobile-ip": 434,
    "nameserver": 42, "netbios-dgm": 138, "netbios-ns": 137, "nfs": 2049, "ntp": 123, "pcanywhere-status": 5632, "pim-auto-rp": 496, "radius": 1812, "radius-acct": 1813,
    "rip": 520, "rtsp": 5004, "secureid-udp": 5500, "sip": 5060, "snmp": 161, "snmptrap": 162, "sunrpc": 111, "syslog": 514, "tacacs": 49, "talk": 517, "tftp": 69,
    "time": 37, "who": 513, "www": 80, "xdmcp": 177,
}

NAMES = {"tcp": TCP, "udp": UDP}
SP = ["{op} {a}", "  {op}  {a} ", "{op}\t{a}"]
EDGE = sorted(set(range(0, 40)) | set(range(65500, 65545)) | {79, 80, 81, 443, 1023, 1024, 1025, 32767, 32768, 8080})
RNG = [1, 2, 3, 20, 21, 22, 23, 25, 80, 443, 1024, 65533, 65534, 65535, 65536, 70000]


def shards(tier):
    out = []
    for proto in ("tcp", "udp"):
        out += [{"k": "eq", "p": proto, "lo": lo} for lo in range(0, 65600, 8200)]
        out += [{"k": op, "p": proto} for op in ("lt", "gt", "neq")]
        out += [{"k": "range", "p": proto, "part": i} for i in range(4)]
        out += [{"k": "names", "p": proto}, {"k": "same", "p": proto}]
    out.append({"k": "bad"})
    return out


def rng(proto, tier):
    n = list(NAMES[proto])
    vals = [str(x) for x in RNG] + (n[::3] if tier == "quick" else n)
    if tier == "thorough":
        vals += [str(x) for x in (4, 5, 24, 53, 81, 82, 1023, 1025, 32767, 32768, 49151, 49152)]
    return vals


SAME = ["eq 1", "1", "lt 2", "range 1 1", "eq 2", "range 1 2", "lt 3", "neq 1", "gt 1", "range 2 65535", "neq 65535", "lt 65535", "range 1 65534", "eq 65535", "gt 65534", "65535", "neq 2", "eq www", "eq 80", "80",
        "www", "range www www", "range 79 80", "gt www", "gt 80", "lt www", "lt 80", "neq www", "neq 80"]
BAD = ["eq 0", "0", "eq 65536", "65536", "eq nosuchname", "nosuchname", "lt 1", "lt 0", "lt 65536", "gt 0", "gt 65535", "gt 65536", "neq 0", "neq 65536", "range 2 1", "range 1 65536", "range 65535 65536", "foo 12", "",
       "range 22", "range www nosuchname", "lt nosuchname", "eq -1"]


def cases(shard, tier):
    k, p = shard["k"], shard.get("p")
    if k == "eq":
        for n in range(shard["lo"], min(shard["lo"] + 8200, 65601)):
            for s in ("eq {a}", "{a}"):
                yield {"p": p, "op": "eq", "a": str(n), "s": s.format(a=n)}
    elif k == "names":
        for a in NAMES[p]:
            for op in ("eq", "lt", "gt", "neq"):
                for s in SP[:2] + (["{a}"] if op == "eq" else []):
                    yield {"p": p, "op": op, "a": a, "s": s.format(op=op, a=a)}
    elif k in ("lt", "gt", "neq"):
        for n in sorted(set(EDGE) | (set(range(0, 65536, 64)) if tier == "thorough" else set())):
            for s in (SP[:2] if n < 10 else SP[:1]):
                yield {"p": p, "op": k, "a": str(n), "s": s.format(op=k, a=n)}
    elif k == "range":
        v = rng(p, tier)
        for i, a in enumerate(v):
            if i % 4 == shard["part"]:
                for b in v:
                    yield {"p": p, "op": "range", "a": a, "b": b, "s": f"range {a} {b}"}
                yield {"p": p, "op": "range", "a": a, "b": v[-1], "s": f" range  {a}   {v[-1]} "}
    elif k == "same":
        for a in SAME:
            for b in SAME:
                yield {"p": p, "op": "same", "a": a, "b": b}
    else:
        for p in ("tcp", "udp"):
            for s in BAD:
                yield {"p": p, "op": "bad", "s": s}
        for p in ("icmp", "", "ip"):
            yield {"p": p, "op": "bad", "s": "eq 22"}


def port(p, x):
    return int(NAMES[p].get(x, x))


def meaning(p, op, a, b=None):
    """the set of ports, or None when the specification is not valid"""
    a = port(p, a)
    if op == "eq":
        return [a] if 1 <= a <= 65535 else None
    if op == "lt":
        return list(range(1, a)) if 2 <= a <= 65535 else None
    if op == "gt":
        return list(range(a + 1, 65536)) if 1 <= a <= 65534 else None
    if op == "neq":
        return [x for x in range(1, 65536) if x != a] if 1 <= a <= 65535 else None
    b = port(p, b)
    return list(range(a, b + 1)) if 1 <= a <= b <= 65535 else None


def compress(ports):
    runs = []
    for n in ports:
        if runs and n == runs[-1][1] + 1:
            runs[-1][1] = n
        else:
            runs.append([n, n])
    return ",".join(str(a) if a == b else f"{a},{b}" if b == a + 1 else f"{a}-{b}" for a, b in runs)


def split(s):
    w = s.split()
    return ("eq", w[0], None) if len(w) == 1 else (w[0], w[1], w[2] if len(w) > 2 else None)


def check(case, R):
    from ciscoconfparse.ccp_util import L4Object
    p, op = case["p"], case["op"]
    if op == "bad":
        try:
            o = L4Object(protocol=p, port_spec=case["s"], syntax="asa")
        except Exception:
            R.outcome(("refused", case["s"]))
            return
        R.fail("accepted", f"{p} {case['s']!r} was accepted: {o.port_list[:4]}")
    if op == "same":
        x = L4Object(protocol=p, port_spec=case["a"], syntax="asa")
        y = L4Object(protocol=p, port_spec=case["b"], syntax="asa")
        z = L4Object(protocol="udp" if p == "tcp" else "tcp", port_spec="80", syntax="asa")
        want = meaning(p, *split(case["a"])) == meaning(p, *split(case["b"]))
        R.eq("equal", (x == y, x != y), (want, not want), f"{p}: {case['a']!r} vs {case['b']!r}:")
        R.true("protocol", not (x == z), f"{p} {case['a']!r} equals an object of the other protocol")
        R.outcome(("same", case["a"], case["b"]))
        return
    want = meaning(p, op, case["a"], case.get("b"))
    try:
        o = L4Object(protocol=p, port_spec=case["s"], syntax="asa")
    except Exception as e:
        R.true("refused", want is None, f"{p} {case['s']!r} was refused: {e!r}")
        R.outcome((p, "refused", op))
        return
    R.true("accepted", want is not None, f"{p} {case['s']!r} was accepted: {o.port_list[:4]}")
    R.true("ports", list(o.port_list) == want, f"{p} {case['s']!r}: got {len(o.port_list)} ports {list(o.port_list)[:4]}.. want {len(want)} {want[:4]}..")
    R.eq("protocol", o.protocol, p)
    R.state((p, op, len(want), want[0] if want else 0))
    R.outcome((p, op, case["a"], case.get("b")))
    R.trace()
    if op != "eq" or int(want[0]) < 200:
        R.eq("repr", repr(o), f"<L4Object {p} ports: {compress(want)}>", case["s"])
