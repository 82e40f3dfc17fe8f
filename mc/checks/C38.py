"""Every ASA access-list line is read as the line it is, and the ACLs of a configuration hold exactly their lines, in order."""
import itertools

from mc.attrs import PLAIN, WORDS, numbers

ID = "C38"
ASSUMPTIONS = ["extended ACEs for IPv4 with a protocol or a protocol object-group, sources and destinations any/any4/host/network/object/object-group, ports for tcp and udp; forms the code refuses with ValueError (any6, "
               "interface, service objects, 'log default') are not used"]
NAMES = ["A", "OUTSIDE_in", "101", "extended", "a.b-c"]
PROTO = ["ip", "tcp", "udp", "icmp", "47", "object-group P"]
NUM = {"ah": 51, "eigrp": 88, "esp": 50, "gre": 47, "icmp": 1, "igmp": 2, "igrp": 9, "ip": 0, "ipinip": 4, "ipsec": 50, "ospf": 89, "pcp": 108, "pim": 103, "pptp": 47, "snp": 109, "tcp": 6, "udp": 17, "0": 0, "47": 47, "255": 255}
ADDR = [("any", "network"), ("any4", "network"), ("host 10.0.0.1", "network"), ("10.1.0.0 255.255.0.0", "network"), ("object O", "object"), ("object-group G", "object-group"), ("host srv", "network"), ("net 255.0.0.0", "network")]
PORT = ["", "eq www", "neq 5", "lt 1024", "gt 1023", "range 1 99", "object-group S"]
LEVELS = ["alerts", "critical", "debugging", "emergencies", "errors", "informational", "notifications", "warnings"] + [str(x) for x in range(8)]
TAIL = ["", "inactive", "time-range T", "time-range log"]
ICMP = ["", "echo", "echo-reply", "unreachable", "time-exceeded", "8", "timestamp-reply", "mask-request", "redirect", "traceroute"]
BOUNDS = {
    "quick": f"extended ACEs: every protocol form x source x source port x destination x destination port, every protocol, log form, level, interval and tail, every icmp type; every protocol number, mask, names of every kind of character, port and interval of every number of digits; standard and remark lines; configurations of up to 3 ACEs of "
             "2 ACLs and one edit",
    "thorough": "the product of all of these with the log forms; up to 4 ACEs of 2 ACLs and two edits",
}


def adr(x):
    return ADDR[x] if isinstance(x, int) else tuple(x)


def wide():
    base = {"n": "A", "a": "permit", "p": "ip", "s": 0, "d": 0, "log": "", "t": ""}
    for w in WIDENAMES:
        yield dict(base, n=w)
        yield dict(base, n=w, p="tcp", dp="eq www", log="log")
        yield {"std": 1, "n": w, "a": "deny", "d": 0}
        yield {"rem": "x", "n": w}
        yield dict(base, p="object-group " + w)
        for k in ("s", "d"):
            for how in ("object", "object-group"):
                for p in ("ip", "tcp"):
                    yield dict(base, p=p, **{k: [f"{how} {w}", how]})
            yield dict(base, p="udp", **{{"s": "sp", "d": "dp"}[k]: f"object-group {w}"})
        yield dict(base, t=f"time-range {w}")
        yield dict(base, p="udp", log="log", t=f"time-range {w}")
    for w in WORDS + ["a  b", "x y z", "=====", "! x", "deny ip any any log", "inactive"]:
        yield {"rem": w, "n": "A"}
    for n in numbers(1, 600):
        yield dict(base, log=f"log interval {n}")
        yield dict(base, log=f"log 7 interval {n}", t="inactive")
    for n in range(256):
        yield dict(base, p=str(n))
    for n in numbers(1, 65535):
        for op in ("eq", "neq", "lt", "gt"):
            yield dict(base, p="tcp", sp=f"{op} {n}")
            yield dict(base, p="udp", dp=f"{op} {n}", log="log")
        yield dict(base, p="tcp", sp=f"range {n} 65535", dp=f"range 1 {n}")
    for n in range(33):
        m = ".".join(str((0xFFFFFFFF << (32 - n) >> s) & 255) for s in (24, 16, 8, 0))
        for a in ("0.0.0.0", "10.20.30.40", "255.255.255.255", "192.168.100.1"):
            for k in ("s", "d"):
                yield dict(base, **{k: [f"{a} {m}", "network"]})
            yield {"std": 1, "n": "A", "a": "permit", "d": [f"{a} {m}", "network"]}
    for n in range(256):
        a = f"{n}.{255 - n}.{n // 2}.{n}"
        yield dict(base, s=[f"host {a}", "network"], d=[f"host {a}", "network"], log="log")
        yield {"std": 1, "n": "A", "a": "permit", "d": [f"host {a}", "network"]}


WIDENAMES = PLAIN + ["IN+OUT", "A@b(c)", "n$", "a,b", "#x", "a=b", "x_access_in", "G-1.2/3"]


def logs():
    yield ""
    for lv in [""] + LEVELS:
        for iv in ("", "1", "600"):
            for d in ("", "disable"):
                yield " ".join(x for x in ("log", lv, f"interval {iv}" if iv else "", d) if x)


LOGS = list(logs())
SHORT = ["", "log", "log warnings interval 60", "log disable"]


def ace(name, action, proto, src, sp, dst, dp, icmp, log, tail):
    return " ".join(x for x in ("access-list", name, "extended", action, proto, src, sp, dst, dp, icmp, log, tail) if x)


def shards(tier):
    q = tier == "quick"
    out = [{"k": "ports", "p": p, "a": a} for p in ("tcp", "udp") for a in ("permit", "deny")]
    out += [{"k": "plain"}, {"k": "log", "part": 0}, {"k": "log", "part": 1}, {"k": "std"}, {"k": "num"}, {"k": "wide"}]
    out += [{"k": "conf", "first": i} for i in range(len(POOL))]
    if not q:
        out += [{"k": "full", "p": p, "s": s, "d": d} for p in PROTO for s in range(len(ADDR)) for d in range(len(ADDR))]
    return out


POOL = ["access-list A extended permit ip any any", "access-list A remark access-list B standard permit any", "access-list B standard permit 10.0.0.0 255.0.0.0", "access-list A extended deny tcp any any eq www log",
        "access-list AB extended permit icmp any any echo", "access-group A in interface outside", "access-list B remark x"]


def cases(sh, tier):
    q = tier == "quick"
    k = sh["k"]
    if k == "ports":
        for (s, sp, d, dp) in itertools.product(range(len(ADDR)), PORT, range(len(ADDR)), PORT):
            for log in ("", "log warnings interval 60"):
                yield {"n": "A", "a": sh["a"], "p": sh["p"], "s": s, "sp": sp, "d": d, "dp": dp, "log": log}
    elif k == "plain":
        for n, a, p, s, d, log, t in itertools.product(NAMES, ("permit", "deny"), PROTO, range(len(ADDR)), range(len(ADDR)), SHORT, TAIL):
            yield {"n": n, "a": a, "p": p, "s": s, "d": d, "log": log, "t": t}
    elif k == "log":
        for p, log, t, (s, d) in itertools.product(PROTO, LOGS, TAIL, [(0, 0), (2, 5), (5, 4), (3, 3)] if sh["part"] else [(5, 5), (4, 1)]):
            yield {"n": "A", "a": "permit", "p": p, "s": s, "d": d, "log": log, "t": t}
            if p == "tcp":
                yield {"n": "A", "a": "permit", "p": p, "s": s, "sp": "range 1 99", "d": d, "dp": "eq www", "log": log, "t": t}
            if p == "icmp":
                for ic in ICMP[1:]:
                    yield {"n": "A", "a": "permit", "p": p, "s": s, "d": d, "log": log, "t": t, "ic": ic}
    elif k == "num":
        for p in NUM:
            for a in ("permit", "deny"):
                for s in range(len(ADDR)):
                    yield {"n": "A", "a": a, "p": p, "s": s, "d": 0, "log": ""}
                    yield {"n": "A", "a": a, "p": p, "s": 0, "d": s, "log": "log"}
    elif k == "std":
        for n in NAMES:
            for a in ("permit", "deny"):
                for d in (0, 1, 2, 3, 6):
                    yield {"std": 1, "n": n, "a": a, "d": d}
            for r in ("x", "TESTING THE REMARK FIELD", "extended permit ip any any", "access-list A standard permit any", "remark", "log", "a  b"):
                yield {"rem": r, "n": n}
    elif k == "wide":
        yield from wide()
    elif k == "full":
        for sp, dp, log, t, ic in itertools.product(PORT if sh["p"] in ("tcp", "udp") else [""], PORT if sh["p"] in ("tcp", "udp") else [""], LOGS[:1] + LOGS[1::9] + LOGS[2::13], TAIL, ICMP if sh["p"] == "icmp" else [""]):
            yield {"n": "OUTSIDE_in", "a": "deny", "p": sh["p"], "s": sh["s"], "sp": sp, "d": sh["d"], "dp": dp, "log": log, "t": t, "ic": ic}
    else:
        n = len(POOL)
        for m in range(0, 3 if q else 4):
            for rest in itertools.product(range(n), repeat=m):
                ls = [sh["first"]] + list(rest)
                yield {"conf": ls, "ops": []}
                ops = [["del", i] for i in range(len(ls))] + [["add", j, at] for j in (0, 2, 3) for at in ("end", 0)] + [["rep", 0, j] for j in (1, 2, 4)]
                for op in ops:
                    yield {"conf": ls, "ops": [op]}
                if not q and m < 2:
                    for op, op2 in itertools.product(ops, ops):
                        yield {"conf": ls, "ops": [op, op2]}


def want(c):
    if "rem" in c:
        return {"ip_protocol": -1, "ip_protocol_object": "", "acl_name": c["n"], "action": "remark", "remark": c["rem"], "src_addr_method": "", "dst_addr_method": "", "disable": False, "time_range": None, "log": False,
                "log_interval": -1, "log_level": ""}
    std = "std" in c
    log = c.get("log", "").split()
    obj = not std and c["p"].startswith("object-group")
    lv = [x for x in log if x in LEVELS and (log.index(x) == 1)]
    return {"ip_protocol": 0 if std else 65535 if obj else NUM.get(c["p"], None) if c["p"] in NUM else int(c["p"]), "ip_protocol_object": c["p"].split()[1] if obj else "", "acl_name": c["n"], "action": c["a"], "remark": None,
            "src_addr_method": "network" if std else adr(c["s"])[1], "dst_addr_method": adr(c["d"])[1], "disable": "disable" in log, "time_range": c["t"].split()[1] if c.get("t", "").startswith("time") else None,
            "log": bool(log), "log_interval": -1 if not log else int(log[log.index("interval") + 1]) if "interval" in log else 300, "log_level": "" if not log else lv[0] if lv else "informational"}


def line(c):
    if "rem" in c:
        return f"access-list {c['n']} remark {c['rem']}"
    if "std" in c:
        return f"access-list {c['n']} standard {c['a']} {adr(c['d'])[0]}"
    return ace(c["n"], c["a"], c["p"], adr(c["s"])[0], c.get("sp", ""), adr(c["d"])[0], c.get("dp", ""), c.get("ic", ""), c.get("log", ""), c.get("t", ""))


def acls(texts):
    out = {}
    for i, t in enumerate(texts):
        w = t.split()
        if w[0] == "access-list":
            out.setdefault(w[1], []).append((i, t))
    return out


def check(case, R):
    from ciscoconfparse import CiscoConfParse

    if "conf" in case:
        for factory in (True, False):
            texts = [POOL[i] for i in case["conf"]]
            p = CiscoConfParse(list(texts), syntax="asa", factory=factory)
            done = []
            for op in [None] + case["ops"]:
                if op:
                    if op[0] == "del":
                        if op[1] >= len(texts):
                            continue
                        p.objs[op[1]].delete()
                        del texts[op[1]]
                    elif op[0] == "add":
                        if op[2] == "end":
                            p.append_line(POOL[op[1]])
                            texts.append(POOL[op[1]])
                        else:
                            if not texts:
                                continue
                            p.objs[0].insert_before(POOL[op[1]])
                            texts.insert(0, POOL[op[1]])
                    else:
                        if not texts:
                            continue
                        p.objs[0].re_sub("^.*$", POOL[op[2]])
                        texts[0] = POOL[op[2]]
                    p.commit()
                    done.append(op)
                R.state(f"{factory}{texts}")
                R.step()
                got = {n: [(o.linenum, o.text) for o in v] for n, v in p.ConfigObjs.access_list.items()}
                R.eq("access_list", got, acls(texts), f"{case['conf']} after {done}, factory={factory}: access_list:")
                if factory:
                    for o in p.objs:
                        R.eq("class", type(o).__name__ == "ASAAclLine", o.text.startswith("access-list "), f"{o.text}: is an ASAAclLine:")
                        if o.text.startswith("access-list "):
                            R.eq("ace", o.result_dict["acl_name"], o.text.split()[1], f"{o.text}: acl_name:")
                R.outcome(tuple((n, len(v)) for n, v in sorted(got.items())))
        R.trace()
        return
    t = line(case)
    p = CiscoConfParse([t], syntax="asa", factory=True)
    o = p.objs[0]
    R.state(t)
    R.step()
    R.eq("class", type(o).__name__, "ASAAclLine", f"{t}: class:")
    R.eq("text", o.text, t, "text:")
    got = o.result_dict
    w = want(case)
    for k in w:
        R.eq(k, got.get(k, "missing"), w[k], f"{t}: {k}:")
    R.eq("keys", sorted(got), sorted(w), f"{t}: keys:")
    R.outcome((w["ip_protocol"], w["src_addr_method"], w["dst_addr_method"], w["log_level"]))
    R.trace()
