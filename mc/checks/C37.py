"""ASA names and object-groups: what a group holds is what its lines say, through names and nested groups, after every edit."""
import itertools

from mc.attrs import PLAIN, numbers

ID = "C37"
ASSUMPTIONS = ["groups of IPv4 hosts and networks, and of ports; members the code refuses with NotImplementedError (objects, IPv6) are not used", "groups do not contain each other in a circle (an ASA refuses that), except "
               "that a group which contains itself must be refused", "a service-object with source and destination ports at once is not claimed"]
BOUNDS = {
    "quick": "3 network groups (every member list up to length 2, 2 and 1) x 4 name tables; member lists of length 3 of one group; group and name words of every kind, every mask, ports of every number of digits; 3 service groups x 4 protocols; every history of 1 edit, and of 2 edits from 4 configurations",
    "thorough": "every member list up to length 3, 2 and 2; every history of up to 3 edits",
}
NAMES = [
    [],
    [("10.1.1.1", "alpha", "")],
    [("10.1.1.1", "alpha", " description beta 9.9.9.9"), ("10.2.0.0", "beta", "")],
    [("10.9.0.0", "beta", ""), ("10.1.1.9", "alpha", ""), ("10.1.1.1", "alphabet", "")],
]
NET = [  # line, what it gives: ("h", word) host, ("n", word, mask) network, ("g", k) the group k, None nothing
    (" network-object host 192.0.2.1", ("h", "192.0.2.1")), (" network-object host alpha", ("h", "alpha")), (" network-object 10.0.0.0 255.0.0.0", ("n", "10.0.0.0", "255.0.0.0")),
    (" network-object beta 255.255.0.0", ("n", "beta", "255.255.0.0")), (" network-object 192.0.2.7 255.255.255.255", ("h", "192.0.2.7")), (" network-object alpha 255.255.255.255", ("h", "alpha")),
    (" description network-object host 7.7.7.7", None), (" description x", None), (" group-object G1", ("g", 1)), (" group-object G2", ("g", 2)), (" network-object 192.0.2.8 255.255.255.254", ("n", "192.0.2.8", "255.255.255.254")),
]
SVC = [  # line, protocol types it may stand in, ("p", protocol or None for the group's, ports)
    (" port-object eq 25", ("p", None, (25, 25))), (" port-object eq talk", ("p", None, (517, 517))), (" port-object eq 7", ("p", None, (7, 7))), (" port-object range 8080 8083", ("p", None, (8080, 8083))),
    (" port-object range www 81", ("p", None, (80, 81))), (" description port-object eq 5", None), (" group-object G1", ("g", 1)), (" group-object G2", ("g", 2)), (" port-object eq domain", ("p", None, (53, 53))),
]
DIR = [
    (" service-object tcp destination eq 25", ("p", "tcp", (25, 25))), (" service-object udp destination eq domain", ("p", "udp", (53, 53))), (" service-object tcp-udp destination range 7 9", ("p", "tcp-udp", (7, 9))),
    (" service-object tcp source range www 81", ("p", "tcp", (80, 81))), (" service-object tcp destination smtp", ("p", "tcp", (25, 25))), (" service-object udp destination lt 3", ("p", "udp", (1, 2))),
    (" service-object tcp destination gt 65533", ("p", "tcp", (65534, 65535))), (" description service-object tcp destination eq 5", None), (" group-object G1", ("g", 1)), (" group-object G2", ("g", 2)),
    (" service-object tcp destination eq 7", ("p", "tcp", (7, 7))),
]
PROTOS = ["tcp", "udp", "tcp-udp", ""]
KINDS = {"net": NET, "svc": SVC, "dir": DIR}


def _lists(alpha, n):
    for k in range(n + 1):
        yield from itertools.product(range(len(alpha)), repeat=k)


def ok(kind, gs):
    """G1 may hold G2, G2 holds no group."""
    A = KINDS[kind]
    for k, g in enumerate(gs):
        for m in g:
            t = A[m][1]
            if t and t[0] == "g" and t[1] <= k:
                return False
    return True


def shards(tier):
    q = tier == "quick"
    out = [{"k": "net", "names": n, "part": i, "parts": 2} for n in range(len(NAMES)) for i in range(2)]
    out += [{"k": "long", "kind": kd} for kd in KINDS]
    out += [{"k": kd, "proto": p} for kd in ("svc",) for p in ("tcp", "udp", "tcp-udp")] + [{"k": "dir", "proto": ""}]
    out += [{"k": "hist", "start": i} for i in range(4)] + [{"k": "hist1"}, {"k": "odd"}, {"k": "names"}, {"k": "wide"}]
    return out


SMALL1 = {"net": [0, 1, 3, 7, 9], "svc": [2, 3, 5, 7], "dir": [0, 2, 4, 7, 9]}
SMALL2 = {"net": [1, 2, 4], "svc": [1, 4], "dir": [1, 3]}
START = [
    {"kind": "net", "proto": "", "names": 2, "g": [[1, 8, 3], [0, 9], [2]]}, {"kind": "net", "proto": "", "names": 1, "g": [[8], [9], [1, 6]]},
    {"kind": "svc", "proto": "tcp-udp", "names": 0, "g": [[0, 6], [7, 3], [4]]}, {"kind": "dir", "proto": "", "names": 0, "g": [[2, 8], [9], [3, 0]]},
]
OPS = [["del", 0, 0], ["del", 1, 0], ["del", 2, 0], ["del", 0, 1], ["add", 0, 0], ["add", 1, 3], ["add", 2, 1], ["rep", 0, 0, 2], ["rep", 2, 0, 0], ["name", "alpha", "10.7.7.7"], ["noname", "alpha"], ["name", "beta", "10.8.0.0"],
       ["ungroup", 2], ["ungroup", 1], ["newgroup", 2, [0, 1]]]


def sub(idx, n):
    yield []
    for k in range(1, n + 1):
        for c in itertools.product(idx, repeat=k):
            yield list(c)


def cases(sh, tier):
    q = tier == "quick"
    k = sh["k"]
    if k in KINDS:
        A = KINDS[k]
        n1 = list(sub(SMALL1[k], 2))
        n2 = list(sub(SMALL2[k], 1 if q else 2))
        base = {"kind": k, "names": sh.get("names", 0), "proto": sh.get("proto", "")}
        c = 0
        for g0 in _lists(A, 2):
            for g1 in n1:
                for g2 in n2:
                    c += 1
                    if "part" in sh and c % sh["parts"] != sh["part"]:
                        continue
                    gs = [list(g0), g1, g2]
                    if ok(k, gs) and (8 in g0 or 9 in g0 or 6 in g0 or 7 in g0 or (not g1 and not g2)):
                        yield dict(base, g=gs, rev=0)
                        if g0 and g1 and len(g0) == 1:
                            yield dict(base, g=gs, rev=1)
    elif k == "long":
        A = KINDS[sh["kind"]]
        for g0 in _lists(A, 3 if q else 4):
            if len(g0) >= 3:
                yield {"kind": sh["kind"], "names": 2, "proto": "tcp" if sh["kind"] == "svc" else "", "g": [list(g0), [0], [1]], "rev": 0}
    elif k == "hist":
        for n in range(1, 3 if q else 4):
            for ops in itertools.product(OPS, repeat=n):
                yield dict(START[sh["start"]], ops=list(ops), rev=0)
    elif k == "hist1":
        for kd in KINDS:
            for g0 in _lists(KINDS[kd], 1 if q else 2):
                for names in range(len(NAMES)):
                    for op in OPS:
                        yield {"kind": kd, "names": names, "proto": "udp" if kd == "svc" else "", "g": [list(g0), [0], [1]], "ops": [op], "rev": 0}
    elif k == "wide":
        yield from wide()
    elif k == "names":
        pool = [("10.1.1.1", "a"), ("10.1.1.2", "b"), ("10.1.1.1", "c"), ("10.1.1.3", "a")]
        for n in range(4):
            for c in itertools.product(range(len(pool)), repeat=n):
                for fac in (False, True):
                    for d in (0, 1):
                        yield {"k": "names", "n": [list(pool[i]) for i in c], "fac": fac, "desc": d}
    else:
        for kd in KINDS:
            for g0 in _lists(KINDS[kd], 1):
                for w in ("self", "none"):
                    for at in (0, 1):
                        yield {"k": "odd", "kind": kd, "w": w, "g": [list(g0), [0], [1]], "at": at, "names": 1, "proto": "tcp" if kd == "svc" else ""}
        for h in ("a", "FW-1", "x.y"):
            yield {"k": "host", "h": h}


GNAMES = PLAIN + ["IN+OUT", "A@b(c)", "n$", "a,b", "#x", "a=b", "G-1.2/3", "object", "network", "tcp"]


def wide():
    """One group with one line whose words and numbers are varied: (name lines, header, lines, what the group holds)."""
    def net(lines, want, name="G", names=(), more=()):
        return {"k": "wide", "names": list(names), "head": f"object-group network {name}", "lines": lines, "more": list(more), "want": want}

    def svc(lines, want, proto="tcp", name="S", more=()):
        return {"k": "wide", "names": [], "head": f"object-group service {name}" + (f" {proto}" if proto else ""), "lines": lines, "more": list(more), "want": want}
    for n in range(1, 33):
        m = ".".join(str((0xFFFFFFFF << (32 - n) >> s) & 255) for s in (24, 16, 8, 0))
        for a in ("10.0.0.0", "0.0.0.0", "192.168.100.200", "255.255.255.255"):
            yield net([f" network-object {a} {m}"], [a if n == 32 else f"{a}/{m}"])
            yield net([f" network-object beta {m}"], [a if n == 32 else f"{a}/{m}"], names=[[a, "beta"]])
    for n in range(256):
        a = f"{n}.{255 - n}.{n // 2}.{n}"
        yield net([f" network-object host {a}"], [a])
        yield net([" network-object host alpha", f" network-object host {a}"], [a, a], names=[[a, "alpha"]])
    for w in GNAMES:
        yield net([" network-object host 1.2.3.4"], ["1.2.3.4"], name=w)
        yield net([f" group-object {w}", " network-object host 9.9.9.9"], ["1.2.3.4", "9.9.9.9"], more=[f"object-group network {w}", " network-object host 1.2.3.4"])
        yield net([f" network-object host {w}x"], ["1.2.3.4"], names=[["1.2.3.4", f"{w}x"]])
        yield svc([" port-object eq 9"], [["tcp", 9, 9]], name=w)
        yield svc([f" group-object {w}", " port-object eq 9"], [["tcp", 1, 2], ["tcp", 9, 9]], more=[f"object-group service {w} tcp", " port-object range 1 2"])
    for n in numbers(1, 65535):
        for proto in ("tcp", "udp"):
            yield svc([f" port-object eq {n}"], [[proto, n, n]], proto)
            yield svc([f" service-object {proto} destination eq {n}"], [[proto, n, n]], "")
            if n < 65535:
                yield svc([f" port-object range {n} {n + 1}"], [[proto, n, n + 1]], proto)
                yield svc([f" service-object {proto} source range {n} {n + 1}"], [[proto, n, n + 1]], "")
                yield svc([f" service-object {proto} destination gt {n}"], [[proto, n + 1, 65535]], "")
            if n > 1:
                yield svc([f" service-object {proto} destination lt {n}"], [[proto, 1, n - 1]], "")


def check_wide(case, R):
    from ciscoconfparse import CiscoConfParse

    for order in (0, 1):
        me, more = [case["head"]] + case["lines"], case["more"]
        t = ["hostname FW", "names"] + [f"name {a} {n}" for a, n in case["names"]] + (more + me if order else me + more) + ["!"]
        R.state("\n".join(t))
        R.step()
        p = CiscoConfParse(t, syntax="asa", factory=True)
        o = [x for x in p.objs if x.text == case["head"]][0]
        R.eq("name", o.name, case["head"].split()[2], f"{t}: name:")
        if case["head"].startswith("object-group network "):
            R.eq("strings", o.network_strings, case["want"], f"{t}: network_strings:")
            R.eq("networks", [f"{x.ip}/{x.prefixlen}" for x in o.networks], ["%s/%d" % plen(s) for s in case["want"]], f"{t}: networks:")
        else:
            R.eq("ports", [[x.protocol, list(x.port_list)] for x in o.ports], [[a, list(range(b, c + 1))] for a, b, c in case["want"]], f"{t}: ports:")
        R.outcome(str(case["want"]))
    R.trace()


def head(kind, k, proto):
    return f"object-group network G{k}" if kind == "net" else f"object-group service G{k}" + (f" {proto}" if proto else "")


def text(case):
    out = ["hostname FW", "names"]
    out += [f"name {a} {n}{d}" for a, n, d in NAMES[case["names"]]]
    A = KINDS[case["kind"]]
    for k in sorted(range(3), reverse=bool(case.get("rev"))):
        out += [head(case["kind"], k, case["proto"])] + [A[m][0] for m in case["g"][k]]
    return out + ["!"]


def expand(kind, proto, groups, names, k, depth=0):
    """None: the group must be refused (a group it names is missing)."""
    A = {ln: t for ln, t in KINDS[kind]}
    out = []
    for ln in groups[k]:
        t = A[ln]
        if t is None:
            continue
        if t[0] == "g":
            if t[1] not in groups:
                return None
            r = expand(kind, proto, groups, names, t[1], depth + 1)
            if r is None:
                return None
            out += r
        elif t[0] == "h":
            out.append(names.get(t[1], t[1]))
        elif t[0] == "n":
            out.append(f"{names.get(t[1], t[1])}/{t[2]}")
        else:
            lo, hi = t[2]
            pr = t[1] or proto
            out += [(x, list(range(lo, hi + 1))) for x in pr.split("-")]
    return out


def plen(s):
    a, _, m = s.partition("/")
    return a, 32 if not m else sum(bin(int(x)).count("1") for x in m.split("."))


def is_addr(s):
    return all(x.isdigit() for x in s.partition("/")[0].split("."))


def observe(p, kind, proto, groups, names, R, what):
    R.eq("names", dict(p.ConfigObjs.names), names, f"{what}: names:")
    rx = "network" if kind == "net" else "service"
    objs = {o.name: o for o in p.find_objects(r"^object-group\s+" + rx)}
    R.eq("groups", sorted(objs), sorted(f"G{k}" for k in groups), f"{what}: groups")
    d = p.ConfigObjs.object_group_network if kind == "net" else getattr(p.ConfigObjs, "object_group_service", None)
    if d is None:
        R.fail("groups", "no object_group_service")
    R.eq("dict", {n: o.text for n, o in d.items()}, {f"G{k}": head(kind, k, proto) for k in groups}, f"{what}: object_group dict")
    for k in sorted(groups):
        o = objs[f"G{k}"]
        want = expand(kind, proto, groups, names, k)
        R.step()
        if want is None:
            try:
                got = o.network_strings if kind == "net" else o.ports
            except ValueError:
                R.outcome(("refused", k))
                continue
            R.fail("missing", f"{what}: group G{k} names a group that is missing and gives {got}")
        if kind == "net":
            R.eq("strings", o.network_strings, want, f"{what}: network_strings of G{k}:")
            R.eq("count", o.network_count, len(want), f"{what}: network_count of G{k}:")
            if all(is_addr(s) for s in want):
                for rnd in (0, 1):
                    R.eq("networks", [f"{x.ip}/{x.prefixlen}" for x in o.networks], ["%s/%d" % plen(s) for s in want], f"{what}: networks of G{k}, reading {rnd}:")
                R.eq("hash", o.hash_children == hash(tuple(want)), True, f"{what}: hash_children of G{k}:")
            R.outcome((k, tuple(want)))
        else:
            got = [(x.protocol, list(x.port_list)) for x in o.ports]
            R.eq("ports", got, want, f"{what}: ports of G{k}:")
            R.eq("type", (o.protocol_type, o.L4Objects_are_directional), (proto, proto == ""), f"{what}: type of G{k}:")
            R.outcome((k, str([(a, b[0], b[-1]) for a, b in want])))


def refused(fn):
    try:
        return fn(), False
    except ValueError:
        return None, True


def check(case, R):
    if case.get("k") == "wide":
        return check_wide(case, R)
    from ciscoconfparse import CiscoConfParse

    def parse(lines, factory=True):
        return CiscoConfParse(lines, syntax="asa", factory=factory)

    if case.get("k") == "host":
        p = parse([f"hostname {case['h']}", "!"])
        R.eq("hostname", p.objs[0].hostname, case["h"], "hostname:")
        R.state(case["h"])
        R.outcome(case["h"])
        R.trace()
        return
    if case.get("k") == "names":
        lines = ["names"] + [f"name {a} {n}" + (" description name 1.1.1.1 zz" if case["desc"] else "") for a, n in case["n"]] + ["access-list A remark name 9.9.9.9 no"]
        p = parse(lines, case["fac"])
        want = {}
        for a, n in case["n"]:
            want[n] = a
        R.eq("names", dict(p.ConfigObjs.names), want, f"{lines}: names:")
        if case["fac"]:
            got = [(o.addr, o.name, o.result_dict) for o in p.objs if type(o).__name__ == "ASAName"]
            R.eq("name", got, [(a, n, {"name": n, "addr": a}) for a, n in case["n"]], f"{lines}: the name lines:")
        R.state(repr(lines) + str(case["fac"]))
        R.step()
        R.outcome(tuple(sorted(want.items())))
        R.trace()
        return
    if case.get("k") == "odd":
        lines = text(case)
        i = lines.index(head(case["kind"], 0, case["proto"])) + 1 + min(case["at"], len(case["g"][0]))
        lines.insert(i, " group-object " + ("G0" if case["w"] == "self" else "NOPE"))
        p = parse(lines)
        o = p.find_objects("^object-group.* G0")[0]
        got, no = refused(lambda: o.network_strings if case["kind"] == "net" else o.ports)
        R.true("odd", no, f"{lines}: G0 should be refused and is {got}")
        R.state(repr(lines))
        R.step()
        R.outcome((case["kind"], case["w"]))
        R.trace()
        return
    kind, proto = case["kind"], case["proto"]
    lines = text(case)
    p = parse(lines)
    A = KINDS[kind]
    groups = {k: [A[m][0] for m in case["g"][k]] for k in range(3)}
    names = {}
    for a, n, _ in NAMES[case["names"]]:
        names[n] = a
    R.state("\n".join(lines))
    observe(p, kind, proto, groups, names, R, lines)
    done = []
    for op in case.get("ops", ()):
        def group(k):
            return p.find_objects(rf"^object-group \S+ G{k}\b")[0]
        if op[0] == "del":
            if op[1] not in groups or op[2] >= len(groups[op[1]]):
                continue
            group(op[1]).children[op[2]].delete()
            del groups[op[1]][op[2]]
        elif op[0] == "add":
            t = A[op[2]]
            if op[1] not in groups or (t[1] and t[1][0] == "g"):
                continue
            group(op[1]).append_to_family(t[0])
            groups[op[1]].append(t[0])
        elif op[0] == "rep":
            if op[1] not in groups or op[2] >= len(groups[op[1]]):
                continue
            kid = group(op[1]).children[op[2]]
            new = A[op[3]][0]
            kid.re_sub("^.*$", new)
            groups[op[1]][op[2]] = new
        elif op[0] == "name":
            old = p.find_objects(rf"^name \S+ {op[1]}$")
            if old:
                old[0].re_sub("^.*$", f"name {op[2]} {op[1]}")
            elif p.find_objects(rf"^name \S+ {op[1]} "):
                continue
            else:
                p.objs[1].insert_after(f"name {op[2]} {op[1]}")
            names[op[1]] = op[2]
        elif op[0] == "noname":
            old = p.find_objects(rf"^name \S+ {op[1]}( |$)")
            if not old:
                continue
            old[0].delete()
            del names[op[1]]
        elif op[0] == "ungroup":
            if op[1] not in groups:
                continue
            group(op[1]).delete()
            del groups[op[1]]
        else:
            if op[1] in groups:
                continue
            p.append_line(head(kind, op[1], proto))
            for m in op[2]:
                p.append_line(A[m][0])
            groups[op[1]] = [A[m][0] for m in op[2]]
        p.commit()
        done.append(op)
        R.state("\n".join(o.text for o in p.objs))
        observe(p, kind, proto, groups, names, R, f"{lines} after {done}")
    R.trace()
