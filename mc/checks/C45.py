"""Reading changes nothing; answers belong to the caller; arguments are neither changed nor kept: every ordered pair of questions, the first one's answer
spoiled in between, and every call which takes a container, the container spoiled afterwards."""
import copy

ID = "C45"
FILES = True
BOUNDS = {
    "quick": "7 configurations (ios, nxos, iosxr, asa, junos) of 11 to 28 lines: every ordered pair of the 394 to 1698 questions (every property of every line found by introspection, the searches, the list), the answer to the first one changed "
             "wherever it is a container or a value; 13 values (addresses, ranges, interfaces, ports, password, differences): every ordered pair; every line changed in 7 ways after every question was asked; every call which takes a container, "
             "asked twice with the same one and looked at again after it was changed",
    "thorough": "as quick, each edit after every single question of the edited line and of the configuration",
}
ASSUMPTIONS = ["a line which a question returns is the line of the configuration itself (children, parents, find_...), and members of a list of values are the list's own",
               "the notes of the differ on a line (line_id, diff_side, diff_word) are not answers", "the empty address of an interface without one cannot be changed"]
IOS = ["hostname r1", "interface GigabitEthernet0/1.5", " description to x", " ip address 10.0.0.1 255.255.255.0", " ip address 10.9.0.1 255.255.255.0 secondary", " ipv6 address 2001:db8::1/64", " ip helper-address 10.1.1.1", " standby 1 ip 10.0.0.254",
       " standby 1 priority 110", " ip ospf cost 5", " ip access-group A in", " channel-group 5 mode active", "interface GigabitEthernet0/2", " switchport mode trunk", " switchport trunk allowed vlan 1-5", " switchport trunk allowed vlan remove 3",
       "ip route vrf A 10.9.0.0 255.255.0.0 GigabitEthernet0/1 10.0.0.9 200 name N tag 5", "ipv6 route 2001:db8:9::/48 2001:db8::9", "aaa authentication login default group tacacs+ local", "aaa group server tacacs+ T", " server 10.1.1.1", "! note",
       "banner motd ^C", " hello", "^C", "line vty 0 4", " exec-timeout 5 0", " transport input ssh"]
NX = ["hostname n1", "vpc domain 5", "  peer-keepalive destination 10.1.1.1", "interface Ethernet1/1", "  switchport", "  switchport trunk allowed vlan 10-12", "  channel-group 5 mode active", "interface Vlan10", "  ip address 10.1.1.1/24",
      "  ip address 10.2.1.1/24 secondary", "  hsrp 5", "    ip 10.1.1.254", "    priority 90", "ip route 10.0.0.0/8 10.1.1.9 name A", "aaa group server tacacs+ T", "  server 10.1.1.1", "line vty", "  exec-timeout 5"]
XR = ["hostname x1", "interface GigabitEthernet0/0/0/0.7", " ipv4 address 10.5.0.1 255.255.255.252", " ipv6 address 2001:db8::1/64", " vrf A", " mtu 9000", " ipv4 access-group A ingress", "router ospf 1", " area 0", "interface Loopback0", " shutdown"]
ASA = ["names", "name 10.1.1.1 alpha", "name 10.1.2.0 beta", "interface GigabitEthernet0/1", " nameif inside", " security-level 100", " ip address 10.0.0.1 255.255.255.0 standby 10.0.0.2", "interface Vlan5", "object-group network G0", " network-object host alpha",
       " network-object beta 255.255.255.0", " network-object 10.5.0.0 255.255.0.0", "object-group network G1", " group-object G0", " network-object host 10.1.1.1", "object-group service S0 tcp", " port-object eq 80", " port-object range 100 102",
       "object-group service S1 tcp", " group-object S0", " port-object eq ssh", "object network O", " host 10.1.1.1", "access-list A extended permit tcp any host 10.1.1.1 eq 80", "access-list A remark x",
       "access-list B extended deny ip 10.0.0.0 255.0.0.0 any log"]
JUN = ["interfaces {", "    ge-0/0/1 {", "        unit 0 {", "            family inet {", "                address 10.0.0.1/24;", "            }", "        }", "    }", "}", "system {", "    host-name a;", "}"]
CONFIGS = [("ios", True, IOS), ("ios", False, IOS), ("nxos", True, NX), ("iosxr", True, XR), ("asa", True, ASA), ("asa", False, ASA), ("junos", True, JUN)]


SKIP = ("line_id", "diff_side", "diff_word")  # the notes which the differ keeps on a line


def is_prop(o, n):
    for k in type(o).__mro__:
        if n in k.__dict__:
            return isinstance(k.__dict__[n], property)
    return False


def props(o):
    return [n for n in sorted(dir(type(o))) if not n.startswith("_") and n not in SKIP and is_prop(o, n)]



RX = r"(\w+)"
CALLS = {  # questions with arguments; made afresh for each call
    "line": {
        "re_match": lambda o: o.re_match(RX), "re_search": lambda o: o.re_search("i"), "re_match_typed": lambda o: o.re_match_typed(r"(\d+)", result_type=int, default=-1),
        "re_match_typed_d": lambda o: o.re_match_typed(r"zzz(\d+)", default=[1]), "iter_typed": lambda o: o.re_match_iter_typed(r"address\s+(\S+)", result_type=str, default=""),
        "iter_typed_dict": lambda o: o.re_match_iter_typed(r"(?P<a>\S+)\s+(?P<b>\S+)", groupdict={"a": str, "b": str}, default=""), "re_search_children": lambda o: o.re_search_children("address"),
        "has_child_with": lambda o: o.has_child_with("address"), "str": lambda o: str(o), "repr": lambda o: repr(o), "hash": lambda o: hash(o) and 0, "len": lambda o: len(o), "children": lambda o: list(o.children),
        "parent": lambda o: o.parent, "is_comment": lambda o: o.is_comment, "indent": lambda o: o.indent, "linenum": lambda o: o.linenum,
    },
    "intf": {
        "in_ipv4_subnet": lambda o: o.in_ipv4_subnet(_v4("10.0.0.0/8")), "in_ipv4_subnets": lambda o: o.in_ipv4_subnets([_v4("10.0.0.0/8"), _v4("11.0.0.0/8")]), "is_abbreviated_as": lambda o: o.is_abbreviated_as("gig0/1"),
    },
    "list": {
        "len": lambda c: len(c), "has_line_with": lambda c: c.has_line_with("interface"), "hierarchy": lambda c: c.config_hierarchy(), "no_comments": lambda c: list(c.iter_no_comments()), "with_comments": lambda c: list(c.iter_with_comments()),
        "iter": lambda c: list(c), "slice": lambda c: list(c[1:3]), "index": lambda c: c.index(c[1]), "count": lambda c: c.count(c[1]), "repr": lambda c: repr(c), "str": lambda c: str(c), "copy": lambda c: [x.text for x in c.copy()],
        "in": lambda c: c[1] in c,
    },
    "config": {
        "repr": lambda p: repr(p), "find_lines": lambda p: p.find_lines("i"), "find_objects": lambda p: p.find_objects(r"^\s*i"), "find_all_children": lambda p: p.find_all_children("^interface"), "find_blocks": lambda p: p.find_blocks("address"),
        "find_child_objects": lambda p: p.find_child_objects(["interface", "."]), "find_child_objects2": lambda p: p.find_child_objects("interface", "."), "find_children": lambda p: p.find_children("^interface"),
        "find_children_w_parents": lambda p: p.find_children_w_parents("^interface", "."), "find_lineage": lambda p: p.find_lineage("address"), "branches": lambda p: p.find_object_branches(("interface", ".")),
        "branches_groups": lambda p: p.find_object_branches((r"(\S+)", r"(\S)(\S+)"), regex_groups=True), "all_children": lambda p: p.find_objects_w_all_children("^interface", ["address"]), "w_child": lambda p: p.find_objects_w_child("^interface", "."),
        "missing": lambda p: p.find_objects_w_missing_children("^interface", ["zzz"]), "w_parents": lambda p: p.find_objects_w_parents("^interface", "."), "wo_child": lambda p: p.find_objects_wo_child("^interface", "zzz"),
        "parent_objects": lambda p: p.find_parent_objects(["interface", "."]), "parent_wo": lambda p: p.find_parent_objects_wo_child("^interface", "zzz"), "pw": lambda p: p.find_parents_w_child("^interface", "."),
        "pwo": lambda p: p.find_parents_wo_child("^interface", "zzz"), "has_line_with": lambda p: p.has_line_with("a"), "iter_typed": lambda p: p.re_match_iter_typed(r"(\d+)", result_type=int), "search_children": lambda p: p.re_search_children("."),
        "req_all": lambda p: p.req_cfgspec_all_diff(["a", "b"]), "req_excl": lambda p: p.req_cfgspec_excl_diff("^hostname", "^hostname.+", ["hostname z"]), "sync": lambda p: p.sync_diff(["hostname z"], "", uncfgspec=".*") if p.syntax != "junos" else None,
        "dna": lambda p: p.find_objects_dna("Intf") if p.factory else None, "intf": lambda p: p.find_interface_objects("GigabitEthernet0/2") if p.syntax == "ios" and p.factory else None,
    },
}


def _v4(t):
    from ciscoconfparse.ccp_util import IPv4Obj
    return IPv4Obj(t)


def questions(p):
    """[(where, name, f)]: every question the configuration, its list and each of its lines answers"""
    out = []
    for where, o, tables in [("config", p, ["config"]), ("list", p.ConfigObjs, ["list"])] + [(i, x, ["line"] + (["intf"] if hasattr(type(x), "in_ipv4_subnet") else [])) for i, x in enumerate(p.ConfigObjs)]:
        for n in props(o):
            out.append((where, n, lambda o, n=n: getattr(o, n)))
        for t in tables:
            for n, f in CALLS[t].items():
                out.append((where, n + "()", f))
    return out


def target(p, where):
    return p if where == "config" else p.ConfigObjs if where == "list" else p.ConfigObjs[where]


def ask(p, q):
    try:
        return q[2](target(p, q[0]))
    except Exception as e:
        return ("raised", type(e).__name__)


def clean(x, top=True):
    from ciscoconfparse.ccp_abc import BaseCfgLine
    from ciscoconfparse.ccp_util import CiscoIOSInterface, CiscoRange, IPv4Obj, IPv6Obj
    import re
    if isinstance(x, BaseCfgLine):
        return ("line", x.linenum, x.text, type(x).__name__)
    if isinstance(x, (IPv4Obj, IPv6Obj)):
        return (type(x).__name__, str(x.as_cidr_addr))
    if isinstance(x, CiscoIOSInterface):
        return ("interface", str(x))
    if isinstance(x, CiscoRange):
        return ("range", [clean(y) for y in x])
    if isinstance(x, dict):
        return (type(x).__name__, sorted(((repr(k), clean(v)) for k, v in x.items()), key=repr))
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, sorted((clean(y) for y in x), key=repr))
    if isinstance(x, (list, tuple)) or type(x).__name__ in ("ConfigList", "deque"):
        return (type(x).__name__, [clean(y) for y in x])
    if isinstance(x, re.Match):
        return ("match", x.groups())
    if x is None or isinstance(x, (str, int, float, bool)):
        return (type(x).__name__, x)
    d = getattr(x, "__dict__", None)
    if d is not None and top and type(x).__module__.startswith("ciscoconfparse"):
        return (type(x).__name__, sorted((k, clean(v, False)) for k, v in d.items() if isinstance(v, (str, int, list, dict, set, tuple))))
    return type(x).__name__


def spoil(x):
    """changes everything in an answer which is a value and not a line of the configuration; returns how many things it changed"""
    from ciscoconfparse.ccp_util import CiscoIOSInterface, CiscoRange, IPv4Obj, IPv6Obj, L4Object
    n = 0
    if isinstance(x, (IPv4Obj, IPv6Obj)):
        try:
            x.prefixlen = 20 if x.prefixlen != 20 else 21
            x.network_offset = 3
        except ValueError:
            return 0  # the empty address of an interface without one cannot be changed
        return 1
    if isinstance(x, CiscoIOSInterface):
        x.prefix = "Spoiled"
        return 1
    if isinstance(x, CiscoRange):
        x.clear()
        return 1
    if isinstance(x, L4Object):
        x.port_list.append(99)
        return 1
    if isinstance(x, dict):
        for v in list(x.values()):
            n += spoil(v)
        x.clear()
        x["spoiled"] = 1
        return n + 1
    if isinstance(x, (set, list, tuple)):
        for v in list(x):
            n += spoil(v)
        if isinstance(x, set):
            x.clear()
            x.add("spoiled")
        elif isinstance(x, list):
            x.clear()
            x.append("spoiled")
        return n + 1
    return n


# ---- values: addresses, ranges, interfaces, ports, passwords, differences ----------------------------------------------
def values():
    from ciscoconfparse.ccp_util import CiscoIOSInterface, CiscoRange, IPv4Obj, IPv6Obj, L4Object
    from ciscoconfparse.ciscoconfparse import CiscoPassword, Diff, HDiff
    old, new = ["a", " b", "interface Vlan1", " shutdown", "!"], ["a", " d", "interface Vlan1", " no shutdown", "x"]
    addr = {"str()": str, "repr()": repr, "hash()": lambda a: hash(a) and 0, "int()": int, "+": lambda a: a + 3, "-": lambda a: a - 1, "==": lambda a: a == type(a)(str(a.as_cidr_addr)), "<": lambda a: a < type(a)(str(a.as_cidr_addr)) + 1,
            "in": lambda a: a in type(a)(str(a.as_cidr_net)), "contains": lambda a: a.__contains__(type(a)(str(a.as_cidr_addr))), "iter": lambda a: [str(x) for _, x in zip(range(3), a)], "index": lambda a: hash(a.__index__())}
    rng = {"str()": str, "repr()": repr, "hash()": lambda r: hash(r) and 0, "len()": len, "list()": lambda r: [clean(x) for x in r], "[]": lambda r: clean(r[1]), "slice": lambda r: [clean(x) for x in r[0:2]], "in": lambda r: r[0] in r,
           "compressed": lambda r: r.as_compressed_str(), "as_list": lambda r: [clean(x) for x in r.as_list()], "as_list_str": lambda r: r.as_list(result_type=str), "as_set_str": lambda r: r.as_set(result_type=str), "as_set": lambda r: list(map(clean, r.as_set())) and 0,
           "containers": lambda r: [r.as_list(), r.as_set()], "==": lambda r: r == r, "index": lambda r: r.index(r[1]), "count": lambda r: r.count(r[1]), "reversed": lambda r: [clean(x) for x in reversed(r)], "dup": lambda r: _quiet(lambda: r.append(r[0]))}
    ints = dict(rng, **{"+": lambda r: r + CiscoRange("20-22", result_type=int), "-": lambda r: r - CiscoRange("2", result_type=int)})
    intf = {"str()": str, "repr()": repr, "hash()": lambda i: hash(i) and 0, "as_dict": lambda i: i.as_dict(), "render": lambda i: i.render_as_string(), "==": lambda i: i == CiscoIOSInterface(str(i)), "<": lambda i: i < CiscoIOSInterface("Eth9/9"),
            ">": lambda i: i > CiscoIOSInterface("Eth9/9"), "long": lambda i: i.parse_intf_long(str(i).split()[0]) and 0, "short": lambda i: _quiet(lambda: i.parse_intf_short(str(i).split()[0])) and 0, "check": lambda i: i.check_interface_dict(i.as_dict()),
            "single": lambda i: _quiet(lambda: i.parse_single_interface(str(i))) and 0}
    return {
        "v4": (lambda: IPv4Obj("10.1.2.3/24"), addr), "v4host": (lambda: IPv4Obj("10.1.2.3"), addr), "v6": (lambda: IPv6Obj("2001:db8::5/64"), addr), "v6map": (lambda: IPv6Obj("::ffff:1.2.3.4/120"), addr),
        "range": (lambda: CiscoRange("1-5,9", result_type=int), ints), "irange": (lambda: CiscoRange("Eth1/1-3,Eth1/7"), rng), "backwards": (lambda: CiscoRange("1-5,9", result_type=int, reverse=True), rng),
        "intf": (lambda: CiscoIOSInterface("Serial4/5/6.7:8 multipoint"), intf), "intf2": (lambda: CiscoIOSInterface("GigabitEthernet0/1"), intf),
        "ports": (lambda: L4Object("tcp", "range 5 9", "asa"), {"repr()": repr, "==": lambda o: o == L4Object("tcp", "range 5 9", "asa"), "ports": lambda o: list(o.port_list), "protocol": lambda o: o.protocol}),
        "password": (lambda: CiscoPassword("04480E051A33490E"), {"decrypt": lambda o: o.decrypt(), "other": lambda o: o.decrypt("070C285F4D06"), "ep": lambda o: o.ep}),
        "hdiff": (lambda: HDiff(list(old), list(new)), {"unified": lambda d: d.unified_diffs()[3:], "plain": lambda d: d.unified_diffs(header=False), "contents": lambda d: d.unified_diffs_contents(), 
                                                        "header": lambda d: len(d.unified_diff_header(header_timestamp="x"))}),
        "diff": (lambda: Diff(old_config=list(old), new_config=list(new)), {"diff": lambda d: d.diff(), "rollback": lambda d: d.rollback()}),
    }


def _quiet(f):
    try:
        return clean(f())
    except Exception as e:
        return type(e).__name__


VALUES = ["v4", "v4host", "v6", "v6map", "range", "irange", "backwards", "intf", "intf2", "ports", "password", "hdiff", "diff"]


def vquestions(name):
    mk, table = values()[name]
    o = mk()
    return mk, [(n, lambda o, n=n: getattr(o, n)) for n in props(o)] + sorted(table.items())


def vask(o, q):
    try:
        return q[1](o)
    except Exception as e:
        return ("raised", type(e).__name__)


# ---- arguments ---------------------------------------------------------------------------------------------------------
LINES = ["hostname r1", "interface Ethernet0/1", " ip address 10.0.0.1 255.255.255.0", " no shutdown", "! note", "interface Ethernet0/2", " shutdown", "banner motd ^", " x", "^", "end"]


def arguments():
    """name -> (the arguments afresh, what is called with them, what is observed afterwards)"""
    from ciscoconfparse import CiscoConfParse
    from ciscoconfparse.ccp_util import CiscoIOSInterface, CiscoRange, IPv4Obj, as_text_list, collapse_addresses
    from ciscoconfparse.ciscoconfparse import Diff, HDiff

    def P(**k):
        return CiscoConfParse(list(LINES), **k)

    def state(p):
        return [(o.text, o.linenum, o.parent.linenum, [c.linenum for c in o.children], o.is_comment, o.indent) for o in p.ConfigObjs] + p.ioscfg

    def on(f, **k):
        def call(*a):
            p = P(**k)
            return p, f(p, *a)
        return call, lambda x: [state(x[0]), clean(x[1])]
    out = {}
    for syntax in ("ios", "nxos", "asa", "iosxr"):
        for factory in (False, True):
            for blank in (False, True):
                out[f"parse {syntax} {factory} {blank}"] = ([list(LINES)], lambda a, k=dict(syntax=syntax, factory=factory, ignore_blank_lines=blank): CiscoConfParse(a, **k), state)
    out["parse junos"] = ([list(JUN)], lambda a: CiscoConfParse(a, syntax="junos"), state)
    out["parse tuple"] = ([tuple(LINES)], lambda a: CiscoConfParse(a), state)
    out["find_child_objects"] = ([["interface", "address"]],) + on(lambda p, a: p.find_child_objects(a))
    out["find_parent_objects"] = ([["interface", "address"]],) + on(lambda p, a: p.find_parent_objects(a))
    for g in (False, True):
        out[f"branches {g}"] = ([("(interface)", "(address|shut)")],) + on(lambda p, a, g=g: p.find_object_branches(a, regex_groups=g))
    out["all_children"] = ([["address", "shut"]],) + on(lambda p, a: p.find_objects_w_all_children("^interface", a))
    out["missing"] = ([["address", "shut"]],) + on(lambda p, a: p.find_objects_w_missing_children("^interface", a))
    out["req_all"] = ([["hostname r1", "ntp server 1.1.1.1", "zzz"]],) + on(lambda p, a: p.req_cfgspec_all_diff(a))
    out["req_excl"] = ([["hostname r2", "hostname r1"]],) + on(lambda p, a: p.req_cfgspec_excl_diff("^hostname", r"^hostname\s\S+", a))
    for sort in (False, True):
        for rem in (False, True):
            out[f"sync {sort} {rem}"] = ([["interface Ethernet0/1", " no shutdown", " mtu 9000", "hostname z", "interface Ethernet0/2", " x"]],) + on(lambda p, a, sort=sort, rem=rem: p.sync_diff(a, "", uncfgspec=r"\S+", remove_lines=rem))
    out["groupdict"] = ([{"a": str, "b": str}],) + on(lambda p, a: p.ConfigObjs[1].re_match_iter_typed(r"address\s+(?P<a>\S+)\s+(?P<b>\S+)", groupdict=a, default=""))
    out["groupdict line"] = ([{"a": str}],) + on(lambda p, a: [o.re_match_iter_typed(r"(?P<a>\d)", groupdict=a, default=0) for o in p.ConfigObjs])
    out["groupdict more"] = ([{"a": str, "nothere": int}],) + on(lambda p, a: [_quiet(lambda: o.re_match_iter_typed(r"(?P<a>\d)", groupdict=a, default="")) for o in p.ConfigObjs])
    out["req_all none"] = ([["ntp server 1.1.1.1", "zzz"]],) + on(lambda p, a: p.req_cfgspec_all_diff(a))
    out["req_excl none"] = ([["hostname r2", "hostname r3"]],) + on(lambda p, a: p.req_cfgspec_excl_diff("^zzz", "^zzz", a))
    out["req_excl all"] = ([["hostname r1"]],) + on(lambda p, a: p.req_cfgspec_excl_diff("^hostname", r"^hostname\s\S+", a))
    out["sync same"] = ([list(LINES)],) + on(lambda p, a: p.sync_diff(a, "", uncfgspec=r"\S+"))
    out["default"] = ([["x"]],) + on(lambda p, a: p.ConfigObjs[0].re_match_typed("zzz(.)", default=a) and 0)
    out["subnets"] = ([[IPv4Obj("10.0.0.0/8"), IPv4Obj("11.0.0.0/8")]],) + on(lambda p, a: p.ConfigObjs[1].in_ipv4_subnets(a), factory=True)
    out["subnet"] = ([IPv4Obj("10.0.0.0/8")],) + on(lambda p, a: p.ConfigObjs[1].in_ipv4_subnet(a), factory=True)
    out["hdiff"] = ([list(LINES), LINES[3:] + ["x"]], lambda a, b: HDiff(a, b), lambda d: [d.unified_diffs()[3:]])
    out["hdiff parse"] = ([P(), CiscoConfParse(LINES[3:] + ["x"])], lambda a, b: HDiff(a, b), lambda d: [d.unified_diffs()[3:]])
    out["diff"] = ([list(LINES), LINES[:4] + ["hostname z"]], lambda a, b: Diff(old_config=a, new_config=b), lambda d: [d.diff(), d.rollback()])
    out["collapse"] = ([[IPv4Obj("10.0.1.0/24"), IPv4Obj("10.0.0.0/24"), IPv4Obj("10.0.0.9/24")]], lambda a: list(collapse_addresses(a)), lambda x: [str(y) for y in x])
    out["interface dict"] = ([CiscoIOSInterface("Eth1/2.3").as_dict()], lambda a: CiscoIOSInterface(interface_dict=a), lambda x: [str(x), x.as_dict()])
    out["extend range"] = ([[20, 30]], lambda a: (lambda r: (r.extend(a), r)[1])(CiscoRange("1-3", result_type=int)), lambda r: [list(r), r.as_compressed_str()])
    out["range minus"] = ([CiscoRange("2-9", result_type=int)], lambda a: CiscoRange("1-3", result_type=int) - a, lambda r: [list(r), r.as_compressed_str()])
    out["range plus"] = ([CiscoRange("2-9", result_type=int)], lambda a: CiscoRange("1-3", result_type=int) + a, lambda r: [list(r), r.as_compressed_str()])
    out["address in"] = ([IPv4Obj("10.0.0.0/8"), IPv4Obj("10.1.1.1/24")], lambda a, b: [b in a, a in b, a == b, a < b, sorted([b, a]) and 0], lambda x: x)
    out["text list"] = ([list(P().ConfigObjs)], lambda a: as_text_list(a), lambda x: x)
    for n in ("insert_before", "insert_after"):
        out["list " + n] = ([["x", " y"]],) + on(lambda p, a, n=n: _quiet(lambda: getattr(p.ConfigObjs, n)("hostname", a, atomic=True)) and 0)
    return out


ARGS = None
EDITS = [["sub", r"(\d+)", "7"], ["sub", r"\S+$", "zz"], ["del"], ["app", " zz 9"], ["after", "interface Loopback99"], ["after", " zzz"], ["text", "hostname other"]]


def edit(p, i, e):
    o = p.ConfigObjs[i]
    if e[0] == "sub":
        o.re_sub(e[1], e[2])
    elif e[0] == "del":
        o.delete()
    elif e[0] == "app":
        o.append_to_family(e[1])
    elif e[0] == "after":
        p.ConfigObjs.insert(i + 1, e[1])
    else:
        o.replace(o.text, e[1])
    p.commit()


PARTS = 16


def shards(tier):
    return [{"k": "pair", "c": c, "part": i} for c in range(len(CONFIGS)) for i in range(PARTS)] + [{"k": "value", "v": v} for v in VALUES] + [{"k": "args"}] + [{"k": "edit", "c": c, "e": e} for c in range(len(CONFIGS)) for e in range(len(EDITS))] + (
        [{"k": "edit", "c": c, "e": e, "single": 1} for c in range(len(CONFIGS)) for e in range(len(EDITS))] if tier != "quick" else [])


def cases(sh, tier):
    if sh["k"] == "pair":
        n = len(questions(parse(sh["c"])))
        for i in range(sh["part"], n, PARTS):
            yield {"k": "pair", "c": sh["c"], "a": i}
    elif sh["k"] == "value":
        for i in range(len(vquestions(sh["v"])[1])):
            yield {"k": "value", "v": sh["v"], "a": i}
    elif sh["k"] == "edit":
        for i in range(len(parse(sh["c"]).ConfigObjs)):
            case = {"k": "edit", "c": sh["c"], "e": sh["e"], "i": i}
            if "single" not in sh:
                yield case
                continue
            for a, q in enumerate(questions(parse(sh["c"]))):
                if q[0] in (i, "config", "list"):
                    yield dict(case, a=a)
    else:
        for n in arguments():
            yield {"k": "args", "n": n}


def parse(c):
    from ciscoconfparse import CiscoConfParse
    syntax, factory, lines = CONFIGS[c]
    return CiscoConfParse(list(lines), syntax=syntax, factory=factory)


_REF = {}


def reference(key, mk, qs, do):
    """the answer to every question asked first, of an object of its own"""
    if key not in _REF:
        _REF[key] = [clean(do(mk(), q)) for q in qs]
    return _REF[key]


def check(case, R):
    k = case["k"]
    if k == "pair":
        c = case["c"]
        qs = questions(parse(c))
        want = reference(("c", c), lambda: parse(c), qs, ask)
        p = parse(c)
        x = ask(p, qs[case["a"]])
        n = spoil(x)
        R.state((c, case["a"]))
        for q, w in zip(qs, want):
            got = clean(ask(p, q))
            R.step()
            if got != w:
                R.fail("answer", f"{CONFIGS[c][:2]}: after {qs[case['a']][:2]} was asked" + (" and what it returned was changed" if n else "") + f", {q[:2]} answers {got} instead of {w}")
        R.outcome((c, case["a"], repr(want[case["a"]])))
    elif k == "value":
        mk, qs = vquestions(case["v"])
        want = reference(("v", case["v"]), mk, qs, vask)
        o = mk()
        n = spoil(vask(o, qs[case["a"]]))
        R.state((case["v"], case["a"]))
        for twice in (0, 1):
            for q, w in zip(qs, want):
                got = clean(vask(o, q))
                R.step()
                if got != w:
                    R.fail("value", f"{case['v']}: after {qs[case['a']][0]} was asked" + (" and what it returned was changed" if n else "") + f", {q[0]} answers {got} instead of {w}")
        R.outcome((case["v"], case["a"], repr(want[case["a"]])))
    elif k == "edit":
        c, i, e = case["c"], case["i"], EDITS[case["e"]]
        asked, plain = parse(c), parse(c)
        for q in questions(asked) if "a" not in case else [questions(asked)[case["a"]]]:
            ask(asked, q)
        why = []
        for p in (asked, plain):
            try:
                edit(p, i, e)
                why.append(None)
            except Exception as x:
                why.append(type(x).__name__)
        R.eq("edit_refused", why[0], why[1], f"{CONFIGS[c][:2]} line {i} {e}:")
        if why[1]:
            return
        R.state((c, i, case["e"], case.get("a")))
        qa, qb = questions(asked), questions(plain)
        R.eq("edit_lines", [q[:2] for q in qa], [q[:2] for q in qb], f"{CONFIGS[c][:2]} line {i} {e}:")
        for q in qa:
            got, w = clean(ask(asked, q)), clean(ask(plain, q))
            R.step()
            if got != w:
                R.fail("stale", f"{CONFIGS[c][:2]}: line {i} {CONFIGS[c][2][i]!r} changed by {e} after {'every question' if 'a' not in case else questions(parse(c))[case['a']][:2]} was asked: {q[:2]} answers {got} instead of {w}")
        R.outcome(repr(asked.ioscfg))
    else:
        n = case["n"]
        a, call, see = arguments()[n]
        b, _, _ = arguments()[n]
        want = see(call(*b))
        before = [clean(x) for x in a]
        if n.startswith("hdiff parse"):
            before = [[(o.text, o.linenum) for o in x.ConfigObjs] for x in a]
        x = call(*a)
        first = see(x)
        after = [[(o.text, o.linenum) for o in y.ConfigObjs] for y in a] if n.startswith("hdiff parse") else [clean(y) for y in a]
        R.eq("argument", after, before, f"{n}: the arguments after the call")
        R.eq("twice", first, want, f"{n}:")
        x = call(*a)  # the same arguments again
        R.eq("again", see(x), want, f"{n}: with the same arguments again")
        if isinstance(x, (tuple, list)):
            spoil(call(*a)[1:] if isinstance(x, tuple) else call(*a))
            R.eq("result_is_argument", [clean(y) for y in a], before, f"{n}: the arguments after the result was changed")
        if n.startswith("hdiff parse"):
            for p in a:
                p.ConfigObjs[0].delete()
        else:
            for y in a:
                spoil(y)
        R.eq("kept", see(x), want, f"{n}: after its arguments were changed")
        R.state(n)
        R.outcome(repr(want))
        R.step(4)
    R.trace()
