"""Debugging and logging only watch: every operation gives the same result at every debug level and with logging on."""
import contextlib
import io
import itertools

from mc import ref

ID = "C42"
FILES = ["ciscoconfparse.py", "ccp_abc.py", "ccp_util.py"]
ASSUMPTIONS = ["the result of an operation without debugging and logging is decided by the other properties; the reference here is that result (or the type of its exception)",
               "a log sink accepts every message (loguru itself formats them)"]
LINES = {
    "ios": ["hostname {x}", "interface Vlan1", " ip address 1.1.1.1 255.255.255.0", "  %s %d {}", " <red>no shut</red>", "!", "banner motd ^C", "hello {0} ^C", " switchport trunk allowed vlan 1,3-5", ""],
    "nxos": ["hostname {x}", "interface Ethernet1/1", "  ip address 1.1.1.1/24", "    %s %d {}", "  <red>no shut</red>", "!", "vpc domain 5", "ip route 0.0.0.0/0 1.1.1.1"],
    "asa": ["hostname {x}", "interface Vlan1", " nameif {}", "object-group network A", " network-object host 1.1.1.1", "!", "access-list A extended permit ip any any", "name 1.1.1.1 x"],
    "iosxr": ["hostname {x}", "interface Loopback1", " ipv4 address 1.1.1.1 255.255.255.255", "  %s %d {}", "!", "router ospf 1"],
    "junos": ["a {", "b {", "c;", "}", "d <x>;", "# {0} %s"],
}
SPECS = [["interface"], ["interface", "ip"], ["(inter)face", r"(\S+) address", "%s"], ["zz", "x"], ["^", "^"]]
ADDR = ["1.2.3.4", "1.2.3.4/24", "1.2.3.4 255.255.255.0", "::1", "2001:db8::/32", "x", "1.2.3", "", "{}", "::ffff:1.2.3.4", 7, None]
INTF = ["Ethernet1", "Ethernet1/2", "Ethernet1/2/3", "Ethernet1/2/3.4", "Ethernet1/2/3.4:5", "Serial1/0:3 multipoint", "x", "", "Gi0/{}", "Loopback 1", "Ethernet1/2.3 l2transport", "port-channel1"]
RANGES = [("1-3,5", int), ("1,1,2", int), ("", int), ("Eth1/1-3,5", None), ("Eth1/1,Eth1/3-4", None), ("Eth1/1.1-3", None), ("Eth1/2/3:4-5", None), ("x", int), ("{}", None), ("Eth1/1-3 multipoint", None), ("3-5", str)]
LEVELS = [1, 2, 3, 4, 5]
BOUNDS = {
    "quick": f"every configuration of up to 2 lines (of 6 texts: up to 3) over {len(LINES['ios'])} texts (braces, percent signs, markup) of five syntaxes, with factory on and off, its queries, edits and diffs; {len(ADDR)} addresses, {len(INTF)} interfaces, "
             f"{len(RANGES)} ranges with their edits; each at debug levels 1 to 5 (longer configurations: 2 and 5, or 5) and with logging on",
    "thorough": "every configuration of up to 3 lines at every level; diffs of up to 4 lines",
}


def shards(tier):
    return [{"k": "cfg", "syn": s, "first": i} for s in LINES for i in range(len(LINES[s]))] + [{"k": "hdiff", "first": i} for i in range(5)] + [{"k": "addr"}, {"k": "intf"}, {"k": "range"}, {"k": "junos"}, {"k": "rx"}, {"k": "ctl"}]


def cases(sh, tier):
    q = tier == "quick"
    if sh["k"] == "cfg":
        pool = len(LINES[sh["syn"]])
        for n in range(3):
            for rest in itertools.product(range(pool), repeat=n):
                if q and n == 2 and max(sh["first"], *rest) > 5:
                    continue
                for f in (False, True):
                    yield {"k": "cfg", "syn": sh["syn"], "f": f, "c": [sh["first"], *rest], "lv": LEVELS if n < 1 or not q else [2, 5] if n == 1 else [5]}
    elif sh["k"] == "hdiff":
        for n, m in itertools.product(range(2 if q else 3), range(1, 3 if q else 4)):
            for a in itertools.product(range(5), repeat=n):
                for b in itertools.product(range(5), repeat=m):
                    yield {"k": "hdiff", "a": [sh["first"], *a], "b": list(b)}
    elif sh["k"] == "junos":
        for n in range(1, 5 if q else 6):
            for c in itertools.product(range(len(LINES["junos"])), repeat=n):
                yield {"k": "junos", "c": list(c)}
    elif sh["k"] == "range":
        for i in range(len(RANGES)):
            for op in (None, ["append", 4], ["append", 2], ["remove", 2], ["remove", 9], ["append", "Eth1/9"], ["remove", "Eth1/1"], ["remove", "{}"]):
                yield {"k": "range", "i": i, "op": op}
    else:
        pool = {"addr": ADDR, "intf": INTF, "rx": RX, "ctl": CTL}[sh["k"]]
        for i in range(len(pool)):
            yield {"k": sh["k"], "i": i}


RX = [(r"ip address (\S+)", " ip address 1.1.1.1 255.255.255.0"), (r"{", "a {0}"), ("%s", " %s %d"), ("zz", "a"), (r"(\d+)", "vlan 12 13"), ("ip address", "ip address"), (r"(\S)(\S)?", "a")]
CTL = ["off", "on", "read_only"]


def outcome(fn):
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            return fn()
    except Exception as e:
        return ("raised", type(e).__name__)


@contextlib.contextmanager
def logging(log):
    from loguru import logger
    logger.enable("ciscoconfparse")
    h = logger.add(log.append, level=0, colorize=True, backtrace=True, diagnose=True, catch=False)
    try:
        yield
    finally:
        logger.remove(h)
        logger.disable("ciscoconfparse")


def tree(p):
    return [(type(o).__name__, *row) for o, row in zip(p.ConfigObjs, ref.impl_tree(p.ConfigObjs))]


def cfg(texts, syn, f):
    from ciscoconfparse import CiscoConfParse

    def parse(d):
        return CiscoConfParse(list(texts), syntax=syn, factory=f, debug=d, **({"comment": "#"} if syn == "junos" else {}))

    def lines(rows):
        return [[None if o is None else o.text for o in row] for row in rows]

    def edits(d):
        p = parse(d)
        out = []
        for o in [p.ConfigObjs[0], p.ConfigObjs[-1]]:
            o.append_to_family("{y} %s", auto_indent=True)
            p.commit()
            out.append(tree(p))
        p.insert_before("interface", "zz {0}")
        p.commit()
        p.replace_lines("ip", "{ip}")
        p.commit()
        p.prepend_line("<b>")
        p.append_line("%d")
        out.append(tree(p))
        p.delete_lines("interface")
        out.append(tree(p))
        p.ConfigObjs[0].delete()
        p.commit()
        return out + [tree(p)]

    def atomic(d):
        p = parse(d)
        p.ConfigObjs.insert(0, "x {}")
        p.ConfigObjs.append("y {0}")
        p.ConfigObjs.insert_before("x", "w", atomic=True)
        p.ConfigObjs.insert_after("y", "z", atomic=True)
        p.ConfigObjs.pop(0)
        return tree(p)

    yield "parse", lambda d: tree(parse(d))
    for spec in SPECS:
        yield f"find_object_branches({spec})", lambda d, spec=spec: lines(parse(0).find_object_branches(tuple(spec), debug=d))
        yield f"find_object_branches({spec}) of a parse with debug", lambda d, spec=spec: lines(parse(d).find_object_branches(tuple(spec)))
        yield f"find_object_branches({spec}, regex_groups=True)", lambda d, spec=spec: parse(0).find_object_branches(tuple(spec), regex_groups=True, debug=d)
    yield "edits", edits
    yield "atomic edits", atomic
    yield "queries", lambda d: (lambda p: ([o.text for o in p.find_objects("ip|%|{")], [o.text for o in p.find_parent_objects("i", " i")], [o.text for o in p.find_child_objects("i", " i")], p.find_blocks("ip"), p.find_all_children("ip"),
                                           p.find_lines("i"), [[o.text for o in r] for r in p.find_object_branches(("i", "i")) if r[0] is not None]))(parse(d))
    yield "sync_diff", lambda d: parse(0).sync_diff(["hostname {y}", "interface Vlan1"], "hostname|interface", r"\S+.*", debug=d)
    yield "sync_diff of a parse with debug", lambda d: parse(d).sync_diff(["hostname {y}"], "hostname|interface|%", r"\S+.*")
    yield "req_cfgspec_excl_diff", lambda d: parse(d).req_cfgspec_excl_diff("hostname", "hostname", ["hostname {y}"])


def junos(texts):
    from ciscoconfparse import CiscoConfParse
    from ciscoconfparse.ciscoconfparse import convert_junos_to_ios
    yield "convert_junos_to_ios", lambda d: convert_junos_to_ios(list(texts), comment_delimiter="#", debug=d)
    yield "parse", lambda d: tree(CiscoConfParse(list(texts), syntax="junos", comment="#", debug=d))


def hdiff(a, b):
    from ciscoconfparse import HDiff
    pool = ["hostname {x}", "interface Vlan1", " ip address 1.1.1.1 255.255.255.0", "  %s %d {}", " <red>no shut</red>"]
    a, b = [pool[i] for i in a], [pool[i] for i in b]
    yield "HDiff", lambda d: HDiff(before_config=list(a), after_config=list(b), debug=d).unified_diffs(header=False)


def addr(a):
    from ciscoconfparse.ccp_util import IPv4Obj, IPv6Obj, ip_factory
    for cls in (IPv4Obj, IPv6Obj):
        for strict in (False, True):
            yield f"{cls.__name__}({a!r}, strict={strict})", lambda d, cls=cls, strict=strict: repr(cls(a, strict=strict, debug=d))
    for mode in ("auto_detect", "ipv4", "ipv6"):
        for std in (False, True):
            yield f"ip_factory({a!r}, stdlib={std}, mode={mode})", lambda d, mode=mode, std=std: repr(ip_factory(a, stdlib=std, mode=mode, debug=d))


def intf(n):
    from ciscoconfparse.ccp_util import CiscoIOSInterface as I

    def whole(d):
        o = I(n, debug=d)
        o2 = I(interface_dict=o.as_dict(), debug=d)
        o.update_internal_state(intf_dict=o2.as_dict(), debug=d)
        return str(o), o.as_dict(), str(o2), o == o2, o.sort_list
    yield f"CiscoIOSInterface({n!r})", whole


def rng(i, op):
    from ciscoconfparse.ccp_util import CiscoIOSInterface, CiscoRange
    text, rt = RANGES[i]

    def whole(d):
        d = bool(d)
        r = CiscoRange(text, result_type=rt, debug=d)
        if op:
            v = op[1]
            v = CiscoIOSInterface(v) if isinstance(v, str) and v[0] == "E" else v
            for ign in (True, False):
                getattr(r, op[0])(v, ignore_errors=ign, debug=d)
        return [str(m) for m in r], r.as_compressed_str(debug=d), str(r), len(r)
    yield f"CiscoRange({text!r}, {rt}) {op}", whole


def rx(regex, text):
    from ciscoconfparse import CiscoConfParse
    from ciscoconfparse.ccp_util import __ccp_re__ as Rx
    o = CiscoConfParse(["x " + text, " " + text]).ConfigObjs[0]
    yield f"re_search({regex!r}) of {text!r}", lambda d: o.re_search(regex, default="no", debug=d)
    for kw in ({}, {"recurse": False}, {"result_type": int, "default": -1}, {"groupdict": {}}):
        yield f"re_match_iter_typed({regex!r}, {kw}) of {text!r}", lambda d, kw=kw: o.re_match_iter_typed(regex, debug=d, **kw)
    yield f"ccp_re({regex!r}) of {text!r}", lambda d: (Rx(regex, debug=d).s(text), Rx(regex, target_str=text, debug=d).captured)
    import re
    m = re.search(r"(?P<a>\w)", text)
    yield f"get_typed_dict of {text!r}", lambda d: o.get_typed_dict(m, type_dict={"a": str}, default="-", debug=d)


def control(mode):
    """What the log control functions do to a sink of their own."""
    from loguru import logger
    from ciscoconfparse.ccp_util import ccp_logger_control
    from ciscoconfparse import CiscoConfParse

    def noise():
        try:
            CiscoConfParse(["a"], syntax="zz")
        except Exception:
            pass
        CiscoConfParse(["a", " b"], debug=5).find_object_branches(("a", "b"), debug=5)

    def whole(d):
        sink = io.StringIO()
        ids = []
        try:
            mine = []
            ids = ccp_logger_control(sink=sink, action="add", enqueue=False, active_handlers=mine, read_only=mode == "read_only", debug=d)
            noise()
            on = len(sink.getvalue()) > 0
            ccp_logger_control(action="disable", debug=d)
            at = len(sink.getvalue())
            noise()
            off = len(sink.getvalue()) == at
            ccp_logger_control(action="enable", debug=d)
            noise()
            again = len(sink.getvalue()) > at
            at = len(sink.getvalue())
            given = mine == ids
            ccp_logger_control(action="remove", active_handlers=list(ids), debug=d)
            ids = []
            at = len(sink.getvalue())
            noise()
            removed = len(sink.getvalue()) == at
            return on, off, again, removed, given
        finally:
            for h in ids:
                logger.remove(h)
            logger.disable("ciscoconfparse")
    yield "ccp_logger_control", whole


def check(case, R):
    k = case["k"]
    R.state(str(case))
    R.trace()
    if k == "cfg":
        texts = [LINES[case["syn"]][i] for i in case["c"]]
        ops = cfg(texts, case["syn"], case["f"])
        what = f"{texts} {case['syn']} factory={case['f']}"
    elif k == "hdiff":
        ops, what = hdiff(case["a"], case["b"]), str(case)
    elif k == "junos":
        texts = [LINES["junos"][i] for i in case["c"]]
        ops, what = junos(texts), str(texts)
    elif k == "range":
        ops, what = rng(case["i"], case["op"]), ""
    elif k == "addr":
        ops, what = addr(ADDR[case["i"]]), ""
    elif k == "intf":
        ops, what = intf(INTF[case["i"]]), ""
    elif k == "rx":
        ops, what = rx(*RX[case["i"]]), ""
    else:
        for name, fn in control(CTL[case["i"]]):
            for d in (0, 1, 5):
                R.step()
                R.eq("log control", outcome(lambda: fn(d)), (True, True, True, True, True), f"{name} debug={d}: messages after add, none after disable, again after enable, none after remove; the handlers are the ones given:")
                R.outcome(d)
        return
    log = []
    for name, fn in ops:
        want = outcome(lambda: fn(0))
        R.step()
        for d in case.get("lv", LEVELS):
            R.step()
            got = outcome(lambda: fn(d))
            R.true("debug", same(got, want), f"{what} {name}: debug={d} gives {str(got)[:300]}, debug=0 {str(want)[:300]}")
        for d in (0, 5) if case.get("lv") in (None, LEVELS) else (5,):
            R.step()
            with logging(log):
                got = outcome(lambda: fn(d))
            R.true("logging", same(got, want), f"{what} {name}: with logging, debug={d} gives {str(got)[:300]}, without {str(want)[:300]}")
        R.outcome((name.split("(")[0], want[1] if isinstance(want, tuple) and want[:1] == ("raised",) else "value"))
    R.outcome(("log", bool(log)))


def same(a, b):
    return type(a) is type(b) and a == b
